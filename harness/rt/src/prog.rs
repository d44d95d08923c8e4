//! Programs (format strings with types) and a reference matcher for them.
//!
//! The reference: a format matches the whole input; every placeholder tries its texts in the order
//! that its documented regex prefers, the first assignment that covers the input wins.
use crate::model::*;
use crate::sym::*;

#[derive(Clone, Debug)]
pub enum Val {
    Int(bool, u128),
    /// a borrowed part of the input: offset and length
    Slice(usize, usize),
    /// an owned text
    Text(Vec<u8>),
    Char(u32),
    Bool(bool),
    /// the variant of an enum
    Var(usize),
    Bits(u64),
}

impl Val {
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Int(a, b), Val::Int(c, d)) => (*b == *d) & ((*a == *c) | (*b == 0)),
            (Val::Slice(a, b), Val::Slice(c, d)) => (*a == *c) & (*b == *d),
            (Val::Text(a), Val::Text(b)) => same_bytes(a, b),
            (Val::Char(a), Val::Char(b)) => *a == *b,
            (Val::Bool(a), Val::Bool(b)) => *a == *b,
            (Val::Var(a), Val::Var(b)) => *a == *b,
            (Val::Bits(a), Val::Bits(b)) => *a == *b,
            _ => false,
        }
    }
}
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

#[derive(Clone, Copy)]
pub enum K {
    Dec(Int),
    Nz(Int),
    Radix(Int, u32, Prefix),
    /// &str: as few characters as possible
    Str,
    /// String
    Owned,
    /// PathBuf: as many as possible
    Path,
    Char,
    Bool,
    /// ends in the order of preference, and the conversion of the text
    Custom(fn(&[u8], usize) -> Vec<usize>, fn(&'static str, usize, usize) -> Option<Val>),
}

pub enum P {
    L(&'static str),
    Ph(K),
    /// a placeholder with a conversion
    Map(K, fn(Val) -> Option<Val>),
    /// a value that is not in the text
    C(fn() -> Val),
    Sub(&'static [P]),
    Alt(&'static [(usize, &'static [P])]),
    /// the text in any case
    Ci(&'static str),
    /// text without a value: ends in the order of preference
    Re(fn(&[u8], usize) -> Vec<usize>),
}

#[derive(Clone, Copy)]
pub enum Ev {
    Piece(K, Option<fn(Val) -> Option<Val>>, usize, usize),
    Const(fn() -> Val),
    Var(usize),
}

pub const fn int<T: Integer>() -> Int {
    T::INT
}

/// length of the character at i
pub fn width(c: u8) -> usize {
    if c < 0x80 {
        1
    } else if c < 0xe0 {
        2
    } else if c < 0xf0 {
        3
    } else {
        4
    }
}

/// ends of runs of 1.. characters that are no line feed
pub fn runs(s: &[u8], pos: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut i = pos;
    while i < s.len() && s[i] != b'\n' {
        i += width(s[i]);
        v.push(i);
    }
    v
}
/// ends of runs of 1..=max bytes with f
pub fn runs_of(s: &[u8], pos: usize, max: usize, f: impl Fn(u8) -> bool) -> Vec<usize> {
    let mut v = vec![];
    let mut i = pos;
    while i < s.len() && v.len() < max && f(s[i]) {
        i += 1;
        v.push(i);
    }
    v
}
/// The zeros of the decimal digits (Unicode Nd) that are not ASCII: `\d` of a regex matches them,
/// but no conversion of std accepts them.
const ZEROS: [u32; 75] = [0x660, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xa66, 0xae6, 0xb66, 0xbe6, 0xc66, 0xce6, 0xd66, 0xde6, 0xe50, 0xed0, 0xf20, 0x1040, 0x1090, 0x17e0, 0x1810, 0x1946, 0x19d0, 0x1a80, 0x1a90, 0x1b50, 0x1bb0, 0x1c40, 0x1c50, 0xa620, 0xa8d0, 0xa900, 0xa9d0, 0xa9f0, 0xaa50, 0xabf0, 0xff10, 0x104a0, 0x10d30, 0x10d40, 0x11066, 0x110f0, 0x11136, 0x111d0, 0x112f0, 0x11450, 0x114d0, 0x11650, 0x116c0, 0x116d0, 0x116da, 0x11730, 0x118e0, 0x11950, 0x11bf0, 0x11c50, 0x11d50, 0x11da0, 0x11f50, 0x16130, 0x16a60, 0x16ac0, 0x16b50, 0x16d70, 0x1ccf0, 0x1d7ce, 0x1d7d8, 0x1d7e2, 0x1d7ec, 0x1d7f6, 0x1e140, 0x1e2f0, 0x1e4f0, 0x1e5f1, 0x1e950, 0x1fbf0];
fn is_nd(c: u32) -> bool {
    let mut r = false;
    for z in ZEROS {
        r |= c.wrapping_sub(z) < 10;
    }
    r
}
/// ends of runs of 1..=max decimal digits of any script
fn decimal_runs(s: &[u8], pos: usize, max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut i = pos;
    while i < s.len() && v.len() < max {
        let w = width(s[i]);
        let yes = if w == 1 { s[i].is_ascii_digit() } else { is_nd(decode(&s[i..i + w])) };
        if !yes {
            break;
        }
        i += w;
        v.push(i);
    }
    v
}
fn rev(mut v: Vec<usize>) -> Vec<usize> {
    v.reverse();
    v
}
pub fn lit(s: &[u8], pos: usize, l: &[u8]) -> bool {
    pos + l.len() <= s.len() && same_bytes(&s[pos..pos + l.len()], l)
}

/// ASCII text in any case; k and s have a third form
fn fold(s: &[u8], pos: usize, l: &[u8]) -> Vec<usize> {
    let mut p = pos;
    for c in l {
        let low = *c | 32;
        let letter = low >= b'a' && low <= b'z';
        if p < s.len() && (s[p] == *c || letter && s[p] | 32 == low) {
            p += 1;
        } else if low == b'k' && lit(s, p, "\u{212a}".as_bytes()) {
            p += 3;
        } else if low == b's' && lit(s, p, "\u{17f}".as_bytes()) {
            p += 2;
        } else {
            return vec![];
        }
    }
    vec![p]
}

impl K {
    pub fn ends(&self, s: &[u8], pos: usize) -> Vec<usize> {
        match self {
            K::Dec(i) | K::Nz(i) | K::Radix(i, _, _) => {
                let mut p = pos;
                if p < s.len() && (s[p] == b'+' || i.signed && s[p] == b'-') {
                    p += 1;
                }
                let (radix, prefix) = match self {
                    K::Radix(_, r, p) => (*r, *p),
                    _ => (10, Prefix::Never),
                };
                let mut max = max_digits(i.limit(i.signed), radix);
                if i.bits == 64 && !matches!(self, K::Radix(..)) {
                    max = 20; // also documented for the signed ones
                }
                let digits = |p: usize| rev(runs_of(s, p, max, |c| digit(c, radix).is_some()));
                match self {
                    K::Dec(_) => return rev(decimal_runs(s, p, max)),
                    K::Nz(_) if p >= s.len() || s[p] < b'1' || s[p] > b'9' => return vec![],
                    K::Nz(_) => {
                        let mut v = rev(decimal_runs(s, p + 1, max - 1));
                        v.push(p + 1);
                        return v;
                    }
                    _ => {}
                }
                match prefix {
                    Prefix::Never => digits(p),
                    _ => {
                        let letter = match radix { 16 => b'x', 8 => b'o', _ => b'b' };
                        let has = p + 2 <= s.len() && s[p] == b'0' && (s[p + 1] == letter || s[p + 1] == letter - 32);
                        let mut v = if has { digits(p + 2) } else { vec![] };
                        if prefix == Prefix::Optional {
                            v.extend(digits(p));
                        }
                        v
                    }
                }
            }
            K::Str | K::Owned => runs(s, pos),
            K::Path => rev(runs(s, pos)),
            K::Char => runs(s, pos).into_iter().take(1).collect(),
            K::Bool => {
                if lit(s, pos, b"true") {
                    vec![pos + 4]
                } else if lit(s, pos, b"false") {
                    vec![pos + 5]
                } else {
                    vec![]
                }
            }
            K::Custom(f, _) => f(s, pos),
        }
    }
    /// the value of s[a..b], which `ends` returned; None if it is out of range
    pub fn value(&self, s: &'static str, a: usize, b: usize) -> Option<Val> {
        let t = &s.as_bytes()[a..b];
        match self {
            K::Dec(i) | K::Nz(i) | K::Radix(i, _, _) => {
                let (radix, prefix) = match self {
                    K::Radix(_, r, p) => (*r, *p),
                    _ => (10, Prefix::Never),
                };
                match i.want(t, radix, prefix) {
                    Want::Value(n, m) | Want::Either(n, m) => Some(Val::Int(n, m)),
                    Want::Reject => None,
                }
            }
            K::Str => Some(Val::Slice(a, b - a)),
            K::Owned | K::Path => Some(Val::Text(t.to_vec())),
            K::Char => Some(Val::Char(decode(t))),
            K::Bool => Some(Val::Bool(t.len() == 4)),
            K::Custom(_, f) => f(s, a, b),
        }
    }
}

/// the code point of one character
pub fn decode(t: &[u8]) -> u32 {
    let c = |i: usize| (t[i] & 0x3f) as u32;
    match t.len() {
        1 => t[0] as u32,
        2 => ((t[0] & 0x1f) as u32) << 6 | c(1),
        3 => ((t[0] & 0x0f) as u32) << 12 | c(1) << 6 | c(2),
        _ => ((t[0] & 0x07) as u32) << 18 | c(1) << 12 | c(2) << 6 | c(3),
    }
}

type Cont<'a> = &'a mut dyn FnMut(usize, &mut Vec<Ev>) -> bool;

pub fn go(parts: &[P], s: &[u8], pos: usize, out: &mut Vec<Ev>, k: Cont) -> bool {
    let Some((p, rest)) = parts.split_first() else { return k(pos, out) };
    let n = out.len();
    let ends = match p {
        P::L(l) => return lit(s, pos, l.as_bytes()) && go(rest, s, pos + l.len(), out, k),
        P::C(f) => {
            out.push(Ev::Const(*f));
            if go(rest, s, pos, out, k) {
                return true;
            }
            out.truncate(n);
            return false;
        }
        P::Sub(ps) => return go(ps, s, pos, out, &mut |p, o| go(rest, s, p, o, k)),
        P::Alt(alts) => {
            for (i, ps) in alts.iter() {
                out.push(Ev::Var(*i));
                if go(ps, s, pos, out, &mut |p, o| go(rest, s, p, o, k)) {
                    return true;
                }
                out.truncate(n);
            }
            return false;
        }
        P::Ph(kind) | P::Map(kind, _) => kind.ends(s, pos),
        P::Re(f) => f(s, pos),
        P::Ci(l) => fold(s, pos, l.as_bytes()),
    };
    for e in ends {
        match p {
            P::Ph(kind) => out.push(Ev::Piece(*kind, None, pos, e)),
            P::Map(kind, f) => out.push(Ev::Piece(*kind, Some(*f), pos, e)),
            _ => {}
        }
        if go(rest, s, e, out, k) {
            return true;
        }
        out.truncate(n);
    }
    false
}

pub enum Outcome {
    NoMatch,
    /// matched, but a conversion failed
    Failed,
    Values(Vec<Val>),
}

pub fn reference(parts: &[P], s: &'static str) -> Outcome {
    let b = s.as_bytes();
    let mut ev = vec![];
    if !go(parts, b, 0, &mut ev, &mut |p, _| p == b.len()) {
        return Outcome::NoMatch;
    }
    let mut v = vec![];
    for e in ev {
        let x = match e {
            Ev::Var(i) => Some(Val::Var(i)),
            Ev::Const(f) => Some(f()),
            Ev::Piece(k, f, a, b) => {
                let x = k.value(s, a, b);
                match f {
                    Some(f) => x.and_then(f),
                    None => x,
                }
            }
        };
        match x {
            Some(x) => v.push(x),
            None => return Outcome::Failed,
        }
    }
    Outcome::Values(v)
}

/// Conversion of results
pub trait ToVal {
    fn val(self, s: &'static str) -> Val;
}
macro_rules! to_val {
    ($($t:ident $nz:ident)*) => {$(
        impl ToVal for $t {
            fn val(self, _: &'static str) -> Val {
                #[allow(unused_comparisons)]
                let neg = self < 0;
                Val::Int(neg, if neg { (self as i128).unsigned_abs() } else { self as u128 })
            }
        }
        impl ToVal for std::num::$nz {
            fn val(self, s: &'static str) -> Val {
                self.get().val(s)
            }
        }
    )*};
}
to_val!(u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64 u128 NonZeroU128 usize NonZeroUsize
    i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 i128 NonZeroI128 isize NonZeroIsize);
impl ToVal for &str {
    fn val(self, s: &'static str) -> Val {
        Val::Slice((self.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize), self.len())
    }
}
impl ToVal for String {
    fn val(self, _: &'static str) -> Val {
        Val::Text(self.into_bytes())
    }
}
impl ToVal for std::path::PathBuf {
    fn val(self, _: &'static str) -> Val {
        Val::Text(self.into_os_string().into_encoded_bytes())
    }
}
impl ToVal for std::borrow::Cow<'_, str> {
    fn val(self, s: &'static str) -> Val {
        match self {
            std::borrow::Cow::Borrowed(b) => b.val(s),
            std::borrow::Cow::Owned(b) => b.val(s), // not borrowed: a Text, which is no Slice
        }
    }
}
impl ToVal for char {
    fn val(self, _: &'static str) -> Val {
        Val::Char(self as u32)
    }
}
impl ToVal for bool {
    fn val(self, _: &'static str) -> Val {
        Val::Bool(self)
    }
}
impl ToVal for Val {
    fn val(self, _: &'static str) -> Val {
        self
    }
}

#[macro_export]
macro_rules! vals {
    ($s:expr; $($x:expr),* $(,)?) => { vec![$($crate::prog::ToVal::val($x, $s)),*] };
}

/// `one!(s, "{T}", |x| [..])`: a result with one value, flattened in the order of the text
#[macro_export]
macro_rules! flat {
    ($s:expr, $r:expr) => { $r.map(|x| { let mut o = vec![]; $crate::prog::Flat::flat(x, $s, &mut o); o }) };
}
/// Values of derived types, in the order of the text
pub trait Flat {
    fn flat(self, s: &'static str, o: &mut Vec<Val>);
}
/// `flat_as!(Type: |x| a, b, c)`: the parts in the order of the text
#[macro_export]
macro_rules! flat_as {
    ($($t:ty: |$x:pat_param| $($e:expr),* ;)*) => {$(
        impl $crate::prog::Flat for $t {
            #[allow(unused_variables)]
            fn flat(self, s: &'static str, o: &mut Vec<$crate::prog::Val>) {
                let $x = self;
                $($crate::prog::Flat::flat($e, s, o);)*
            }
        }
    )*};
}
#[macro_export]
macro_rules! flat_enum {
    ($($t:ty { $($i:literal $p:pat => [$($e:expr),*],)* })*) => {$(
        impl $crate::prog::Flat for $t {
            #[allow(unused_variables)]
            fn flat(self, s: &'static str, o: &mut Vec<$crate::prog::Val>) {
                match self {
                    $($p => { o.push($crate::prog::Val::Var($i)); $($crate::prog::Flat::flat($e, s, o);)* })*
                }
            }
        }
    )*};
}
macro_rules! flat_val {
    ($($t:ty)*) => {$(impl Flat for $t { fn flat(self, s: &'static str, o: &mut Vec<Val>) { o.push(self.val(s)) } })*};
}
flat_val!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize &str String std::path::PathBuf std::borrow::Cow<'_, str> char bool Val);
impl Flat for () {
    fn flat(self, _: &'static str, _: &mut Vec<Val>) {}
}
macro_rules! flat_tuple {
    ($($t:ident)*) => { #[allow(non_snake_case)] impl<$($t: Flat),*> Flat for ($($t,)*) {
        fn flat(self, s: &'static str, o: &mut Vec<Val>) { let ($($t,)*) = self; $($t.flat(s, o);)* }
    } };
}
flat_tuple!(A);
flat_tuple!(A B);
flat_tuple!(A B C);
flat_tuple!(A B C D);

pub const U8: K = K::Dec(int::<u8>());
pub const U16: K = K::Dec(int::<u16>());
pub const U32: K = K::Dec(int::<u32>());
pub const U64: K = K::Dec(int::<u64>());
pub const US: K = K::Dec(int::<usize>());
pub const I8: K = K::Dec(int::<i8>());
pub const I16: K = K::Dec(int::<i16>());
pub const I32: K = K::Dec(int::<i32>());
pub const I64: K = K::Dec(int::<i64>());
pub const H8: K = K::Radix(int::<u8>(), 16, Prefix::Never);
pub const X8: K = K::Radix(int::<u8>(), 16, Prefix::Optional);
pub const X16: K = K::Radix(int::<u16>(), 16, Prefix::Optional);

fn any_case(s: &[u8], p: usize, l: &[u8]) -> bool {
    if p + l.len() > s.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..l.len() {
        d |= (s[p + i] | 32) ^ l[i];
    }
    d == 0
}
fn digits_desc(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = decimal_runs(s, p, usize::MAX);
    v.reverse();
    v
}
/// ends of numbers of the form that f32 and f64 document
pub fn float_ends(s: &[u8], pos: usize) -> Vec<usize> {
    let mut p = pos;
    if p < s.len() && (s[p] == b'+' || s[p] == b'-') {
        p += 1;
    }
    let mut v = vec![];
    for l in [&b"inf"[..], b"infinity", b"nan"] {
        if any_case(s, p, l) {
            v.push(p + l.len());
        }
    }
    let mut mantissa = vec![];
    let ds = digits_desc(s, p);
    mantissa.extend(&ds);
    for d in &ds {
        if lit(s, *d, b".") {
            mantissa.extend(digits_desc(s, *d + 1));
            mantissa.push(*d + 1);
        }
    }
    for d in ds.iter().copied().chain([p]) {
        if lit(s, d, b".") {
            mantissa.extend(digits_desc(s, d + 1));
        }
    }
    for m in mantissa {
        if m < s.len() && s[m] | 32 == b'e' {
            let mut q = m + 1;
            if q < s.len() && (s[q] == b'+' || s[q] == b'-') {
                q += 1;
            }
            v.extend(digits_desc(s, q));
        }
        v.push(m);
    }
    v
}
pub const F32: K = K::Custom(float_ends, |s, a, b| s[a..b].parse::<f32>().ok().map(|x| Val::Bits(x.to_bits() as u64)));
pub const F64: K = K::Custom(float_ends, |s, a, b| s[a..b].parse::<f64>().ok().map(|x| Val::Bits(x.to_bits())));
impl ToVal for f32 {
    fn val(self, _: &'static str) -> Val {
        Val::Bits(self.to_bits() as u64)
    }
}
impl ToVal for f64 {
    fn val(self, _: &'static str) -> Val {
        Val::Bits(self.to_bits())
    }
}
flat_val!(f32 f64);

pub type Run = fn(&'static str) -> Result<Vec<Val>, sscanf::Error>;

pub struct Prog {
    pub run: Run,
    pub parts: &'static [P],
    /// arbitrary texts of up to that many bytes
    pub any: usize,
    /// ASCII texts of up to that many characters
    pub ascii: usize,
    /// texts to change; the first one matches
    pub templates: &'static [&'static str],
    /// how many characters to replace
    pub w: usize,
}

#[derive(Clone, Copy)]
enum Change {
    Any(usize),
    Ascii(usize),
    /// template, position, how many to remove, how many to insert
    Edit(&'static str, usize, usize, usize),
    /// template, position, how many to remove: any character of that many bytes instead
    Wide(&'static str, usize, usize, usize),
}

fn changes(p: &Prog, d: usize) -> Vec<Change> {
    let mut v = vec![];
    for n in 0..=p.any + d {
        v.push(Change::Any(n));
    }
    for n in p.any + d + 1..=p.ascii + d {
        v.push(Change::Ascii(n));
    }
    for t in p.templates {
        let w = p.w + d;
        for i in 0..=t.len() {
            if !t.is_char_boundary(i) {
                continue;
            }
            // long ones: at the ends and in the middle
            if t.len() > 64 && i > 4 && i < t.len() - 4 && i != t.len() / 2 {
                continue;
            }
            if i < t.len() {
                let c = t[i..].chars().next().unwrap().len_utf8();
                v.push(Change::Wide(t, i, c, 2));
                if d > 0 {
                    v.push(Change::Wide(t, i, c, 3));
                    v.push(Change::Wide(t, i, 0, 2));
                }
            }
            if i + w <= t.len() && t.is_char_boundary(i + w) {
                v.push(Change::Edit(t, i, w, w));
            }
            v.push(Change::Edit(t, i, 0, 1));
            if i < t.len() {
                let c = t[i..].chars().next().unwrap().len_utf8();
                v.push(Change::Edit(t, i, c, 0));
                if d > 0 {
                    v.push(Change::Edit(t, i, c, 2));
                }
            }
        }
        if t.len() < w {
            v.push(Change::Edit(t, 0, t.len(), t.len()));
        }
    }
    v
}

pub fn input(p: &Prog, deep: usize) -> &'static str {
    let v = changes(p, deep);
    match v[fork2(v.len())] {
        Change::Any(n) => any_str(n),
        Change::Ascii(n) => ascii_str(n),
        Change::Edit(t, i, out, ins) => {
            let new = ascii_str(ins);
            splice(t, i, out, new)
        }
        Change::Wide(t, i, out, n) => {
            let new = any_str(n);
            assume(new.as_bytes()[0] >= [0x80, 0x80, 0xc0, 0xe0][n]);
            splice(t, i, out, new)
        }
    }
}
fn splice(t: &str, i: usize, out: usize, new: &str) -> &'static str {
            let mut b = t.as_bytes()[..i].to_vec();
            b.extend_from_slice(new.as_bytes());
            b.extend_from_slice(&t.as_bytes()[i + out..]);
            unsafe { std::str::from_utf8_unchecked(Vec::leak(b)) }
}

/// compare a result with the reference
pub fn judge(r: &Result<Vec<Val>, sscanf::Error>, want: &Outcome) {
    match (r, want) {
        (Ok(v), Outcome::Values(w)) => {
            reach("value");
            check(v.len() == w.len(), "the number of values");
            let mut ok = true;
            for (a, b) in v.iter().zip(w) {
                ok &= a.same(b);
            }
            check(ok, "the values are those of the parts of the text that belong to the placeholders");
        }
        (Ok(_), _) => check(false, "accepted a text that the format does not describe"),
        (Err(_), Outcome::Values(_)) => check(false, "rejected a text that the format describes"),
        (Err(e), Outcome::NoMatch) => {
            reach("no match");
            check(matches!(e, sscanf::Error::MatchFailed), "a text that does not match is reported as MatchFailed");
        }
        (Err(e), Outcome::Failed) => {
            reach("failed conversion");
            check(matches!(e, sscanf::Error::ParsingFailed(_)), "a failed conversion is reported as ParsingFailed");
        }
    }
}

/// param 0: the program; param 1: how many characters more than usual
pub fn run(progs: &[Prog]) {
    let p = &progs[param(0)];
    let deep = param(1);
    // the static regex of the call site is created by the first call
    let warm = (p.run)(p.templates[0]);
    judge(&warm, &reference(p.parts, p.templates[0]));
    check(warm.is_ok(), "the example text is accepted");
    let s = input(p, deep);
    let r = (p.run)(s);
    judge(&r, &reference(p.parts, s));
}

/// `lit_progs`: a format without placeholders
#[macro_export]
macro_rules! p {
    ($f:expr, [$($p:expr),* $(,)?], $any:literal $ascii:literal $w:literal, $($t:expr),+) => {
        $crate::prog::Prog { run: $f, parts: &[$($p),*], any: $any, ascii: $ascii, w: $w, templates: &[$($t),+] }
    };
}
