//! Attributes of fields: default, map, filter_map, from, try_from.
use crate::prog::{K::*, P::*, *};
use crate::{flat, p};
use sscanf::sscanf;
use std::borrow::Cow;
use std::convert::TryFrom;
use std::path::PathBuf;

#[derive(sscanf::FromScanf)]
#[sscanf(format = "{b}{e}")]
struct Defaults {
    #[sscanf(default)]
    a: u8,
    b: i8,
    #[sscanf(default = 5 + 2)]
    c: u16,
    #[sscanf(default = String::from("x"))]
    d: String,
    e: char,
    #[sscanf(default = { let x = 40; x + 2 })]
    f: i64,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{}:{}")]
struct TupleDefaults(#[sscanf(default = 'q')] char, u8, #[sscanf(default)] String, i8);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{b},{a},{c}")]
struct Maps {
    #[sscanf(map = |x: u8| x as u16 + 1000)]
    a: u16,
    #[sscanf(map = |x: char| x == 'y')]
    b: bool,
    #[sscanf(map = |s: &str| s.len())]
    c: usize,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{}/{}")]
struct Filters(
    #[sscanf(filter_map = |x: i8| if x > 5 { Some(x as u8) } else { None })] u8,
    #[sscanf(filter_map = |x: char| x.to_digit(16))] u32,
);
#[derive(Debug, PartialEq)]
struct Tagged(u8);
impl From<u8> for Tagged {
    fn from(x: u8) -> Self {
        Tagged(x ^ 0x55)
    }
}
#[derive(Debug)]
struct Odd(u8);
#[derive(Debug)]
struct NotOdd;
impl std::fmt::Display for NotOdd {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("not odd")
    }
}
impl std::error::Error for NotOdd {}
impl TryFrom<u8> for Odd {
    type Error = NotOdd;
    fn try_from(x: u8) -> Result<Self, NotOdd> {
        if x % 2 == 1 { Ok(Odd(x)) } else { Err(NotOdd) }
    }
}
#[derive(sscanf::FromScanf)]
#[sscanf("{c} {b} {a} {d}")]
struct Froms {
    #[sscanf(from = u8)]
    a: Tagged,
    #[sscanf(try_from = u8)]
    b: Odd,
    #[sscanf(from = u8)]
    c: u32,
    #[sscanf(try_from = i32)]
    d: u8,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{a:x}-{b:r2}-{c:/[xy]/}")]
struct Options {
    #[sscanf(map = |x: u8| 255 - x)]
    a: u8,
    #[sscanf(from = u8)]
    b: u64,
    #[sscanf(map = |c: char| c as u32)]
    c: u32,
}
#[derive(sscanf::FromScanf)]
enum Variants {
    #[sscanf("a{x}{}")]
    A {
        #[sscanf(map = |c: char| c as u32 + 1)]
        y: u32,
        #[sscanf(filter_map = |b: u8| if b < 100 { Some(b) } else { None })]
        x: u8,
        #[sscanf(default = 77)]
        z: u8,
    },
    #[sscanf("b{}")]
    B(#[sscanf(default = 1)] u8, #[sscanf(try_from = i16)] u8),
    #[sscanf(transparent)]
    C(#[sscanf(map = |b: bool| !b)] bool),
    #[sscanf("d")]
    D(#[sscanf(default)] u8, #[sscanf(default = 3)] u8),
}
/// placeholders and fields in opposite order, with a conversion on each
#[derive(sscanf::FromScanf)]
#[sscanf("{3}{2}{0}")]
struct Reverse(
    #[sscanf(map = |c: char| (c, 0))] (char, u8),
    #[sscanf(default = 8)] u8,
    #[sscanf(map = |c: char| (c, 2))] (char, u8),
    #[sscanf(map = |c: char| (c, 3))] (char, u8),
);
#[derive(sscanf::FromScanf)]
#[sscanf(transparent)]
struct Transparent(#[sscanf(filter_map = |x: u16| x.checked_sub(10))] u16);
/// closures and expressions that use items of the scope
const LIMIT: u8 = 9;
fn limit() -> u8 {
    LIMIT
}
#[derive(sscanf::FromScanf)]
#[sscanf("{}")]
struct Scope(
    #[sscanf(filter_map = |x: u8| { if x > limit() { return None; } Some(x) })] u8,
    #[sscanf(default = limit())] u8,
);
/// all forms of closures and of values
#[derive(sscanf::FromScanf)]
#[sscanf("{}{}{}{}-{}")]
struct Forms<T: Default>(
    #[sscanf(map = |mut x: u8| { x ^= 1; x })] u8,
    #[sscanf(default = if limit() > 5 { Some('o') } else { None })] Option<char>,
    #[sscanf(filter_map = |Wrap(c): Wrap| (c != 'w').then_some(c))] char,
    #[sscanf(default = vec![1, 2].len())] usize,
    #[sscanf(map = |_: char| 7)] u8,
    #[sscanf(default = -1)] i8,
    #[sscanf(map = move |x: char| -> u32 { x as u32 })] u32,
    #[sscanf(default = Wrap('d').0)] char,
    #[sscanf(filter_map = |x: i8| -> Option<u8> { x.try_into().ok() })] u8,
    #[sscanf(default = T::default())] T,
    #[sscanf(default = (|| 5)())] u8,
    #[sscanf(default = match LIMIT { 9 => 'n', _ => 'm' })] char,
);
#[derive(sscanf::FromScanf)]
#[sscanf("{}")]
struct Wrap(char);
/// inside of a macro, with types and expressions from its parameters
macro_rules! in_macro {
    ($n:ident, $t:ty, $from:ty, $e:expr) => {
        #[derive(sscanf::FromScanf)]
        #[sscanf(format = "{a}{b}{c}.{d}")]
        struct $n {
            #[sscanf(try_from = $from)]
            a: $t,
            #[sscanf(map = |x: char| x as u32 + $e)]
            b: u32,
            #[sscanf(from = char)]
            c: $from,
            #[sscanf(filter_map = |x: $from| if x > $e { Some(x as $t) } else { None })]
            d: $t,
            #[sscanf(default = $e)]
            e: $t,
        }
    };
}
in_macro!(InMacro, u8, u32, 70);
macro_rules! from_macro {
    ($n:ident, $t:ty, $from:ty) => {
        #[derive(sscanf::FromScanf)]
        #[sscanf(transparent)]
        struct $n(#[sscanf(from = $from)] $t);
    };
}
from_macro!(FromMacro, u32, u8);

/// conversions of texts: the whole text of the placeholder, no more and no less
#[derive(sscanf::FromScanf)]
#[sscanf("{a}|{b}|{c}|{d}")]
struct Texts<'a> {
    #[sscanf(filter_map = |s: &'a str| if s.len() < 4 { Some(s) } else { None })]
    a: &'a str,
    #[sscanf(map = |s: &'a str| s)]
    b: &'a str,
    #[sscanf(from = &str)]
    c: String,
    #[sscanf(try_from = Cow<str>)]
    d: Word,
}
struct Word(String);
impl TryFrom<Cow<'_, str>> for Word {
    type Error = NotOdd;
    fn try_from(x: Cow<str>) -> Result<Self, NotOdd> {
        if x.len() != 2 { Ok(Word(x.into_owned())) } else { Err(NotOdd) }
    }
}
#[derive(sscanf::FromScanf)]
#[sscanf("{3}|{2}|{1}|{0}")]
struct Owned4(
    #[sscanf(filter_map = |s: String| if s.len() < 4 { Some(s) } else { None })] String,
    #[sscanf(map = |s: String| s)] String,
    #[sscanf(from = String)] PathBuf,
    #[sscanf(try_from = String)] Even,
);
struct Even(String);
impl TryFrom<String> for Even {
    type Error = NotOdd;
    fn try_from(x: String) -> Result<Self, NotOdd> {
        if x.len() % 2 == 0 { Ok(Even(x)) } else { Err(NotOdd) }
    }
}
#[derive(sscanf::FromScanf)]
enum Mixed<'a> {
    #[sscanf("a{}{}")]
    A(#[sscanf(filter_map = |s: Cow<'a, str>| if s.len() > 1 { Some(s) } else { None })] Cow<'a, str>, #[sscanf(map = |c: char| c as u32)] u32),
    #[sscanf("b{y}{x}")]
    B {
        #[sscanf(filter_map = |s: &'a str| s.strip_suffix(' '))]
        x: &'a str,
        #[sscanf(try_from = u32)]
        y: u8,
    },
    #[sscanf("c{:/[ \\t]*/}{:/.*/}")]
    C(#[sscanf(map = |s: &'a str| s.len())] usize, #[sscanf(filter_map = |s: String| if s.is_empty() { None } else { Some(s) })] String),
}
#[derive(sscanf::FromScanf)]
#[sscanf("{}{}{}")]
struct Nested(
    #[sscanf(filter_map = |r: Reverse| if r.0 .0 == 'q' { None } else { Some(r.2 .0) })] char,
    #[sscanf(map = |v: Flag| match v { Flag::T => 1, Flag::D => 2 })] u8,
    #[sscanf(from = Transparent)] Inner,
);
#[derive(sscanf::FromScanf)]
enum Flag {
    #[sscanf("true")]
    T,
    #[sscanf("d")]
    D,
}
struct Inner(u16);
impl From<Transparent> for Inner {
    fn from(t: Transparent) -> Self {
        Inner(t.0)
    }
}

crate::flat_as! {
    Texts<'_>: |t| t.a, t.b, t.c, t.d.0;
    Owned4: |o| o.3.0, o.2, o.1, o.0;
    Nested: |n| n.0, n.1, n.2.0;
    InMacro: |x| x.a, x.b, x.c, x.d, x.e;
    FromMacro: |x| x.0;
    Defaults: |d| d.b, d.e, d.a, d.c, d.d, d.f;
    TupleDefaults: |d| d.1, d.3, d.0, d.2;
    Maps: |m| m.b, m.a, m.c;
    Filters: |f| f.0, f.1;
    Froms: |f| f.c, f.b.0, f.a.0, f.d;
    Options: |o| o.a, o.b, o.c;
    Reverse: |r| r.3, r.2, r.0, r.1;
    Transparent: |t| t.0;
    Forms<u16>: |f| f.0, f.2, f.4, f.6, f.8, f.1.unwrap(), f.3, f.5, f.7, f.9, f.10, f.11;
    Scope: |t| t.0, t.1;
}
crate::flat_enum! {
    Mixed<'_> { 0 Mixed::A(a, b) => [a, b], 1 Mixed::B { x, y } => [y, x], 2 Mixed::C(a, b) => [a, b], }
    Variants { 0 Variants::A { y, x, z } => [x, y, z], 1 Variants::B(a, b) => [b, a], 2 Variants::C(x) => [x], 3 Variants::D(x, y) => [x, y], }
}

fn n(v: u128) -> Val {
    Val::Int(false, v)
}
fn num(v: &Val) -> i64 {
    match v {
        Val::Int(neg, m) => if *neg { -(*m as i64) } else { *m as i64 },
        Val::Char(c) => *c as i64,
        Val::Slice(_, l) => *l as i64,
        _ => unreachable!(),
    }
}
const B8: crate::prog::K = Radix(int::<u8>(), 2, crate::model::Prefix::Never);
fn xy(s: &[u8], p: usize) -> Vec<usize> {
    runs_of(s, p, 1, |c| c == b'x' || c == b'y')
}
fn one(s: &'static str, a: usize, _: usize) -> Option<Val> {
    Some(Val::Char(s.as_bytes()[a] as u32))
}
fn byte(v: i64) -> Option<Val> {
    if v >= 0 && v <= 255 { Some(n(v as u128)) } else { None }
}
fn hex(v: Val) -> Option<Val> {
    let c = num(&v);
    if c < 128 { crate::model::digit(c as u8, 16).map(|d| n(d as u128)) } else { None }
}

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{Defaults}")),
        [Ph(I8), Ph(Char), C(|| n(0)), C(|| n(7)), C(|| Val::Text(b"x".to_vec())), C(|| n(42))], 2 4 2, "-12x"),
    p!(|s| flat!(s, sscanf!(s, "{TupleDefaults}")), [Ph(U8), L(":"), Ph(I8), C(|| Val::Char('q' as u32)), C(|| Val::Text(vec![]))], 2 4 2, "12:-3"),
    p!(|s| flat!(s, sscanf!(s, "{Maps}")),
        [Map(Char, |v| Some(Val::Bool(num(&v) == 'y' as i64))), L(","), Map(U8, |v| Some(n(num(&v) as u128 + 1000))), L(","), Map(Str, |v| Some(n(num(&v) as u128)))],
        2 5 2, "y,12,abé", "n,200,,"),
    p!(|s| flat!(s, sscanf!(s, "{Filters}")), [Map(I8, |v| if num(&v) > 5 { Some(v) } else { None }), L("/"), Map(Char, hex)], 2 4 2, "12/f", "5/0", "-7/x"),
    p!(|s| flat!(s, sscanf!(s, "{Froms}")),
        [Ph(U8), L(" "), Map(U8, |v| if num(&v) % 2 == 1 { Some(v) } else { None }), L(" "), Map(U8, |v| Some(n((num(&v) ^ 0x55) as u128))), L(" "),
            Map(I32, |v| byte(num(&v)))], 0 3 2, "1 3 5 250", "9 8 7 6", "1 1 1 256", "1 1 1 -1"),
    p!(|s| flat!(s, sscanf!(s, "{Options}")), [Map(X8, |v| Some(n(255 - num(&v) as u128))), L("-"), Ph(B8), L("-"), Map(Custom(xy, one), |v| Some(n(num(&v) as u128)))],
        1 3 2, "0xff-101-x", "a-1-y"),
    p!(|s| flat!(s, sscanf!(s, "{Variants}")),
        [Alt(&[
            (0, &[L("a"), Map(U8, |v| if num(&v) < 100 { Some(v) } else { None }), Map(Char, |v| Some(n(num(&v) as u128 + 1))), C(|| n(77))]),
            (1, &[L("b"), Map(I16, |v| byte(num(&v))), C(|| n(1))]),
            (2, &[Map(Bool, |v| match v { Val::Bool(b) => Some(Val::Bool(!b)), _ => None })]),
            (3, &[L("d"), C(|| n(0)), C(|| n(3))]),
        ])], 2 5 2, "a12x", "a123x", "b255", "b-1", "true", "false", "d"),
    p!(|s| flat!(s, sscanf!(s, "{Reverse}")),
        [Ph(Char), C(|| n(3)), Ph(Char), C(|| n(2)), Ph(Char), C(|| n(0)), C(|| n(8))], 4 4 2, "xyz"),
    p!(|s| flat!(s, sscanf!(s, "{Transparent}{Transparent}")),
        [Map(U16, |v| byte16(num(&v) - 10)), Map(U16, |v| byte16(num(&v) - 10))], 0 4 2, "1234520", "12+34", "1+9"),
    p!(|s| flat!(s, sscanf!(s, "{Scope}")), [Map(U8, |v| if num(&v) <= 9 { Some(v) } else { None }), C(|| n(9))], 2 4 2, "9", "10"),
    p!(|s| flat!(s, sscanf!(s, "{Defaults},{Maps};{TupleDefaults}")),
        [Ph(I8), Ph(Char), C(|| n(0)), C(|| n(7)), C(|| Val::Text(b"x".to_vec())), C(|| n(42)), L(","),
         Map(Char, |v| Some(Val::Bool(num(&v) == 'y' as i64))), L(","), Map(U8, |v| Some(n(num(&v) as u128 + 1000))), L(","), Map(Str, |v| Some(n(num(&v) as u128))), L(";"),
         Ph(U8), L(":"), Ph(I8), C(|| Val::Char('q' as u32)), C(|| Val::Text(vec![]))], 0 0 2, "-1x,y,2,s;3:4"),
    p!(|s| flat!(s, sscanf!(s, "{InMacro}")),
        [Map(U32, |v| byte(num(&v))), Map(Char, |v| Some(n(num(&v) as u128 + 70))), Map(Char, |v| Some(n(num(&v) as u128))), L("."),
         Map(U32, |v| if num(&v) > 70 { Some(n(num(&v) as u8 as u128)) } else { None }), C(|| n(70))], 0 4 2, "255ab.71", "1x2.333"),
    p!(|s| flat!(s, sscanf!(s, "{}{FromMacro}", FromMacro)), [Ph(U8), Ph(U8)], 2 4 2, "255254"),
    p!(|s| flat!(s, sscanf!(s, "{Texts}")),
        [Map(Str, |v| if len(&v) < 4 { Some(v) } else { None }), L("|"), Ph(Str), L("|"), Ph(Owned), L("|"), Map(Owned, |v| if len(&v) != 2 { Some(v) } else { None })],
        0 0 2, "a|b|c|d", " a |\tbc|x\u{a0}|  y ", "é| | |\u{3000}"),
    p!(|s| flat!(s, sscanf!(s, "{Owned4}")),
        [Map(Owned, |v| if len(&v) % 2 == 0 { Some(v) } else { None }), L("|"), Ph(Owned), L("|"), Ph(Owned), L("|"), Map(Owned, |v| if len(&v) < 4 { Some(v) } else { None })],
        0 0 2, "ab|b|c|d", " a|\tbc|x\u{a0}| y ", "é| | |  "),
    p!(|s| flat!(s, sscanf!(s, "{Mixed}")),
        [Alt(&[
            (0, &[L("a"), Map(Str, |v| if len(&v) > 1 { Some(v) } else { None }), Map(Char, |v| Some(n(num(&v) as u128)))]),
            (1, &[L("b"), Map(U32, |v| byte(num(&v))), Ph(Custom(|s, p| runs(s, p), |s, a, b| if s.as_bytes()[b - 1] == b' ' { Some(Val::Slice(a, b - a - 1)) } else { None }))]),
            (2, &[L("c"), Ph(Custom(blanks, |_, a, b| Some(n((b - a) as u128)))), Ph(Custom(rest, |s, a, b| if a < b { Some(Val::Text(s.as_bytes()[a..b].to_vec())) } else { None }))]),
        ])], 2 4 2, "axyz", "b12 x ", "c \t x ", "c ", "a  x"),
    p!(|s| flat!(s, sscanf!(s, "{Nested}")),
        [Ph(Custom(three, |s, a, b| { let t = &s[a..b]; let mut c = t.chars(); let _ = c.next(); let m = c.next().unwrap(); if c.next() == Some('q') { None } else { Some(Val::Char(m as u32)) } })),
         Ph(Custom(|s, p| if lit(s, p, b"true") { vec![p + 4] } else if lit(s, p, b"d") { vec![p + 1] } else { vec![] }, |s, a, b| Some(n(if b - a == 4 { let _ = s; 1 } else { 2 })))),
         Map(U16, |v| byte16(num(&v) - 10))], 0 0 2, "xyztrue10", "xyqd5", "éèed99"),
    p!(|s| flat!(s, sscanf!(s, "{Forms<u16>}")),
        [Map(U8, |v| Some(n((num(&v) ^ 1) as u128))), Map(Char, |v| if num(&v) == 'w' as i64 { None } else { Some(v) }), Map(Char, |_| Some(n(7))), Map(Char, |v| Some(n(num(&v) as u128))),
         L("-"), Map(I8, |v| byte(num(&v))),
         C(|| Val::Char('o' as u32)), C(|| n(2)), C(|| Val::Int(true, 1)), C(|| Val::Char('d' as u32)), C(|| n(0)), C(|| n(5)), C(|| Val::Char('n' as u32))],
        0 0 2, "12abc-3", "9wé\u{3000}--1"),
];
/// three characters
fn three(s: &[u8], p: usize) -> Vec<usize> {
    runs(s, p).into_iter().skip(2).take(1).collect()
}
fn len(v: &Val) -> usize {
    match v {
        Val::Slice(_, l) => *l,
        Val::Text(t) => t.len(),
        _ => unreachable!(),
    }
}
fn blanks(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = runs_of(s, p, usize::MAX, |c| c == b' ' || c == b'\t');
    v.reverse();
    v.push(p);
    v
}
fn rest(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = runs(s, p);
    v.reverse();
    v.push(p);
    v
}
fn byte16(v: i64) -> Option<Val> {
    if v >= 0 && v <= 65535 { Some(n(v as u128)) } else { None }
}

/// A conversion runs once for each call, on the text of its own field only.
mod calls {
    use super::*;
    use std::cell::Cell;
    thread_local! { pub static CALLS: Cell<(u32, u32)> = const { Cell::new((0, 0)) }; }
    fn first() {
        CALLS.with(|c| c.set((c.get().0 + 1, c.get().1)));
    }
    fn second() {
        CALLS.with(|c| c.set((c.get().0, c.get().1 + 1)));
    }
    #[derive(sscanf::FromScanf)]
    #[sscanf("{a}{b}")]
    pub struct Counts {
        #[sscanf(filter_map = |x: char| { first(); if x == '!' { None } else { Some(x) } })]
        pub a: char,
        #[sscanf(map = |x: char| { second(); x })]
        pub b: char,
        #[sscanf(default = { second(); 5 })]
        pub c: u8,
    }
}
fn calls() {
    use crate::sym::*;
    let f: fn(&'static str) -> Option<calls::Counts> = |s| sscanf!(s, "{calls::Counts}").ok();
    let _ = f("");
    calls::CALLS.with(|c| c.set((0, 0)));
    let s = ascii_str(choice_len(4));
    let r = f(s);
    let (a, b) = calls::CALLS.with(|c| c.get());
    let b2 = s.as_bytes();
    if b2.len() == 2 && b2[0] != b'\n' && b2[1] != b'\n' {
        reach("match");
        check(a == 1, "the conversion of the first field ran once");
        check(r.is_some() == (b2[0] != b'!'), "filter_map decides");
        if let Some(r) = r {
            reach("value");
            check(b == 2, "the conversion of the second field and the default ran once");
            check(r.a as u32 == b2[0] as u32 && r.b as u32 == b2[1] as u32 && r.c == 5, "the values");
        }
    } else {
        reach("no match");
        check(r.is_none() && a == 0 && b == 0, "nothing runs for a text that does not match");
    }
}
fn choice_len(n: usize) -> usize {
    crate::sym::fork(n)
}

crate::harness! {
    fn c08_prog() { run(PROGS) }
    fn c08_calls() { calls() }
}
