//! Derived structs: every placeholder sets its own field.
use crate::prog::{K::*, P::*, *};
use crate::{flat, p};
use sscanf::sscanf;
use std::borrow::Cow;

/// out of order
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{b}-{a}")]
struct Named {
    a: u8,
    b: i8,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{2},{0},{1}")]
struct Tuple(u8, i8, char);
/// placeholders without a name take the fields that are left, in their order
#[derive(sscanf::FromScanf)]
#[sscanf("{} {c} {} {}")]
struct Mixed {
    a: u8,
    b: i8,
    c: bool,
    d: char,
}
/// fields by index
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{1}/{0}/{c}")]
struct Index {
    a: u8,
    b: char,
    c: i16,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{}:{}:{}")]
struct Order(char, u8, char);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{text};{owned};{cow}")]
struct Texts<'a> {
    cow: Cow<'a, str>,
    owned: String,
    text: &'a str,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{0}|{1}")]
struct Two<'a, 'b>(&'a str, &'b str);
/// more than ten fields, one with index 10
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{10} {1} {2} {3} {4} {5} {6} {7} {8} {9} {0}")]
struct Many(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{b:r16} {a:x} {c:#b} {d:/[a-c]+/}")]
struct Options {
    a: u8,
    b: u8,
    c: u8,
    d: String,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "unit")]
struct Unit;
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{{{x}}}{{")]
struct Braces {
    x: u8,
}
#[derive(sscanf::FromScanf)]
#[sscanf(transparent)]
struct Transparent(i8);
#[derive(sscanf::FromScanf)]
#[sscanf(transparent)]
struct TransparentNamed<'x> {
    text: &'x str,
}
/// a raw literal without `format =` is a regex
#[derive(sscanf::FromScanf)]
#[sscanf(r"a.c{}")]
struct RawRegex(u8);
#[derive(sscanf::FromScanf)]
#[sscanf("a.c{}")]
struct NotRaw(u8);
#[derive(sscanf::FromScanf)]
#[sscanf(format = r"a.c{}")]
struct RawFormat(u8);
#[derive(sscanf::FromScanf)]
#[sscanf(format_unescaped = "x*{}|y{}?")]
struct Unescaped(u8, u8);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "<{field:/[0-9]+x/}>")]
struct Generic<T>
where
    T: std::str::FromStr + 'static,
    <T as std::str::FromStr>::Err: std::error::Error + 'static,
{
    field: T,
}
/// same types next to each other
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{z}{y}{x}")]
struct Same {
    x: char,
    y: char,
    z: char,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{a_1} {a} {a_}")]
struct Names {
    a: u8,
    a_: i8,
    a_1: char,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{13}{0}{12}{1}{11}{2}{10}{3}{9}{4}{8}{5}{7}{6}")]
struct Big(char, char, char, char, char, char, char, char, char, char, char, char, char, char);
/// named, unnamed and defaulted fields in turns
#[derive(sscanf::FromScanf)]
#[sscanf("{l}{}{j}{}{h}{}{f}{}{d}")]
struct Turns {
    a: char,
    #[sscanf(default = 'B')]
    b: char,
    c: char,
    d: char,
    e: char,
    f: char,
    #[sscanf(default = 'G')]
    g: char,
    h: char,
    i: char,
    j: char,
    #[sscanf(default)]
    k: char,
    l: char,
}
mod inner {
    #[derive(sscanf::FromScanf)]
    #[sscanf("<{}>")]
    pub struct Path(pub u8);
}
/// inside of a macro, with types and formats from its parameters
macro_rules! in_macro {
    ($n:ident, $f:literal, $($t:ty),*) => {
        #[derive(sscanf::FromScanf)]
        #[sscanf(format = $f)]
        struct $n<'a>($($t),*);
    };
}
in_macro!(InMacro, "{1}{2}{}-{0}", u8, &'a str, char, Cow<'a, str>);
macro_rules! text_macro {
    ($t:ty) => {
        #[derive(sscanf::FromScanf)]
        #[sscanf(format = "{}.{}")]
        struct TextMacro<'a>(Cow<'a, $t>, &'a $t);
    };
}
text_macro!(str);

/// parameters of all kinds
#[derive(sscanf::FromScanf)]
#[sscanf("b{x}{y}")]
struct Const<const N: u8> {
    #[sscanf(default = N)]
    n: u8,
    y: char,
    x: u8,
}
#[derive(sscanf::FromScanf)]
#[sscanf("c{}{}")]
struct Params<'a, const N: usize, T: Default + Copy = u8>(&'a str, #[sscanf(default = [T::default(); N])] [T; N], char)
where
    T: 'a;
#[derive(sscanf::FromScanf)]
#[sscanf("{}d{}")]
struct Phantom<T>(u8, #[sscanf(default)] std::marker::PhantomData<T>, i8);
#[derive(sscanf::FromScanf)]
#[sscanf("{1}:{0}")]
struct Static<'a>(&'static str, Cow<'a, str>);
#[derive(sscanf::FromScanf)]
#[sscanf("{}:{}:{}{}")]
struct Cows<'a, 'b: 'a>(&'a std::primitive::str, std::borrow::Cow<'b, core::primitive::str>, ::std::borrow::Cow<'static, str>, &'b ::core::primitive::str);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{a}{b:/[0-9]+/}{c:x}")]
struct Bounds<A: std::str::FromStr<Err = std::convert::Infallible> + 'static, B>
where
    B: std::str::FromStr + 'static,
    B::Err: std::error::Error,
{
    c: u8,
    #[sscanf(map = |x: char| A::from_str(&x.to_string()).unwrap())]
    a: A,
    b: B,
}

include!("huge.rs");

crate::flat_as! {
    Const<7>: |x| x.x, x.y, x.n;
    Params<'_, 2>: |x| x.0, x.2, x.1[0], x.1[1];
    Phantom<String>: |x| x.0, x.2;
    Static<'_>: |x| x.1, x.0;
    Cows<'_, '_>: |x| x.0, x.1, x.2, x.3;
    Bounds<String, u16>: |x| x.a, x.b, x.c;
    InMacro<'_>: |x| x.1, x.2, x.3, x.0;
    TextMacro<'_>: |x| x.0, x.1;
    Named: |x| x.b, x.a;
    Tuple: |x| x.2, x.0, x.1;
    Mixed: |x| x.a, x.c, x.b, x.d;
    Index: |x| x.b, x.a, x.c;
    Order: |x| x.0, x.1, x.2;
    Texts<'_>: |x| x.text, x.owned, x.cow;
    Two<'_, '_>: |x| x.0, x.1;
    Many: |x| x.10, x.1, x.2, x.3, x.4, x.5, x.6, x.7, x.8, x.9, x.0;
    Options: |x| x.b, x.a, x.c, x.d;
    Unit: |_| ;
    Braces: |x| x.x;
    Transparent: |x| x.0;
    TransparentNamed<'_>: |x| x.text;
    RawRegex: |x| x.0;
    NotRaw: |x| x.0;
    RawFormat: |x| x.0;
    Generic<String>: |x| x.field;
    Same: |x| x.z, x.y, x.x;
    Big: |x| x.13, x.0, x.12, x.1, x.11, x.2, x.10, x.3, x.9, x.4, x.8, x.5, x.7, x.6;
    Turns: |x| x.l, x.a, x.j, x.c, x.h, x.e, x.f, x.i, x.d, x.b, x.g, x.k;
    Names: |x| x.a_1, x.a, x.a_;
    inner::Path: |x| x.0;
}

fn abc(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = runs_of(s, p, usize::MAX, |c| c >= b'a' && c <= b'c');
    v.reverse();
    v
}
fn owned(s: &'static str, a: usize, b: usize) -> Option<Val> {
    Some(Val::Text(s.as_bytes()[a..b].to_vec()))
}
fn digits_x(s: &[u8], p: usize) -> Vec<usize> {
    let d = runs_of(s, p, usize::MAX, |c| c.is_ascii_digit());
    d.into_iter().rev().filter(|e| *e < s.len() && s[*e] == b'x').map(|e| e + 1).collect()
}
/// any character but a line feed
fn dot(s: &[u8], p: usize) -> Vec<usize> {
    runs(s, p).into_iter().take(1).collect()
}
fn digits(s: &[u8], p: usize) -> Vec<usize> {
    runs_of(s, p, usize::MAX, |c| c.is_ascii_digit()).into_iter().rev().collect()
}
fn u16_of(s: &'static str, a: usize, b: usize) -> Option<Val> {
    let mut n = 0u128;
    for d in s.as_bytes()[a..b].iter() {
        n = n * 10 + (d - b'0') as u128;
        if n > 65535 {
            return None;
        }
    }
    Some(Val::Int(false, n))
}
fn text_of(v: Val) -> Option<Val> {
    match v {
        Val::Char(c) => Some(Val::Text(char::from_u32(c)?.to_string().into_bytes())),
        _ => None,
    }
}
const X8: crate::prog::K = Radix(int::<u8>(), 16, crate::model::Prefix::Optional);
const B8: crate::prog::K = Radix(int::<u8>(), 2, crate::model::Prefix::Required);

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{Named}")), [Ph(I8), L("-"), Ph(U8)], 2 4 2, "-12-3", "1--1"),
    p!(|s| flat!(s, sscanf!(s, "{Tuple}")), [Ph(Char), L(","), Ph(U8), L(","), Ph(I8)], 2 4 2, "x,1,-2"),
    p!(|s| flat!(s, sscanf!(s, "{Mixed}")), [Ph(U8), L(" "), Ph(Bool), L(" "), Ph(I8), L(" "), Ph(Char)], 1 2 2, "1 true -2 x"),
    p!(|s| flat!(s, sscanf!(s, "{Index}")), [Ph(Char), L("/"), Ph(U8), L("/"), Ph(I16)], 2 4 2, "é/2/-300"),
    p!(|s| flat!(s, sscanf!(s, "{Order}")), [Ph(Char), L(":"), Ph(U8), L(":"), Ph(Char)], 2 4 2, "::255::"),
    p!(|s| flat!(s, sscanf!(s, "{Texts}")), [Ph(Str), L(";"), Ph(Owned), L(";"), Ph(Str)], 2 5 2, "a;é;c", ";;;;;;"),
    p!(|s| flat!(s, sscanf!(s, "{Two}")), [Ph(Str), L("|"), Ph(Str)], 4 5 2, "a|b"),
    p!(|s| flat!(s, sscanf!(s, "{Many}")), [Ph(I8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "),
        Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8)], 0 0 2, "-10 1 2 3 4 5 6 7 8 9 0"),
    p!(|s| flat!(s, sscanf!(s, "{Options}")), [Ph(H8), L(" "), Ph(X8), L(" "), Ph(B8), L(" "), Ph(Custom(abc, owned))], 1 1 2, "1f 0xe 0b11 abc"),
    p!(|s| flat!(s, sscanf!(s, "{Unit}")), [L("unit")], 2 4 2, "unit"),
    p!(|s| flat!(s, sscanf!(s, "{Braces}")), [L("{"), Ph(U8), L("}{")], 2 4 2, "{12}{"),
    p!(|s| flat!(s, sscanf!(s, "{Transparent}")), [Ph(I8)], 3 4 2, "-12"),
    p!(|s| flat!(s, sscanf!(s, "{TransparentNamed}")), [Ph(Str)], 4 5 2, "ab"),
    p!(|s| flat!(s, sscanf!(s, "{RawRegex}")), [L("a"), Re(dot), L("c"), Ph(U8)], 2 4 2, "axc12"),
    p!(|s| flat!(s, sscanf!(s, "{NotRaw}")), [L("a.c"), Ph(U8)], 2 4 2, "a.c12"),
    p!(|s| flat!(s, sscanf!(s, "{RawFormat}")), [L("a.c"), Ph(U8)], 2 4 2, "a.c12"),
    p!(|s| flat!(s, sscanf!(s, "{Generic<String>}")), [L("<"), Ph(Custom(digits_x, owned)), L(">")], 2 4 2, "<12x>"),
    p!(|s| flat!(s, sscanf!(s, "{Same}")), [Ph(Char), Ph(Char), Ph(Char)], 5 4 2, "abc"),
    p!(|s| flat!(s, sscanf!(s, "{Names}")), [Ph(Char), L(" "), Ph(U8), L(" "), Ph(I8)], 2 4 2, "x 1 -2"),
    p!(|s| flat!(s, sscanf!(s, "{inner::Path}{}", inner::Path)), [L("<"), Ph(U8), L("><"), Ph(U8), L(">")], 1 3 2, "<1><2>"),
    /* 20: several structs in one format */
    p!(|s| flat!(s, sscanf!(s, "{Named} {Tuple}{Order}", )), [Ph(I8), L("-"), Ph(U8), L(" "), Ph(Char), L(","), Ph(U8), L(","), Ph(I8), Ph(Char), L(":"), Ph(U8), L(":"), Ph(Char)],
        0 0 2, "-1-2 x,3,-4y:5:z"),
    p!(|s| flat!(s, sscanf!(s, "{}{}{u8}", Same, Named)), [Ph(Char), Ph(Char), Ph(Char), Ph(I8), L("-"), Ph(U8), Ph(U8)], 0 3 2, "abc-1-23"),
    p!(|s| flat!(s, sscanf!(s, "[{1}={0}]", Texts, Two)), [L("["), Ph(Str), L("|"), Ph(Str), L("="), Ph(Str), L(";"), Ph(Owned), L(";"), Ph(Str), L("]")],
        0 0 2, "[a|b=c;d;e]"),
    p!(|s| flat!(s, sscanf!(s, "{InMacro}")), [Ph(Str), Ph(Char), Ph(Str), L("-"), Ph(U8)], 1 5 2, "abcd-1"),
    p!(|s| flat!(s, sscanf!(s, "{TextMacro}")), [Ph(Str), L("."), Ph(Str)], 2 4 2, "ab.cd"),
    /* 25: many fields */
    p!(|s| flat!(s, sscanf!(s, "{Big}")), [Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char)], 0 0 1, "abcdefghijklmn"),
    p!(|s| flat!(s, sscanf!(s, "{Turns}")), [Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), C(|| Val::Char('B' as u32)), C(|| Val::Char('G' as u32)), C(|| Val::Char(0))], 0 0 1, "abcdefghi"),
    /* 27: parameters */
    p!(|s| flat!(s, sscanf!(s, "{}", Const<7>)), [L("b"), Ph(U8), Ph(Char), C(|| Val::Int(false, 7))], 2 4 2, "b12x"),
    p!(|s| flat!(s, sscanf!(s, "{}", Params<2>)), [L("c"), Ph(Str), Ph(Char), C(|| Val::Int(false, 0)), C(|| Val::Int(false, 0))], 2 4 2, "cabé"),
    p!(|s| flat!(s, sscanf!(s, "{Phantom<String>}")), [Ph(U8), L("d"), Ph(I8)], 2 4 2, "12d-128"),
    p!(|s| flat!(s, sscanf!(s, "{Static}{Static}")), [Ph(Str), L(":"), Ph(Str), Ph(Str), L(":"), Ph(Str)], 2 5 2, "a:bc:de"),
    p!(|s| flat!(s, sscanf!(s, "{Cows}")), [Ph(Str), L(":"), Ph(Str), L(":"), Ph(Str), Ph(Str)], 2 5 2, "a:b:cd"),
    p!(|s| flat!(s, sscanf!(s, "{}", Bounds<String, u16>)), [Map(Char, text_of), Ph(Custom(digits, u16_of)), Ph(X8)], 1 4 2, "é65535ff", "x1a"),
    /* 33: more fields than fit a byte */
    Prog { run: |s| flat!(s, sscanf!(s, "{Huge}")), parts: &HUGE, any: 0, ascii: 0, w: 1, templates: &[HUGE_TEXT] },
];

/// With a `|` at the top level: one of the branches, the other field gets no text. The documentation
/// allows any regex, so that has to end in a defined way for the texts that set all fields.
crate::harness! {
    fn c05_prog() { run(PROGS) }
}
#[allow(dead_code)]
fn unused(x: Unescaped) -> u8 {
    x.0 + x.1
}
