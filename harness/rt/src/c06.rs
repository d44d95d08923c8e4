//! Derived enums: the first variant that matches is built.
use crate::prog::{K::*, P::*, *};
use crate::{flat, p};
use sscanf::sscanf;

#[derive(sscanf::FromScanf)]
enum Overlap {
    #[sscanf("a{}")]
    A(char),
    #[sscanf(format = "ab{x}")]
    B { x: u8 },
    #[sscanf("a")]
    C,
    #[allow(dead_code)]
    Never(u8),
    #[sscanf("{}b")]
    D(char),
}
#[derive(sscanf::FromScanf)]
enum Widths {
    #[sscanf("{b}.{a}.{c}")]
    Three { a: u8, b: u8, c: i8 },
    #[allow(dead_code)]
    Never { x: u8, y: u8 },
    #[sscanf("{}")]
    One(i8),
    #[sscanf("{1}-{0}")]
    Two(u8, char),
    #[sscanf("x")]
    Zero,
}
#[derive(sscanf::FromScanf)]
enum Borrows<'a> {
    #[sscanf(format = "\"{}\"")]
    Quoted(&'a str),
    #[sscanf(format = "{n}")]
    Num { n: i16 },
    #[sscanf(format = "{}")]
    Word(&'a str),
}
/// the lifetimes come from different variants; the type is the one that its text is converted to
#[derive(sscanf::FromScanf)]
enum Lifetimes<'a, 'b, 'c: 'b, T: std::str::FromStr + 'static>
where
    <T as std::str::FromStr>::Err: std::error::Error + 'static,
{
    #[sscanf("a{}")]
    A(&'a str),
    #[sscanf("b{}")]
    B { x: std::borrow::Cow<'b, str> },
    #[sscanf("{}{:/[0-9]{2}/}c{}")]
    C(&'b str, T, &'c std::primitive::str),
    #[sscanf(skip)]
    D,
}
#[derive(sscanf::FromScanf)]
enum Transparent {
    #[sscanf(transparent)]
    Flag(bool),
    #[sscanf(transparent)]
    Num { n: u8 },
    #[sscanf(transparent)]
    Char(char),
}
#[derive(sscanf::FromScanf)]
enum Prefixes {
    #[sscanf("in")]
    In,
    #[sscanf("int")]
    Int,
    #[sscanf("integer")]
    Integer,
}
#[derive(sscanf::FromScanf)]
enum Late {
    #[allow(dead_code)]
    A,
    #[allow(dead_code)]
    B(String),
    #[sscanf("{0}c{1}")]
    C(u8, u8),
    #[allow(dead_code)]
    D { x: u8 },
    #[sscanf("d")]
    E,
}
#[derive(sscanf::FromScanf, Clone, Copy)]
enum Discriminants {
    #[sscanf("three")]
    Three = 3,
    #[sscanf("one")]
    One = 1,
    #[sscanf("t")]
    Two = 2,
}
#[derive(sscanf::FromScanf)]
enum Single {
    #[sscanf("<{}>")]
    Only(u8),
}
#[derive(sscanf::FromScanf)]
#[sscanf(autogen)]
enum Skips {
    First,
    #[sscanf(skip)]
    #[allow(dead_code)]
    Second,
    #[sscanf("2nd")]
    Third,
    #[sscanf(skip)]
    #[allow(dead_code)]
    Fourth(u8),
    #[sscanf("{}")]
    Fifth(u8),
    Sixth,
}
#[derive(sscanf::FromScanf)]
enum Alternatives {
    #[sscanf(format_unescaped = "a|b")]
    Ab,
    #[sscanf(format_unescaped = "b?c{}|d{}")]
    #[allow(dead_code)]
    Unused(u8, u8),
    #[sscanf(r"[bc]+")]
    Raw,
}
/// many variants with captures in front of the one that matches
#[derive(sscanf::FromScanf)]
enum Many {
    #[sscanf("a{0}{1}{2}")]
    A(char, char, char),
    #[sscanf("b{0}{1}")]
    B(char, char),
    #[sscanf("c")]
    C,
    #[sscanf("d{}")]
    D(u8),
    #[sscanf("e{x}{y}")]
    E { y: char, x: char },
    #[sscanf("f")]
    F,
}
/// variants that match the empty text
#[derive(sscanf::FromScanf)]
enum Empty {
    #[sscanf("a")]
    A,
    #[sscanf("")]
    Nothing,
}
#[derive(sscanf::FromScanf)]
enum Runs {
    #[sscanf("-")]
    Dash,
    #[sscanf("!{}")]
    Bang(char),
    #[sscanf("{:/x*/}{:/y*/}{:/z*/}")]
    Runs(String, String, String),
}
#[derive(sscanf::FromScanf)]
enum Maybe<'a> {
    #[sscanf("{n}")]
    Number { n: u8 },
    #[sscanf("{:/[a-c]*/}")]
    Word(&'a str),
}
/// more variants than digits, with captures in each
#[derive(sscanf::FromScanf)]
enum Dozen {
    #[sscanf("a{}")]
    A(u8),
    #[sscanf("b{1}{0}")]
    B(char, char),
    #[sscanf("c")]
    C,
    #[sscanf("d{}")]
    D(i8),
    #[sscanf("e{}.{}.{}")]
    E(u8, u8, u8),
    #[sscanf("f{x}")]
    F { x: char },
    #[sscanf("g{}")]
    G(bool),
    #[sscanf("h{y}{x}")]
    H { x: char, y: u8 },
    #[sscanf("i")]
    I,
    #[sscanf("j{}")]
    J(Single),
    #[sscanf("k{}{}")]
    K(Empty, char),
    #[sscanf("l{}")]
    L(String),
    #[sscanf("m{}{}")]
    M(char, u8),
}

crate::flat_enum! {
    Empty { 0 Empty::A => [], 1 Empty::Nothing => [], }
    Runs { 0 Runs::Dash => [], 1 Runs::Bang(c) => [c], 2 Runs::Runs(a, b, c) => [a, b, c], }
    Maybe<'_> { 0 Maybe::Number { n } => [n], 1 Maybe::Word(x) => [x], }
    Dozen { 0 Dozen::A(x) => [x], 1 Dozen::B(a, b) => [b, a], 2 Dozen::C => [], 3 Dozen::D(x) => [x], 4 Dozen::E(a, b, c) => [a, b, c], 5 Dozen::F { x } => [x],
        6 Dozen::G(x) => [x], 7 Dozen::H { x, y } => [y, x], 8 Dozen::I => [], 9 Dozen::J(x) => [x], 10 Dozen::K(e, c) => [e, c], 11 Dozen::L(x) => [x], 12 Dozen::M(a, b) => [a, b], }
    Down { 0 Down::Three(a, b, c) => [a, b, c], 1 Down::Two { a, b } => [b, a], 2 Down::One(a) => [a], 3 Down::Zero => [], }
    Up { 0 Up::Z => [], 1 Up::Y(a) => [a], 2 Up::X { a, c } => [c, a], 3 Up::W(a, b, _, d) => [a, b, d], 4 Up::A(a) => [a], }
    Overlap { 0 Overlap::A(x) => [x], 1 Overlap::B { x } => [x], 2 Overlap::C => [], 3 Overlap::Never(x) => [x], 4 Overlap::D(x) => [x], }
    Widths { 0 Widths::Three { a, b, c } => [b, a, c], 1 Widths::Never { x, y } => [x, y], 2 Widths::One(x) => [x], 3 Widths::Two(a, b) => [b, a], 4 Widths::Zero => [], }
    Borrows<'_> { 0 Borrows::Quoted(x) => [x], 1 Borrows::Num { n } => [n], 2 Borrows::Word(x) => [x], }
    Lifetimes<'_, '_, '_, u8> { 0 Lifetimes::A(x) => [x], 1 Lifetimes::B { x } => [x], 2 Lifetimes::C(x, y, z) => [x, y, z], 3 Lifetimes::D => [], }
    Transparent { 0 Transparent::Flag(x) => [x], 1 Transparent::Num { n } => [n], 2 Transparent::Char(x) => [x], }
    Prefixes { 0 Prefixes::In => [], 1 Prefixes::Int => [], 2 Prefixes::Integer => [], }
    Late { 0 Late::A => [], 1 Late::B(x) => [x], 2 Late::C(x, y) => [x, y], 3 Late::D { x } => [x], 4 Late::E => [], }
    Discriminants { 3 Discriminants::Three => [], 1 Discriminants::One => [], 2 Discriminants::Two => [], }
    Single { 0 Single::Only(x) => [x], }
    Skips { 0 Skips::First => [], 1 Skips::Second => [], 2 Skips::Third => [], 3 Skips::Fourth(x) => [x], 4 Skips::Fifth(x) => [x], 5 Skips::Sixth => [], }
    Alternatives { 0 Alternatives::Ab => [], 1 Alternatives::Unused(x, y) => [x, y], 2 Alternatives::Raw => [], }
    Many { 0 Many::A(a, b, c) => [a, b, c], 1 Many::B(a, b) => [a, b], 2 Many::C => [], 3 Many::D(x) => [x], 4 Many::E { y, x } => [x, y], 5 Many::F => [], }
}

#[derive(sscanf::FromScanf)]
enum Down {
    #[sscanf("{}:{}:{}")]
    Three(String, String, String),
    #[sscanf("{b}:{a}")]
    Two { a: String, b: String },
    #[sscanf("{}")]
    One(String),
    #[sscanf("x")]
    #[allow(dead_code)]
    Zero,
}
#[derive(sscanf::FromScanf)]
enum Up {
    #[sscanf("x:x")]
    Z,
    #[sscanf(transparent)]
    Y(char),
    #[sscanf("{c}:{}")]
    X { a: char, c: char },
    #[sscanf("{}:{}{}")]
    W(char, String, #[sscanf(default)] u8, char),
    #[sscanf("{}")]
    A(String),
}
const OVERLAP: P = Alt(&[(0, &[L("a"), Ph(Char)]), (1, &[L("ab"), Ph(U8)]), (2, &[L("a")]), (4, &[Ph(Char), L("b")])]);
const WIDTHS: P = Alt(&[(0, &[Ph(U8), L("."), Ph(U8), L("."), Ph(I8)]), (2, &[Ph(I8)]), (3, &[Ph(Char), L("-"), Ph(U8)]), (4, &[L("x")])]);
const BORROWS: P = Alt(&[(0, &[L("\""), Ph(Str), L("\"")]), (1, &[Ph(I16)]), (2, &[Ph(Str)])]);
const LIFETIMES: P = Alt(&[(0, &[L("a"), Ph(Str)]), (1, &[L("b"), Ph(Str)]), (2, &[Ph(Str), Ph(Custom(two_digits, two_value)), L("c"), Ph(Str)])]);
fn two_digits(s: &[u8], p: usize) -> Vec<usize> {
    if s.len() >= p + 2 && s[p].is_ascii_digit() && s[p + 1].is_ascii_digit() { vec![p + 2] } else { vec![] }
}
fn two_value(s: &'static str, a: usize, _: usize) -> Option<Val> {
    let b = s.as_bytes();
    Some(Val::Int(false, ((b[a] - b'0') * 10 + b[a + 1] - b'0') as u128))
}
const TRANSPARENT: P = Alt(&[(0, &[Ph(Bool)]), (1, &[Ph(U8)]), (2, &[Ph(Char)])]);
const PREFIXES: P = Alt(&[(0, &[L("in")]), (1, &[L("int")]), (2, &[L("integer")])]);
const LATE: P = Alt(&[(2, &[Ph(U8), L("c"), Ph(U8)]), (4, &[L("d")])]);
const DISCR: P = Alt(&[(3, &[L("three")]), (1, &[L("one")]), (2, &[L("t")])]);
const SKIPS: P = Alt(&[(0, &[L("First")]), (2, &[L("2nd")]), (4, &[Ph(U8)]), (5, &[L("Sixth")])]);
const MANY: P = Alt(&[(0, &[L("a"), Ph(Char), Ph(Char), Ph(Char)]), (1, &[L("b"), Ph(Char), Ph(Char)]), (2, &[L("c")]), (3, &[L("d"), Ph(U8)]),
    (4, &[L("e"), Ph(Char), Ph(Char)]), (5, &[L("f")])]);
const DOWN: P = Alt(&[(0, &[Ph(Owned), L(":"), Ph(Owned), L(":"), Ph(Owned)]), (1, &[Ph(Owned), L(":"), Ph(Owned)]), (2, &[Ph(Owned)]), (3, &[L("x")])]);
const UP: P = Alt(&[(0, &[L("x:x")]), (1, &[Ph(Char)]), (2, &[Ph(Char), L(":"), Ph(Char)]), (3, &[Ph(Char), L(":"), Ph(Owned), Ph(Char)]), (4, &[Ph(Owned)])]);
fn star(s: &[u8], p: usize, f: impl Fn(u8) -> bool) -> Vec<usize> {
    let mut v = runs_of(s, p, usize::MAX, f);
    v.reverse();
    v.push(p);
    v
}
fn text(s: &'static str, a: usize, b: usize) -> Option<Val> {
    Some(Val::Text(s.as_bytes()[a..b].to_vec()))
}
const XS: K = Custom(|s, p| star(s, p, |c| c == b'x'), text);
const YS: K = Custom(|s, p| star(s, p, |c| c == b'y'), text);
const ZS: K = Custom(|s, p| star(s, p, |c| c == b'z'), text);
const ABC: K = Custom(|s, p| star(s, p, |c| c >= b'a' && c <= b'c'), |_, a, b| Some(Val::Slice(a, b - a)));
const EMPTY: P = Alt(&[(0, &[L("a")]), (1, &[])]);
const RUNS: P = Alt(&[(0, &[L("-")]), (1, &[L("!"), Ph(Char)]), (2, &[Ph(XS), Ph(YS), Ph(ZS)])]);
const MAYBE: P = Alt(&[(0, &[Ph(U8)]), (1, &[Ph(ABC)])]);
const SINGLE: P = Alt(&[(0, &[L("<"), Ph(U8), L(">")])]);
const DOZEN: P = Alt(&[(0, &[L("a"), Ph(U8)]), (1, &[L("b"), Ph(Char), Ph(Char)]), (2, &[L("c")]), (3, &[L("d"), Ph(I8)]), (4, &[L("e"), Ph(U8), L("."), Ph(U8), L("."), Ph(U8)]),
    (5, &[L("f"), Ph(Char)]), (6, &[L("g"), Ph(Bool)]), (7, &[L("h"), Ph(U8), Ph(Char)]), (8, &[L("i")]), (9, &[L("j"), SINGLE]), (10, &[L("k"), EMPTY, Ph(Char)]), (11, &[L("l"), Ph(Owned)]),
    (12, &[L("m"), Ph(Char), Ph(U8)])]);

include!("huge_enum.rs");

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{Overlap}")), [OVERLAP], 3 5 3, "ab12", "ab", "a", "xb"),
    p!(|s| flat!(s, sscanf!(s, "{Overlap}{Overlap}")), [OVERLAP, OVERLAP], 2 5 2, "abab1", "aab"),
    p!(|s| flat!(s, sscanf!(s, "{Widths}")), [WIDTHS], 2 5 2, "1.2.-3", "-8", "x-9", "x"),
    p!(|s| flat!(s, sscanf!(s, "{}={}", Widths, u8)), [WIDTHS, L("="), Ph(U8)], 1 4 2, "1.2.3=4", "5=6", "x=7", "x-1=2"),
    p!(|s| flat!(s, sscanf!(s, "{char}{Widths}{char}")), [Ph(Char), WIDTHS, Ph(Char)], 2 4 2, "a1.2.3b", "xxx"),
    p!(|s| flat!(s, sscanf!(s, "{Widths},{Widths}")), [WIDTHS, L(","), WIDTHS], 0 4 2, "x-1,2.3.4", "1.2.-3,x"),
    p!(|s| flat!(s, sscanf!(s, "{Borrows}")), [BORROWS], 3 4 2, "\"ab\"", "-123", "a\""),
    p!(|s| flat!(s, sscanf!(s, "{Borrows}{str}")), [BORROWS, Ph(Str)], 3 4 2, "\"a\"b", "12a"),
    p!(|s| flat!(s, sscanf!(s, "{Transparent}")), [TRANSPARENT], 2 3 2, "true", "7", "é"),
    p!(|s| flat!(s, sscanf!(s, "{Transparent}{Transparent}")), [TRANSPARENT, TRANSPARENT], 2 4 2, "falsetrue", "t1"),
    p!(|s| flat!(s, sscanf!(s, "{Prefixes}")), [PREFIXES], 2 4 3, "integer", "int", "in"),
    p!(|s| flat!(s, sscanf!(s, "{Prefixes}{str}")), [PREFIXES, Ph(Str)], 1 3 2, "integer", "inte"),
    p!(|s| flat!(s, sscanf!(s, "{Late}")), [LATE], 2 5 2, "1c2", "d"),
    p!(|s| flat!(s, sscanf!(s, "{Discriminants}")), [DISCR], 2 4 2, "three", "one", "t"),
    p!(|s| flat!(s, sscanf!(s, "{Single}{Single}")), [Alt(&[(0, &[L("<"), Ph(U8), L(">")])]), Alt(&[(0, &[L("<"), Ph(U8), L(">")])])], 1 4 2, "<1><23>"),
    p!(|s| flat!(s, sscanf!(s, "{Skips}")), [SKIPS], 2 4 3, "First", "2nd", "3", "Sixth", "Second", "Fourth", "Third", "4"),
    p!(|s| flat!(s, sscanf!(s, "{Skips}:{Skips}")), [SKIPS, L(":"), SKIPS], 1 3 2, "2nd:7", "Sixth:First"),
    p!(|s| flat!(s, sscanf!(s, "{Many}")), [MANY], 3 4 2, "axyz", "bxy", "c", "d1", "exy", "f"),
    p!(|s| flat!(s, sscanf!(s, "{Many}{Many}{u8}")), [MANY, MANY, Ph(U8)], 0 5 2, "exyf1", "cd12", "bxyaxyz5"),
    p!(|s| flat!(s, sscanf!(s, "({Overlap}){str}", )), [L("("), OVERLAP, L(")"), Ph(Str)], 2 5 2, "(ab)b)x"),
    p!(|s| flat!(s, sscanf!(s, "{Empty}")), [EMPTY], 2 3 2, "", "a"),
    p!(|s| flat!(s, sscanf!(s, "<{Empty}{u8}")), [L("<"), EMPTY, Ph(U8)], 1 4 2, "<12", "<a1"),
    p!(|s| flat!(s, sscanf!(s, "{Runs}")), [RUNS], 2 4 2, "", "xxyz", "-", "!x"),
    p!(|s| flat!(s, sscanf!(s, "{Runs}{Empty}:{Runs}")), [RUNS, EMPTY, L(":"), RUNS], 2 4 2, ":", "xya:z", "-a:!!"),
    p!(|s| flat!(s, sscanf!(s, "{Maybe}{char}{Maybe}")), [MAYBE, Ph(Char), MAYBE], 2 4 2, "x", "12x3", "abcab"),
    p!(|s| flat!(s, sscanf!(s, "{Dozen}")), [DOZEN], 0 3 2, "a12", "bxy", "c", "d-12", "e1.2.3", "fx", "gtrue", "h1x", "i", "j<12>", "kx", "kax", "lxy", "mx12"),
    p!(|s| flat!(s, sscanf!(s, "{Dozen}{Dozen}")), [DOZEN, DOZEN], 0 0 2, "mx1lab", "j<1>kaa", "kxka", "ci"),
    p!(|s| flat!(s, sscanf!(s, "{Down}")), [DOWN], 2 4 2, "a:b:c", "a:b", "x"),
    p!(|s| flat!(s, sscanf!(s, "{Up}")), [UP], 2 4 2, "x:x", "y", "x:y", "a:bcd", "abc"),
    /* 29: more groups than fit a byte */
    p!(|s| flat!(s, sscanf!(s, "{HugeEnum}{u8}-{HugeEnum}")), [HUGE_ENUM, Ph(U8), L("-"), HUGE_ENUM], 0 0 2, "12:a34-129:é5"),
    p!(|s| flat!(s, sscanf!(s, "{}", Lifetimes<u8>)), [LIFETIMES], 2 4 2, "ax", "bx", "d12cx"),
];

crate::harness! {
    fn c06_prog() { run(PROGS) }
}
#[allow(dead_code)]
fn unused(x: Alternatives) {
    let _ = flat!("", Some(x));
}
