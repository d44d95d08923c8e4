//! Type::from_str is the same as sscanf!(text, "{Type}"), and the same as parse() for types with FromStr.
use crate::prog::{K::*, P::*, *};
use crate::sym::*;
use crate::{flat, p};
use sscanf::errors::*;
use sscanf::{sscanf, Error, FromScanf};
use std::str::FromStr;

#[derive(sscanf::FromScanf)]
#[sscanf(format = "({x},{y})")]
struct Point {
    x: i8,
    y: u8,
}
#[derive(sscanf::FromScanf)]
enum Kind {
    #[sscanf("a")]
    A,
    #[sscanf("b{}")]
    B(u8),
    #[sscanf("c{p}d")]
    C { p: Point },
    #[sscanf("")]
    Nothing,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format_unescaped = "x+|y")]
struct Bare;
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{first} {last}")]
struct Name<'a> {
    last: &'a str,
    first: &'a str,
}
#[derive(sscanf::FromScanf)]
#[sscanf(transparent)]
struct Wrap(Kind);
#[derive(sscanf::FromScanf)]
#[sscanf(transparent)]
struct Yes(bool);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{}{}")]
struct Hex(#[sscanf(map = |x: Kind| matches!(x, Kind::B(_)))] bool, u8);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "")]
struct Empty;

#[derive(sscanf::FromScanf)]
enum Blank {
    #[sscanf(format_unescaped = "z*")]
    Zs,
    #[sscanf("{}z")]
    Char(char),
    #[sscanf("w{}")]
    Text(String),
}
/// hand-written, with a top-level alternation
struct Manual(u8, u8);
impl sscanf::RegexRepresentation for Manual {
    const REGEX: &'static str = r"([0-9])x|y([0-9])";
}
impl<'t> FromScanf<'t> for Manual {
    type Err = std::num::ParseIntError;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {
        src.next().unwrap().unwrap();
        let a = src.next().unwrap();
        let b = src.next().unwrap();
        match (a, b) {
            (Some(a), None) => Ok(Manual(0, a.as_str().parse()?)),
            (None, Some(b)) => Ok(Manual(1, b.as_str().parse()?)),
            _ => Err("x".parse::<u8>().unwrap_err()),
        }
    }
}

crate::flat_as! {
    Point: |p| p.x, p.y;
    Name<'_>: |n| n.first, n.last;
    Wrap: |w| w.0;
    Yes: |w| w.0;
    Hex: |w| w.0, w.1;
    Bare: |_| ;
    Empty: |_| ;
}
crate::flat_enum! {
    Blank { 0 Blank::Zs => [], 1 Blank::Char(c) => [c], 2 Blank::Text(t) => [t], }
    Kind { 0 Kind::A => [], 1 Kind::B(x) => [x], 2 Kind::C { p } => [p], 3 Kind::Nothing => [], }
}
const POINT: P = Sub(&[L("("), Ph(I8), L(","), Ph(U8), L(")")]);
const KIND: P = Alt(&[(0, &[L("a")]), (1, &[L("b"), Ph(U8)]), (2, &[L("c"), POINT, L("d")]), (3, &[])]);

fn kind_ends(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut out = vec![];
    go(&[KIND], s, p, &mut v, &mut |e, _| { out.push(e); false });
    out
}
fn kind_is_b(s: &'static str, a: usize, b: usize) -> Option<Val> {
    match reference(&[KIND], &s[a..b]) {
        Outcome::Values(v) => Some(Val::Bool(matches!(v[0], Val::Var(1)))),
        _ => None,
    }
}

/// the results of the two ways have to be the same
fn both(a: Result<Vec<Val>, Error>, b: Result<Vec<Val>, Error>) -> Result<Vec<Val>, Error> {
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            let mut ok = x.len() == y.len();
            for (p, q) in x.iter().zip(y) {
                ok &= p.same(q);
            }
            check(ok, "from_str returns the value that sscanf! returns");
        }
        (Err(Error::MatchFailed), Err(Error::MatchFailed)) => {}
        (Err(Error::ParsingFailed(_)), Err(Error::ParsingFailed(_))) => {}
        _ => check(false, "from_str and sscanf! agree"),
    }
    a
}
macro_rules! both {
    ($s:ident, $t:ident) => { both(flat!($s, <$t as FromScanf>::from_str($s)), flat!($s, sscanf!($s, "{}", $t))) };
}

/// a regex that is large when it is compiled
#[derive(sscanf::FromScanf)]
#[sscanf("{:/[^,]{0,1000}/},{}")]
struct Large(String, u8);
crate::flat_as! { Large: |l| l.0, l.1; }
fn but_comma(s: &[u8], pos: usize) -> Vec<usize> {
    let mut v = vec![pos];
    let mut i = pos;
    while i < s.len() && s[i] != b',' {
        i += width(s[i]);
        v.push(i);
    }
    v.reverse();
    v
}
fn text(s: &'static str, a: usize, b: usize) -> Option<Val> {
    Some(Val::Text(s.as_bytes()[a..b].to_vec()))
}

static PROGS: &[Prog] = &[
    p!(|s| both!(s, Point), [POINT], 1 3 2, "(-1,2)", "(-128,255)"),
    p!(|s| both!(s, Kind), [KIND], 2 3 2, "a", "b12", "c(1,2)d"),
    p!(|s| both!(s, Bare), [Re(|s, p| { let mut v = runs_of(s, p, 99, |c| c == b'x'); v.reverse(); v.extend(runs_of(s, p, 1, |c| c == b'y')); v })], 2 4 2, "xxx", "y"),
    p!(|s| both!(s, Name), [Ph(Str), L(" "), Ph(Str)], 3 4 2, "a b c"),
    p!(|s| both!(s, Wrap), [KIND], 2 3 2, "a", "b12", "c(1,2)d"),
    p!(|s| both!(s, Yes), [Ph(Bool)], 2 3 2, "true", "false"),
    p!(|s| both!(s, Hex), [Ph(Custom(kind_ends, kind_is_b)), Ph(U8)], 1 3 2, "a1", "b123", "c(1,2)d3"),
    p!(|s| both!(s, Empty), [], 2 3 1, ""),
    p!(|s| both!(s, Blank), [Alt(&[(0, &[Re(|s, p| { let mut v = runs_of(s, p, 99, |c| c == b'z'); v.reverse(); v.push(p); v })]), (1, &[Ph(Char), L("z")]), (2, &[L("w"), Ph(Owned)])])], 3 4 2, "zz", "", "az", "wab"),
    p!(|s| both!(s, Large), [Ph(Custom(but_comma, text)), L(","), Ph(U8)], 0 1 2, "ab,1"),
];
/// Manual: 0 digit x | 1: y digit
fn manual() {
    let deep = param(0);
    let n = fork(4 + deep);
    let s = if n < 3 + deep { any_str(n) } else { ascii_str(n) };
    let a = <Manual as FromScanf>::from_str(s);
    let b = sscanf!(s, "{Manual}");
    let t = s.as_bytes();
    let want = if t.len() != 2 { None }
        else if t[0].is_ascii_digit() && t[1] == b'x' { Some((0, t[0] - b'0')) }
        else if t[0] == b'y' && t[1].is_ascii_digit() { Some((1, t[1] - b'0')) }
        else { None };
    for r in [a, b] {
        match (r, want) {
            (Ok(m), Some((k, d))) => {
                reach("value");
                check(m.0 == k && m.1 == d, "the value of a hand-written implementation");
            }
            (Err(Error::MatchFailed), None) => reach("no match"),
            _ => check(false, "a hand-written implementation accepts what its regex describes"),
        }
    }
}

/// a type whose FromStr accepts more than its regex
#[derive(Debug, PartialEq, Clone)]
struct Odd(usize);
#[derive(Debug, PartialEq)]
struct OddError(usize);
impl std::fmt::Display for OddError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("odd")
    }
}
impl std::error::Error for OddError {}
impl FromStr for Odd {
    type Err = OddError;
    fn from_str(s: &str) -> Result<Self, OddError> {
        if s.len() % 2 == 1 { Ok(Odd(s.len())) } else { Err(OddError(s.len())) }
    }
}
impl sscanf::RegexRepresentation for Odd {
    const REGEX: &'static str = "o+|O";
}

fn std_type<T: FromStr + PartialEq + sscanf::RegexRepresentation + 'static>(s: &'static str)
where
    T::Err: std::error::Error + PartialEq + 'static,
{
    let a = <T as FromScanf>::from_str(s);
    let b = s.parse::<T>();
    match (a, b) {
        (Ok(x), Ok(y)) => {
            reach("value");
            check(x == y, "from_str returns what parse() returns");
        }
        (Err(Error::ParsingFailed(e)), Err(y)) => {
            reach("failed conversion");
            let e = e.downcast_ref::<FromStrFailedError<T>>();
            check(e.is_some(), "from_str reports the error of FromStr");
            if let Some(e) = e {
                check(e.error == y, "from_str keeps the error of parse()");
            }
        }
        _ => check(false, "from_str and parse() agree"),
    }
}
fn std_types() {
    let deep = param(1);
    let n = fork(4 + deep);
    let s = if n < 3 + deep { any_str(n) } else { ascii_str(n) };
    match param(0) {
        0 => std_type::<u8>(s),
        1 => std_type::<i8>(s),
        2 => std_type::<u32>(s),
        3 => std_type::<i64>(s),
        4 => std_type::<u128>(s),
        5 => std_type::<bool>(s),
        6 => std_type::<char>(s),
        7 => std_type::<std::num::NonZeroU8>(s),
        8 => std_type::<std::num::NonZeroI16>(s),
        9 => std_type::<Odd>(s),
        10 => std_type::<isize>(s),
        _ => {
            let a = <String as FromScanf>::from_str(s);
            let b = <std::path::PathBuf as FromScanf>::from_str(s);
            match (a, b) {
                (Ok(x), Ok(y)) => {
                    reach("value");
                    check(same_bytes(x.as_bytes(), s.as_bytes()), "from_str of String returns the text");
                    check(same_bytes(y.as_os_str().as_encoded_bytes(), s.as_bytes()), "from_str of PathBuf returns the text");
                }
                _ => check(false, "every text is a String and a PathBuf"),
            }
        }
    }
}

#[derive(sscanf::FromScanf)]
#[sscanf(format = "<{:/[-1x]+/}>")]
struct Angle<T>(T)
where
    T: FromStr + 'static,
    <T as FromStr>::Err: std::error::Error + 'static;
#[derive(sscanf::FromScanf)]
#[sscanf(format = "<{}>")]
struct Digits(#[sscanf(map = |s: Two| s.0 as usize)] usize);
struct Two(u8);
impl FromStr for Two {
    type Err = OddError;
    fn from_str(s: &str) -> Result<Self, OddError> {
        s.parse().map(Two).map_err(|_| OddError(s.len()))
    }
}
impl sscanf::RegexRepresentation for Two {
    const REGEX: &'static str = "[0-9]x?";
}

static ONE: [bool; 256] = table(b"1-x");
/// one call of from_str of one of several types: the outcome
fn call(k: usize, s: &'static str) -> Result<i64, bool> {
    fn out<T>(r: Result<T, Error>, f: impl Fn(T) -> i64) -> Result<i64, bool> {
        match r {
            Ok(v) => Ok(f(v)),
            Err(Error::MatchFailed) => Err(false),
            Err(_) => Err(true),
        }
    }
    match k {
        0 => out(Angle::<u8>::from_str(s), |a| a.0 as i64),
        1 => out(Angle::<i8>::from_str(s), |a| a.0 as i64),
        2 => out(Angle::<char>::from_str(s), |a| a.0 as i64),
        3 => out(Digits::from_str(s), |a| a.0 as i64),
        _ => out(Kind::from_str(s), |a| matches!(a, Kind::Nothing) as i64),
    }
}
/// ... and what it has to be
fn expected(k: usize, s: &'static str) -> Result<i64, bool> {
    let b = s.as_bytes();
    if k == 4 {
        return if b.is_empty() { Ok(1) } else { Err(false) };
    }
    if b.len() < 3 || b[0] != b'<' || b[b.len() - 1] != b'>' {
        return Err(false);
    }
    let t = &b[1..b.len() - 1];
    let one = |c: u8| c == b'1';
    let ones = !t.is_empty() && t.iter().all(|c| one(*c));
    match k {
        0 | 1 if ones => Ok(if t.len() == 2 { 11 } else { 1 }),
        1 if t.len() == 2 && t[0] == b'-' && one(t[1]) => Ok(-1),
        2 if t.len() == 1 => Ok(t[0] as i64),
        0 | 1 | 2 if !t.is_empty() => Err(true),
        3 if t.len() == 1 && one(t[0]) => Ok(1),
        3 if t.len() == 2 && one(t[0]) && t[1] == b'x' => Err(true),
        _ => Err(false),
    }
}
/// calls for different types, one after the other
fn again() {
    let n = param(1);
    for i in 0..n {
        let k = if i == 0 { param(0) } else { fork(5) };
        let t = if k == 4 { fork(2) } else { 1 + fork(2) };
        let s = if t == 0 { "" } else { &*Box::leak(format!("<{}>", table_str(t, &ONE)).into_boxed_str()) };
        let r = call(k, s);
        let want = expected(k, s);
        match want {
            Ok(_) => reach("value"),
            Err(false) => reach("no match"),
            Err(true) => reach("failed conversion"),
        }
        check(r == want, "a call is not affected by those before it");
    }
}

crate::harness! {
    fn c10_prog() { run(PROGS) }
    fn c10_manual() { manual() }
    fn c10_std() { std_types() }
    fn c10_again() { again() }
}
