//! Errors: which kind, and what they wrap.
use crate::prog::{K::*, P::*, *};
use crate::sym::*;
use crate::{flat, p};
use sscanf::errors::*;
use sscanf::{sscanf, Error};
use std::error::Error as _;

#[derive(Debug, PartialEq)]
pub struct MyError(u8);
impl std::fmt::Display for MyError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("my error")
    }
}
impl std::error::Error for MyError {}
/// a type with a FromStr: its regex accepts more than its conversion
#[derive(Debug)]
pub struct Picky(u8);
impl std::str::FromStr for Picky {
    type Err = MyError;
    fn from_str(s: &str) -> Result<Self, MyError> {
        let c = s.as_bytes()[0];
        if c % 2 == 0 { Ok(Picky(c)) } else { Err(MyError(c)) }
    }
}
impl sscanf::RegexRepresentation for Picky {
    const REGEX: &'static str = "[a-f]";
}
fn picky_ends(s: &[u8], p: usize) -> Vec<usize> {
    runs_of(s, p, 1, |c| c >= b'a' && c <= b'f')
}
fn picky(s: &'static str, a: usize, _: usize) -> Option<Val> {
    let c = s.as_bytes()[a];
    if c % 2 == 0 { Some(Val::Int(false, c as u128)) } else { None }
}
const PICKY: K = Custom(picky_ends, picky);

#[derive(sscanf::FromScanf)]
#[sscanf("<{}{}>")]
struct Pair(Picky, u8);
#[derive(sscanf::FromScanf)]
enum Choice {
    #[sscanf("p{}")]
    P(Picky),
    #[sscanf("n{}")]
    N(#[sscanf(filter_map = |x: u8| if x == 7 { None } else { Some(x) })] u8),
    #[sscanf("t{}")]
    T(#[sscanf(try_from = u16)] u8),
    #[sscanf("q{}")]
    Q(Pair),
}
#[derive(sscanf::FromScanf, Debug)]
#[sscanf("<{}>")]
#[allow(dead_code)]
struct Inner(Picky);
#[derive(sscanf::FromScanf, Debug)]
#[allow(dead_code)]
enum Mid {
    #[sscanf("m{x}")]
    M { x: Inner },
    #[sscanf("t{}")]
    T(#[sscanf(try_from = u16)] u8),
    #[sscanf("f{}")]
    F(#[sscanf(filter_map = |x: u8| if x > 30 { None } else { Some(x) })] u8),
    #[sscanf("h{:#x}")]
    H(u8),
    #[sscanf(transparent)]
    I(i8),
}
#[derive(sscanf::FromScanf, Debug)]
#[sscanf(transparent)]
#[allow(dead_code)]
struct Wrapped {
    mid: Mid,
}
#[derive(sscanf::FromScanf, Debug)]
#[sscanf("[{}]{}")]
#[allow(dead_code)]
struct Outer(Wrapped, Picky);
crate::flat_as! { Picky: |p| p.0; Pair: |p| p.0, p.1; }
crate::flat_enum! { Choice { 0 Choice::P(p) => [p], 1 Choice::N(x) => [x], 2 Choice::T(x) => [x], 3 Choice::Q(x) => [x], } }

const PAIR: P = Sub(&[L("<"), Ph(PICKY), Ph(U8), L(">")]);
static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{u8}")), [Ph(U8)], 4 4 2, "255"),
    p!(|s| flat!(s, sscanf!(s, "{Picky}")), [Ph(PICKY)], 4 4 1, "b"),
    p!(|s| flat!(s, sscanf!(s, "{u8:/.+/}")), [Ph(Custom(
        |s, p| { let mut r = runs(s, p); r.reverse(); r },
        |s, a, b| match int::<u8>().want(&s.as_bytes()[a..b], 10, crate::model::Prefix::Never) {
            crate::model::Want::Value(n, m) | crate::model::Want::Either(n, m) => Some(Val::Int(n, m)),
            crate::model::Want::Reject => None,
        }))], 3 4 2, "12", "0001"),
    p!(|s| flat!(s, sscanf!(s, "{i64},{Picky},{u8}")), [Ph(I64), L(","), Ph(PICKY), L(","), Ph(U8)], 0 2 2, "-9223372036854775808,b,255", "9223372036854775808,a,256"),
    p!(|s| flat!(s, sscanf!(s, "{Pair}")), [PAIR], 2 4 2, "<b255>"),
    p!(|s| flat!(s, sscanf!(s, "{Choice}")),
        [Alt(&[(0, &[L("p"), Ph(PICKY)]), (1, &[L("n"), Map(U8, |v| if v.same(&Val::Int(false, 7)) { None } else { Some(v) })]),
            (2, &[L("t"), Map(U16, |v| match v { Val::Int(_, m) if m < 256 => Some(v), _ => None })]), (3, &[L("q"), PAIR])])],
        2 4 2, "pb", "n7", "t256", "q<a1>", "q<b999>"),
    p!(|s| flat!(s, sscanf!(s, "{char:/.*/}")), [Ph(Custom(
        |s, p| { let mut r = runs(s, p); r.reverse(); r.push(p); r },
        |s, a, b| if b > a && width(s.as_bytes()[a]) == b - a { Some(Val::Char(decode(&s.as_bytes()[a..b]))) } else { None }))], 4 4 2, "é"),
    p!(|s| flat!(s, sscanf!(s, "{bool:/[a-zA-Z0-9_]+/}")), [Ph(Custom(
        |s, p| { let mut r = runs_of(s, p, 99, |c| c.is_ascii_alphanumeric() || c == b'_'); r.reverse(); r },
        |s, a, b| match &s[a..b] { "true" => Some(Val::Bool(true)), "false" => Some(Val::Bool(false)), _ => None }))], 0 4 2, "true", "False"),
];

fn display(e: &dyn std::fmt::Display) -> String {
    e.to_string()
}
/// The error of a failed conversion is in the chain of sources.
fn chain() {
    let which = param(0);
    let s = ascii_str(if which == 2 { 4 } else { 3 });
    match which {
        0 => {
            let f: fn(&'static str) -> Result<(Picky, u8), Error> = |s| sscanf!(s, "{Picky}{u8}");
            let _ = f("");
            if let Err(Error::ParsingFailed(e)) = f(s) {
                if let Some(p) = e.downcast_ref::<FromStrFailedError<Picky>>() {
                    reach("own type");
                    let c = s.as_bytes()[0];
                    check(p.error == MyError(c) && c % 2 == 1, "the error of the conversion, for the text that failed");
                    check(p.type_name.ends_with("Picky"), "the name of the type");
                    let src = e.source();
                    check(src.and_then(|x| x.downcast_ref::<MyError>()) == Some(&MyError(c)), "source() is the error of the conversion");
                } else {
                    check(false, "the only conversion that can fail here is the one of Picky"); // two digits fit into u8
                }
            }
        }
        1 => {
            let f: fn(&'static str) -> Result<Choice, Error> = |s| sscanf!(s, "{Choice}");
            let _ = f("");
            let r = f(s);
            if let Err(err @ Error::ParsingFailed(e)) = &r {
                let outer = err.source().is_some();
                check(outer, "ParsingFailed has a source");
                let Some(d) = e.downcast_ref::<FromScanfFailedError>() else {
                    check(false, "a derived type reports FromScanfFailedError");
                    return;
                };
                check(same_bytes(d.type_name.as_bytes(), b"Choice"), "the name of the derived type");
                let b = s.as_bytes();
                match b[0] {
                    b'n' => {
                        reach("filter_map");
                        // n007 and the like
                        let none = d.error.downcast_ref::<FilterMapNoneError>();
                        let int = d.error.downcast_ref::<FromStrFailedError<u8>>();
                        check(none.is_some() != int.is_some(), "the cause is the closure or the number");
                        if let Some(n) = none {
                            check(same_bytes(n.field_name.as_bytes(), b"0"), "the name of the field");
                            check(b[2] == b'7', "the closure rejected the number");
                        }
                    }
                    b'p' => check(false, "three characters are too many for this variant"),
                    b't' => check(false, "two digits fit"),
                    _ => check(false, "no such variant"),
                }
                check(e.source().is_some(), "the error of the derived type has a source");
            }
        }
        2 => {
            let f: fn(&'static str) -> Result<Pair, Error> = |s| sscanf!(s, "{Pair}");
            let _ = f("");
            let r = f(s);
            if let Err(Error::ParsingFailed(e)) = &r {
                reach("pair");
                let d = e.downcast_ref::<FromScanfFailedError>();
                check(d.is_some(), "a derived type reports FromScanfFailedError");
                if let Some(d) = d {
                    check(same_bytes(d.type_name.as_bytes(), b"Pair"), "the name of the derived type");
                    let p = d.error.downcast_ref::<FromStrFailedError<Picky>>();
                    check(p.is_some(), "the cause is the first field");
                    if let Some(p) = p {
                        check(p.error == MyError(s.as_bytes()[1]), "the cause is the text of the first field");
                    }
                    let below = e.source().and_then(|x| x.downcast_ref::<FromStrFailedError<Picky>>());
                    check(below.is_some(), "source() is the cause");
                }
            }
        }
        4 => nested(),
        5 => structs(),
        6 => foreign(),
        7 => radix(),
        _ => {
            let f: fn(&'static str) -> Result<u8, Error> = |s| sscanf!(s, "{u8}");
            let _ = f("");
            match f(s) {
                Ok(_) => reach("ok"),
                Err(e @ Error::MatchFailed) => {
                    reach("no match");
                    check(e.source().is_none(), "MatchFailed has no source");
                    check(same_bytes(display(&e).as_bytes(), b"sscanf: The input did not match the format string"), "the message");
                }
                Err(Error::ParsingFailed(e)) => {
                    reach("number");
                    let p = e.downcast_ref::<FromStrFailedError<u8>>();
                    check(p.is_some(), "the error of FromStr");
                    if let Some(p) = p {
                        check(*p.error.kind() == std::num::IntErrorKind::PosOverflow, "the reason");
                        check(same_bytes(p.type_name.as_bytes(), b"u8"), "the name of the type");
                        let m = display(&Error::ParsingFailed(e));
                        check(same_bytes(m.as_bytes(), b"sscanf: Parsing failed: type u8 failed to parse from a string: number too large to fit in target type"), "the message contains the cause");
                    }
                }
            }
        }
    }
}

fn as_derived<'a>(e: &'a (dyn std::error::Error + 'static), name: &'static str) -> Option<&'a FromScanfFailedError> {
    let d = e.downcast_ref::<FromScanfFailedError>();
    check(d.is_some(), "each derived type reports FromScanfFailedError");
    if let Some(d) = d {
        check(same_bytes(d.type_name.as_bytes(), name.as_bytes()), "each with its own name");
        check(d.source().is_some(), "each with a source");
    }
    d
}
#[derive(sscanf::FromScanf, Debug)]
#[sscanf("{}")]
#[allow(dead_code)]
struct Filtered(#[sscanf(filter_map = |x: u8| if x > 3 { Some(x) } else { None })] u8);
#[derive(sscanf::FromScanf, Debug)]
#[sscanf("{y}")]
#[allow(dead_code)]
struct Tried {
    #[sscanf(try_from = u16)]
    y: u8,
}
#[derive(sscanf::FromScanf, Debug)]
#[sscanf("{:x}")]
#[allow(dead_code)]
struct Hexed(i8);
#[derive(sscanf::FromScanf, Debug)]
#[sscanf("{a}:{b}")]
#[allow(dead_code)]
struct Both {
    #[sscanf(filter_map = |x: Filtered| if x.0 < 7 { Some(x) } else { None })]
    a: Filtered,
    #[sscanf(map = |x: Tried| x.y)]
    b: u8,
}
/// structs whose only field fails in one of the ways
fn structs() {
    fn cause<T>(r: &Result<T, Error>, names: &[&'static str]) -> Option<&'static (dyn std::error::Error + 'static)> {
        match r {
            Ok(_) => {
                reach("value");
                None
            }
            Err(Error::MatchFailed) => {
                reach("no match");
                None
            }
            Err(e) => {
                reach("failed conversion");
                let mut e: &(dyn std::error::Error + 'static) = e;
                for n in names {
                    e = e.source().unwrap();
                    as_derived(e, n)?;
                }
                check(e.source().is_some(), "each with a source");
                // the result is not dropped before the end
                Some(unsafe { std::mem::transmute(e.source()?) })
            }
        }
    }
    let k = param(1);
    let s = ascii_str(if k == 1 || k == 3 { 3 } else { 2 });
    match k {
        0 => {
            let f: fn(&'static str) -> Result<Filtered, Error> = |s| sscanf!(s, "{Filtered}");
            let _ = f("");
            let r = f(s);
            if let Some(m) = cause(&r, &["Filtered"]) {
                check(m.downcast_ref::<FilterMapNoneError>().is_some_and(|e| same_bytes(e.field_name.as_bytes(), b"0")), "the cause is the closure");
            }
        }
        1 => {
            let f: fn(&'static str) -> Result<Tried, Error> = |s| sscanf!(s, "{Tried}");
            let _ = f("");
            let r = f(s);
            if let Some(m) = cause(&r, &["Tried"]) {
                check(m.is::<std::num::TryFromIntError>(), "the cause is the failed try_from");
            }
        }
        2 => {
            let f: fn(&'static str) -> Result<Hexed, Error> = |s| sscanf!(s, "{Hexed}");
            let _ = f("");
            let r = f(s);
            if let Some(m) = cause(&r, &["Hexed"]) {
                check(m.downcast_ref::<std::num::ParseIntError>().is_some_and(|e| *e.kind() == std::num::IntErrorKind::PosOverflow), "the cause is the number");
            }
        }
        _ => {
            let f: fn(&'static str) -> Result<Both, Error> = |s| sscanf!(s, "{Both}");
            let _ = f("");
            let r = f(s);
            let names: &[&str] = if matches!(s.as_bytes()[0], b'0'..=b'3') && s.as_bytes()[1] == b':' { &["Both", "Filtered"] } else { &["Both"] };
            if let Some(m) = cause(&r, names) {
                let inner = names.len() == 2;
                check(m.downcast_ref::<FilterMapNoneError>().is_some_and(|e| same_bytes(e.field_name.as_bytes(), if inner { b"0" } else { b"a" })), "the cause is the first closure");
            }
        }
    }
}
/// an error of sscanf as the reason of a type
fn refuse(c: u8, first: u8) -> Result<u8, Error> {
    match c - first {
        1 => Err(Error::MatchFailed),
        2 => Err(Error::ParsingFailed(Box::new(MyError(c)))),
        _ => Ok(c),
    }
}
#[derive(Debug)]
struct Foreign(u8);
impl sscanf::RegexRepresentation for Foreign {
    const REGEX: &'static str = "[a-d]";
}
impl<'t> sscanf::FromScanf<'t> for Foreign {
    type Err = Error;
    const NUM_CAPTURES: usize = 1;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Error> {
        refuse(src.next().unwrap().unwrap().as_str().as_bytes()[0], b'a').map(Foreign)
    }
}
#[derive(Debug)]
struct Own(u8);
impl sscanf::RegexRepresentation for Own {
    const REGEX: &'static str = "[e-h]";
}
impl std::str::FromStr for Own {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        refuse(s.as_bytes()[0], b'e').map(Own)
    }
}
#[derive(sscanf::FromScanf, Debug)]
#[sscanf("{}{}")]
struct Holds(Foreign, Own);
/// types whose errors are errors of sscanf: these are causes as any other
fn foreign() {
    let (k, s) = (param(1), ascii_str(2));
    let r: Result<(u8, u8), Error> = match k {
        0 => {
            let f: fn(&'static str) -> Result<(Foreign, Own), Error> = |s| sscanf!(s, "{Foreign}{Own}");
            let _ = f("");
            f(s).map(|(a, b)| (a.0, b.0))
        }
        1 => {
            let f: fn(&'static str) -> Result<Holds, Error> = |s| sscanf!(s, "{Holds}");
            let _ = f("");
            f(s).map(|h| (h.0 .0, h.1 .0))
        }
        _ => <Holds as sscanf::FromScanf>::from_str(s).map(|h| (h.0 .0, h.1 .0)),
    };
    let (x, y) = (s.as_bytes()[0], s.as_bytes()[1]);
    let fits = x >= b'a' && x <= b'd' && y >= b'e' && y <= b'h';
    let e = match r {
        Ok((a, b)) => {
            reach("value");
            return check(fits && a == x && b == y && !matches!(x, b'b' | b'c') && !matches!(y, b'f' | b'g'), "the values of the types");
        }
        Err(Error::MatchFailed) => {
            reach("no match");
            return check(!fits, "a text that a type refuses is no failed match");
        }
        Err(Error::ParsingFailed(e)) => e,
    };
    reach("failed conversion");
    check(fits, "a failed conversion needs a match");
    let first = matches!(x, b'b' | b'c');
    check(first || matches!(y, b'f' | b'g'), "values that are accepted do not fail");
    let mut e: &(dyn std::error::Error + 'static) = &*e;
    if k > 0 {
        let Some(_) = as_derived(e, "Holds") else { return };
        e = e.source().unwrap();
    }
    if !first {
        check(e.is::<FromStrFailedError<Own>>(), "the error names the type that refused");
        let Some(c) = e.source() else { return check(false, "the error of the type is its source") };
        e = c;
    }
    let c = if first { x } else { y };
    match e.downcast_ref::<Error>() {
        None => check(false, "the cause is the error of the type"),
        Some(Error::MatchFailed) => check(c == b'b' || c == b'f', "the cause is the error that the type returned"),
        Some(i) => check(
            (c == b'c' || c == b'g') && i.source().and_then(|m| m.downcast_ref::<MyError>()).is_some_and(|m| m.0 == c),
            "the cause is the error that the type returned",
        ),
    }
}
/// numbers with radix options that do not fit their type: the cause is the error of the number
fn radix() {
    fn is_ok<T>(r: Result<T, Error>) -> Result<(), Error> {
        r.map(|_| ())
    }
    #[derive(sscanf::FromScanf, Debug)]
    #[sscanf("{:#o}")]
    struct Forced(i8);
    macro_rules! calls {
        ($(($f:literal, $start:literal, $n:literal))*) => {[$((|s| is_ok(sscanf!(s, $f)), $start, $n)),*]};
    }
    type Call = fn(&'static str) -> Result<(), Error>;
    let all: [(Call, &str, usize); 13] = calls![
        ("{u8:o}", "", 3) ("{u8:o}", "0O", 3) ("{u8:#o}", "+0o", 3) ("{u8:r36}", "", 3) ("{i8:x}", "", 3) ("{i8:x}", "-0x", 2) ("{i8:#x}", "", 4)
        ("{i8:b}", "-0b1000", 4) ("{i8:r7}", "-", 3) ("{u16:r10}", "65", 3) ("{i16:#o}", "-0o10", 4) ("{u128:o}", "4000000000000000000000000000000000000000", 3) ("{Forced}", "", 5)
    ];
    let (f, start, n) = all[param(1)];
    let _ = f("");
    let s: &'static str = Box::leak(format!("{start}{}", ascii_str(n)).into_boxed_str());
    match f(s) {
        Ok(()) => reach("value"),
        Err(Error::MatchFailed) => reach("no match"),
        Err(Error::ParsingFailed(e)) => {
            reach("failed conversion");
            let mut e: &(dyn std::error::Error + 'static) = &*e;
            if param(1) == 12 {
                let Some(_) = as_derived(e, "Forced") else { return };
                e = e.source().unwrap();
            }
            use std::num::IntErrorKind::*;
            let Some(i) = e.downcast_ref::<std::num::ParseIntError>() else { return check(false, "the cause is the error of the number") };
            let want = if s.as_bytes()[0] == b'-' { NegOverflow } else { PosOverflow };
            check(*i.kind() == want, "the number does not fit");
        }
    }
}
/// types in types in types: every level is in the chain, and the first cause at its end
fn nested() {
    let f: fn(&'static str) -> Result<Outer, Error> = |s| sscanf!(s, "{Outer}");
    let _ = f("");
    let direct = fork(2) == 1;
    let (a, b) = [("[m<", ">]"), ("[t", "]"), ("[f", "]"), ("[h0x", "]"), ("[", "]")][param(1)];
    let mid = ascii_str(if param(1) == 0 { 1 } else { 3 });
    let last = ascii_str(1);
    let s: &'static str = Box::leak(format!("{a}{mid}{b}{last}").into_boxed_str());
    let r = if direct { <Outer as sscanf::FromScanf>::from_str(s) } else { f(s) };
    let e = match &r {
        Ok(_) => {
            reach("value");
            return;
        }
        Err(Error::MatchFailed) => {
            reach("no match");
            return;
        }
        Err(Error::ParsingFailed(e)) => e,
    };
    reach("failed conversion");
    let outer = as_derived(r.as_ref().err().unwrap().source().unwrap(), "Outer");
    check(as_derived(&**e, "Outer").is_some() && outer.is_some(), "the type that was asked for is at the top");
    let Some(outer) = outer else { return };
    if let Some(p) = outer.source().unwrap().downcast_ref::<FromStrFailedError<Picky>>() {
        check(p.error == MyError(last.as_bytes()[0]), "the cause is the text of the last field");
        return;
    }
    let Some(w) = as_derived(outer.source().unwrap(), "Wrapped") else { return };
    let Some(m) = as_derived(w.source().unwrap(), "Mid") else { return };
    let m = m.source().unwrap();
    match s.as_bytes()[1] {
        b'm' => {
            let Some(i) = as_derived(m, "Inner") else { return };
            let p = i.source().unwrap().downcast_ref::<FromStrFailedError<Picky>>();
            check(p.is_some_and(|p| p.error == MyError(mid.as_bytes()[0])), "the cause is the innermost field");
        }
        b't' => check(m.is::<std::num::TryFromIntError>() || m.is::<FromStrFailedError<u16>>(), "the cause is the failed try_from"),
        b'f' => check(m.is::<FilterMapNoneError>() || m.is::<FromStrFailedError<u8>>(), "the cause is the closure"),
        b'h' => check(m.is::<FromStrFailedError<u8>>() || m.is::<std::num::ParseIntError>(), "the cause is the number"),
        _ => check(m.downcast_ref::<FromStrFailedError<i8>>().is_some_and(|p| *p.error.kind() == std::num::IntErrorKind::PosOverflow || *p.error.kind() == std::num::IntErrorKind::NegOverflow), "the cause is the number"),
    }
}

crate::harness! {
    fn c09_prog() { run(PROGS) }
    fn c09_chain() { chain() }
}
