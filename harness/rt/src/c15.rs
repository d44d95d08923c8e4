//! Texts, characters, bools: what they match, what they borrow; and every kind of input.
use crate::prog::{K::*, P::*, *};
use crate::sym::*;
use crate::{flat, p, vals};
use sscanf::{sscanf, sscanf_unescaped};
use std::borrow::Cow;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;

/// Some(...): the result outlives everything but the text itself
fn keep(s: &'static str) -> Option<(&'static str, Cow<'static, str>)> {
    sscanf!(s, "{}={}", &str, Cow<str>).ok()
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{}:{}:{}:{}")]
struct Borrows<'a, 'b>(&'a str, Cow<'b, str>, String, std::borrow::Cow<'a, str>);
crate::flat_as! { Borrows<'_, '_>: |b| b.0, b.1, b.2, b.3; }

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{char}")), [Ph(Char)], 5 5 1, "é"),
    p!(|s| flat!(s, sscanf!(s, "{bool}")), [Ph(Bool)], 3 5 3, "true", "false"),
    p!(|s| flat!(s, sscanf!(s, "{str}")), [Ph(Str)], 5 6 2, "é\u{10ffff}b"),
    p!(|s| flat!(s, sscanf!(s, "{}", &str)), [Ph(Str)], 4 5 2, "éb"),
    p!(|s| flat!(s, sscanf!(s, "{String}")), [Ph(Owned)], 5 6 2, "éb"),
    p!(|s| flat!(s, sscanf!(s, "{}", std::string::String)), [Ph(Owned)], 3 5 2, "éb"),
    p!(|s| flat!(s, sscanf!(s, "{PathBuf}")), [Ph(Path)], 5 6 2, "/a/é"),
    p!(|s| flat!(s, sscanf!(s, "{std::path::PathBuf}.{}", str)), [Ph(Path), L("."), Ph(Str)], 4 5 2, "/a/.b.c"),
    p!(|s| flat!(s, sscanf!(s, "{Cow<str>}")), [Ph(Str)], 4 5 2, "éb"),
    p!(|s| flat!(s, sscanf!(s, "{std::borrow::Cow<str>}{::std::primitive::str}{&str}{borrow::Cow<'_, str>}")), [Ph(Str), Ph(Str), Ph(Str), Ph(Str)], 4 6 2, "abcdé"),
    p!(|s| flat!(s, sscanf!(s, "{str}/{String}")), [Ph(Str), L("/"), Ph(Owned)], 4 6 2, "a/b/c"),
    p!(|s| flat!(s, sscanf!(s, "{PathBuf}/{String}")), [Ph(Path), L("/"), Ph(Owned)], 4 6 2, "a/b/c"),
    p!(|s| flat!(s, sscanf!(s, "{char}{str}{char}")), [Ph(Char), Ph(Str), Ph(Char)], 5 6 2, "aéb"),
    p!(|s| flat!(s, sscanf!(s, "{str}{PathBuf}{bool}")), [Ph(Str), Ph(Path), Ph(Bool)], 0 5 2, "abtrue", "xtruefalse"),
    p!(|s| flat!(s, sscanf!(s, "<{Borrows}>")), [L("<"), Ph(Str), L(":"), Ph(Str), L(":"), Ph(Owned), L(":"), Ph(Str), L(">")], 0 3 2, "<a:é:c:d>", "<a:b:c:d:e:f>"),
    p!(|s| {
        let r = keep(s);
        check(r.is_some() == sscanf!(s, "{str}={str}").is_ok(), "the same texts match for all kinds of texts");
        match r {
            Some((a, b)) => Ok(vals![s; a, b]),
            None => Err(sscanf::Error::MatchFailed),
        }
    }, [Ph(Str), L("="), Ph(Str)], 4 5 2, "a=b"),
];

/// a user's type that is a text
struct Text(&'static str);
impl std::ops::Deref for Text {
    type Target = str;
    fn deref(&self) -> &str {
        self.0
    }
}
type Got = Result<(u8, String, usize), sscanf::Error>;
/// what every kind of input has to give
fn want(s: &'static str) -> Result<(u8, usize), bool> {
    match reference(&[Ph(U8), L(" "), Ph(Str)], s) {
        Outcome::Values(v) => match (&v[0], &v[1]) {
            (Val::Int(_, n), Val::Slice(a, _)) => Ok((*n as u8, *a)),
            _ => Err(true),
        },
        Outcome::Failed => Err(true),
        Outcome::NoMatch => Err(false),
    }
}
/// `off`: where the borrowed part lies in the text of the input
macro_rules! input_kind {
    ($base:expr, $e:expr) => {{
        let base: *const u8 = $base;
        let r: Result<(u8, &str), sscanf::Error> = sscanf!($e, "{u8} {str}");
        r.map(|(a, b)| (a, b.to_string(), b.as_ptr() as usize - base as usize))
    }};
}
fn kinds() {
    let w = if param(0) == 0 { fork(4) } else { 4 };
    let s = if w < 3 { any_str(w + 2) } else if w == 3 { ascii_str(5) } else { "12 é b" };
    let k = if param(0) == 0 { param(1) } else { fork(20) };
    let r: Got = match k {
        0 => input_kind!(s.as_ptr(), s),
        1 => { let x = String::from(s); let r = input_kind!(x.as_ptr(), x); check(same_bytes(x.as_bytes(), s.as_bytes()), "the input is not consumed"); r }
        2 => { let x = String::from(s); let y = &x; input_kind!(x.as_ptr(), y) }
        3 => { let x = String::from(s); input_kind!(x.as_ptr(), &x) }
        4 => { let x = &s; input_kind!(s.as_ptr(), x) }
        5 => { let x = &&s; input_kind!(s.as_ptr(), x) }
        6 => { let x: Cow<str> = Cow::Borrowed(s); let r = input_kind!(s.as_ptr(), x); check(matches!(x, Cow::Borrowed(_)), "the input is not changed"); r }
        7 => { let x: Cow<str> = Cow::Owned(s.to_string()); input_kind!(x.as_ptr(), x) }
        8 => { let x: Rc<str> = Rc::from(s); let r = input_kind!(x.as_ptr(), x); check(Rc::strong_count(&x) == 1, "the input is not kept"); r }
        9 => { let x: Arc<str> = Arc::from(s); input_kind!(x.as_ptr(), x) }
        10 => { let x: Box<str> = Box::from(s); input_kind!(x.as_ptr(), x) }
        11 => { let mut x = String::from(s); let p = x.as_ptr(); let y = &mut x; input_kind!(p, y) }
        12 => { let x = Text(s); input_kind!(s.as_ptr(), x) }
        13 => { let x = Rc::new(String::from(s)); input_kind!(x.as_ptr(), x) }
        14 => input_kind!(s.as_ptr(), Text(s).0),
        15 => input_kind!(s.as_ptr(), if s.is_empty() { "" } else { s }),
        16 => { let x = (1, s); input_kind!(s.as_ptr(), x.1) }
        17 => { let x = [s, "1 a"]; input_kind!(s.as_ptr(), x[0]) }
        18 => { let x = String::from(s); input_kind!(x.as_ptr(), x.as_str()) }
        _ => { let x = format!("0{}0", s); let n = x.len(); input_kind!(unsafe { x.as_ptr().add(1) }, x[1..n - 1]) }
    };
    match (r, want(s)) {
        (Ok((a, b, off)), Ok((c, o))) => {
            reach("value");
            check(a == c && off == o && same_bytes(b.as_bytes(), &s.as_bytes()[o..]), "every kind of input gives the same, borrowed from the input");
        }
        (Err(sscanf::Error::MatchFailed), Err(false)) => reach("no match"),
        (Err(sscanf::Error::ParsingFailed(_)), Err(true)) => reach("failed conversion"),
        _ => check(false, "every kind of input is judged by its text"),
    }
}
/// The input is evaluated once, whatever the outcome.
fn once() {
    let n = fork(4);
    let s = ascii_str(n);
    let mut count = 0;
    let r = sscanf!({ count += 1; s }, "{u8}{char}").is_ok();
    check(count == 1, "the input is evaluated once");
    let _ = sscanf_unescaped!({ count += 1; s }, "a*");
    check(count == 2, "the input is evaluated once");
    if r { reach("value") } else { reach("no match") }
    // the names of the user and of the macro do not mix
    let input = s;
    let src = 1u8;
    let cap = 2u8;
    let regex = 3u8;
    let res = 4u8;
    let matcher = 5u8;
    let REGEX = 6u8;
    let a = sscanf!(input, "{u8}{char}").is_ok();
    check(a == r && src + cap + regex + res + matcher + REGEX == 21, "the names of the user keep their meaning");
    fn inner(x: &str) -> Result<u8, sscanf::Error> {
        let x = sscanf!(x, "{u8}")?;
        Ok(x)
    }
    check(inner("12").ok() == Some(12), "the result can be used with ?");
    // one inside of the other
    let y: Result<u8, _> = sscanf!(match sscanf!(s, "{str}{char}") { Ok((x, _)) => x, Err(_) => "9" }, "{u8}");
    let b = s.as_bytes();
    let want = if n < 2 || b[..n].contains(&b'\n') { Some(9) } else {
        match reference(&[Ph(U8)], &s[..n - 1]) { Outcome::Values(v) => match v[0] { Val::Int(_, m) => Some(m as u8), _ => None }, _ => None }
    };
    check(y.ok() == want, "one call can be the input of another");
}

/// long texts: one character is any ASCII character
fn long() {
    let n = param(0);
    let mut b = vec![b'a'; n];
    b.extend_from_slice("é-ö".as_bytes());
    b.extend_from_slice(&vec![b'b'; n]);
    // in the first part, the one between, in the second part
    let at = [n / 2, n + 2, n + 5 + n / 2, b.len() - 1][fork(4)];
    let c = bytes::<1>()[0];
    assume(c < 128);
    b[at] = c;
    let s: &'static str = unsafe { std::str::from_utf8_unchecked(Vec::leak(b)) };
    let dash = if c == b'-' { at.min(n + 2) } else { n + 2 };
    let last = if c == b'-' { at.max(n + 2) } else { n + 2 };
    let fits = c != b'\n' && (at != n + 2 || c == b'-') && dash + 1 < s.len();
    reach(if fits { "value" } else { "no match" });
    let is = |t: &str, from: usize, to: usize| t.as_ptr() == s[from..].as_ptr() && t.len() == to - from;
    match sscanf!(s, "{}-{}", &str, Cow<str>) {
        Ok((x, Cow::Borrowed(y))) => check(fits && is(x, 0, dash) && is(y, dash + 1, s.len()), "the texts are the parts of the input"),
        Ok(_) => check(false, "a Cow<str> borrows"),
        Err(_) => check(!fits, "a long text is accepted"),
    }
    let fits = c != b'\n' && (at != n + 2 || c == b'-') && last + 1 < s.len() || c == b'-' && at == s.len() - 1;
    // the last character belongs to the second text
    let last = if last + 1 == s.len() { n + 2 } else { last };
    match sscanf!(s, "{PathBuf}-{String}") {
        Ok((x, y)) => check(fits && x.to_str() == Some(&s[..last]) && y == s[last + 1..], "the texts are the parts of the input"),
        Err(_) => check(!fits, "a long text is accepted"),
    }
    // a derived type at the end
    match sscanf!(s, "{str}-{Tail}") {
        Ok((x, y)) => check(dash + 1 < s.len() && is(x, 0, dash) && is(y.0, dash + 1, s.len() - 1) && y.1 == c_at(s), "the texts are the parts of the input"),
        Err(_) => check(c == b'\n' || at == n + 2 && c != b'-', "a long text is accepted"),
    }
}
fn c_at(s: &str) -> char {
    s.as_bytes()[s.len() - 1] as char
}
#[derive(sscanf::FromScanf)]
#[sscanf("{}{}")]
struct Tail<'a>(&'a str, char);

crate::harness! {
    fn c15_long() { long() }
    fn c15_prog() { run(PROGS) }
    fn c15_kinds() { kinds() }
    fn c15_once() { once() }
}
