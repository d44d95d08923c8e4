//! sscanf_get_regex! returns the regex that sscanf! uses: it matches the same texts, and group i is
//! the text of placeholder i.
use crate::prog::{K::*, P::*, *};
use crate::sym::*;
use crate::{flat, vals};
use sscanf::regex::Regex;
use sscanf::{sscanf, sscanf_get_regex, Error};

#[derive(sscanf::FromScanf)]
#[sscanf(format = "({x},{y})")]
struct Point {
    x: i8,
    y: u8,
}
#[derive(sscanf::FromScanf)]
enum Kind {
    #[sscanf("a")]
    A,
    #[sscanf("b{}")]
    B(u8),
}
crate::flat_as! { Point: |p| p.x, p.y; }
crate::flat_enum! { Kind { 0 Kind::A => [], 1 Kind::B(x) => [x], } }
const POINT: P = Sub(&[L("("), Ph(I8), L(","), Ph(U8), L(")")]);
const KIND: P = Alt(&[(0, &[L("a")]), (1, &[L("b"), Ph(U8)])]);

struct G {
    p: Prog,
    re: fn() -> &'static Regex,
    /// how many groups
    n: usize,
    /// for each value in the order of the text: its group
    groups: &'static [usize],
}

macro_rules! g {
    ($s:ident $f:tt $t:tt $r:expr, $parts:tt $any:literal $ascii:literal $w:literal, $n:literal $g:expr, $($x:expr),+) => {
        G { p: crate::p!(|$s| call!($s $f $t).map($r), $parts, $any $ascii $w, $($x),+), re: || re!($f $t), n: $n, groups: &$g }
    };
}
macro_rules! call { ($s:ident $f:tt ($($t:tt)*)) => { sscanf!($s, $f, $($t)*) } }
macro_rules! re { ($f:tt ($($t:tt)*)) => { sscanf_get_regex!($f, $($t)*) } }

static PROGS: &[G] = &[
    g!(s "{}" (u8) |a| vals![s; a], [Ph(U8)] 2 3 1, 1 [1], "255"),
    g!(s "{}-{}" (u8, i8) |(a, b)| vals![s; a, b], [Ph(U8), L("-"), Ph(I8)] 1 3 2, 2 [1, 2], "25--1"),
    g!(s "{}" (str) |a| vals![s; a], [Ph(Str)] 3 4 1, 1 [1], "a"),
    g!(s "{1}{0}" (u8, bool) |(a, b)| vals![s; a, b], [Ph(Bool), Ph(U8)] 1 3 2, 2 [1, 2], "true1"),
    g!(s "x.{str}.{char}" () |(a, b)| vals![s; a, b], [L("x."), Ph(Str), L("."), Ph(Char)] 1 3 2, 2 [1, 2], "x.a.b.c"),
    g!(s "text|more" () |_| vec![], [L("text|more")] 2 3 1, 0 [], "text|more"),
    g!(s "{u8:x}{i16:#b}" () |(a, b)| vals![s; a, b], [Ph(X8), Ph(Radix(int::<i16>(), 2, crate::model::Prefix::Required))] 0 3 2, 2 [1, 2], "0xf-0b11", "10b1"),
    g!(s "{str:/[a-c]+|x/}{}" (String) |(a, b)| vals![s; a, b], [Ph(Custom(
            |s, p| { let mut v = runs_of(s, p, 99, |c| c >= b'a' && c <= b'c'); v.reverse(); v.extend(runs_of(s, p, 1, |c| c == b'x')); v },
            |_, a, b| Some(Val::Slice(a, b - a)))), Ph(Owned)] 2 4 2, 2 [1, 2], "abcd"),
    // groups of the fields come after the group of the whole
    g!(s "{Point}{u8}" () |(a, b)| { let mut o = vec![]; (a, b).flat(s, &mut o); o }, [POINT, Ph(U8)] 0 3 2, 4 [2, 3, 4], "(-1,2)3"),
    g!(s "{u8}{Kind}{Point}" () |x| { let mut o = vec![]; x.flat(s, &mut o); o }, [Ph(U8), KIND, POINT] 0 3 2, 8 [1, 5, 7, 8], "1b2(3,4)", "1a(3,4)"),
    g!(s "{}.{}.{}" (u8, char, u8) |(a, b, c)| vals![s; a, b, c], [Ph(U8), L("."), Ph(Char), L("."), Ph(U8)] 0 4 2, 3 [1, 2, 3], "1.x.25"),
    g!(s "{2}{}-{}{}{}{1}" (char, u8, char, bool) |(a, b, c, d, e, f)| vals![s; a, b, c, d, e, f], [Ph(Char), Ph(Char), L("-"), Ph(U8), Ph(Char), Ph(Bool), Ph(U8)] 0 0 1, 6 [1, 2, 3, 4, 5, 6], "xy-1ztrue3"),
    g!(s "{}{}{}{}{}{}" (char, char, char, char, char, str) |(a, b, c, d, e, f)| vals![s; a, b, c, d, e, f], [Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Str)] 0 7 1, 6 [1, 2, 3, 4, 5, 6], "abcdefg"),
    g!(s "a long text without any placeholder but with {{ and }}." () |_| vec![], [L("a long text without any placeholder but with { and }.")] 0 0 1, 0 [], "a long text without any placeholder but with { and }."),
    g!(s "" () |_| vec![], [] 2 3 1, 0 [], ""),
];

fn go_on(g: &G, s: &'static str) {
    let r = (g.p.run)(s);
    judge(&r, &reference(g.p.parts, s));
    let re = (g.re)();
    check(std::ptr::eq(re, (g.re)()), "the regex is the same object every time");
    check(re.captures_len() == g.n + 1, "the number of groups");
    let caps = re.captures(s);
    check(caps.is_some() != matches!(r, Err(Error::MatchFailed)), "the regex matches exactly the texts that sscanf! matches");
    let mut ev = vec![];
    let b = s.as_bytes();
    if go(g.p.parts, b, 0, &mut ev, &mut |p, _| p == b.len()) {
        let Some(c) = caps else { return };
        let w = c.get(0).unwrap();
        check(w.start() == 0 && w.end() == s.len(), "the regex matches the whole text");
        let mut i = 0;
        // the group of an alternative that was not taken is empty
        let skip = ev.iter().any(|e| matches!(e, Ev::Var(0)));
        for e in ev {
            if let Ev::Piece(_, _, x, y) = e {
                let n = g.groups[if skip && i >= 1 { i + 1 } else { i }];
                let m = c.get(n);
                check(m.is_some(), "the group of a placeholder takes part");
                if let Some(m) = m {
                    check(m.start() == x && m.end() == y, "group i is the text of placeholder i");
                }
                i += 1;
            }
        }
        reach("groups");
    }
}
fn run_g() {
    let g = &PROGS[param(0)];
    go_on(g, g.p.templates[0]);
    let s = input(&g.p, param(1));
    go_on(g, s);
}
/// without sscanf! at the same place
fn alone() {
    let re = sscanf_get_regex!("{u8}|{}", char);
    let s = ascii_str(3);
    let b = s.as_bytes();
    let want = b[0].is_ascii_digit() && b[1] == b'|' && b[2] != b'\n';
    check(re.is_match(s) == want, "the regex matches the texts that the format describes");
    let _ = flat!(s, sscanf!(s, "{Point}"));
}

crate::harness! {
    fn c11_prog() { run_g() }
    fn c11_alone() { alone() }
}
