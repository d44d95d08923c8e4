//! sscanf_unescaped! and format_unescaped: text outside of placeholders is a regex.
use crate::prog::{K::*, P::*, *};
use crate::{flat, p};
use sscanf::{sscanf, sscanf_unescaped};

#[derive(sscanf::FromScanf)]
#[sscanf(format_unescaped = r"p[\s&&[:ascii:]]*=[\s&&[:ascii:]]*{x};{{0,2}}")]
struct Named {
    x: u8,
}
/// a raw literal without `format =`
#[derive(sscanf::FromScanf)]
#[sscanf(r"[vV]{}\.{}")]
struct Version(u8, u16);
#[derive(sscanf::FromScanf)]
enum E {
    #[sscanf(format_unescaped = "a.c{}")]
    A(char),
    #[sscanf(r"(?:b|bb){}")]
    B(char),
    #[sscanf("a.c{}{}")]
    C(char, char),
    #[sscanf(r"x?y?")]
    D,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format_unescaped = "x|y")]
struct Alt2;
crate::flat_as! {
    Named: |n| n.x;
    Version: |v| v.0, v.1;
    Alt2: |_| ;
}
crate::flat_enum! { E { 0 E::A(c) => [c], 1 E::B(c) => [c], 2 E::C(c, d) => [c, d], 3 E::D => [], } }

/// * of something, greedy
fn star(s: &[u8], p: usize, f: fn(u8) -> bool) -> Vec<usize> {
    let mut v = runs_of(s, p, 99, f);
    v.reverse();
    v.push(p);
    v
}
/// + of something, greedy
fn plus(s: &[u8], p: usize, f: fn(u8) -> bool) -> Vec<usize> {
    let mut v = runs_of(s, p, 99, f);
    v.reverse();
    v
}
fn up_to(s: &[u8], p: usize, n: usize, f: fn(u8) -> bool) -> Vec<usize> {
    let mut v = runs_of(s, p, n, f);
    v.reverse();
    v.push(p);
    v
}
fn one(s: &[u8], p: usize, f: fn(u8) -> bool) -> Vec<usize> {
    runs_of(s, p, 1, f)
}
/// .*
fn any_star(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = runs(s, p);
    v.reverse();
    v.push(p);
    v
}
/// .*?
fn any_lazy(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = runs(s, p);
    v.insert(0, p);
    v
}
fn any_one(s: &[u8], p: usize) -> Vec<usize> {
    runs(s, p).into_iter().take(1).collect()
}
/// \s, of ASCII
fn space(c: u8) -> bool {
    c == b' ' || (c >= 9 && c <= 13)
}

static PROGS: &[Prog] = &[
    p!(|s| sscanf_unescaped!(s, "{u8}.*?{u16}").map(|(a, b)| crate::vals![s; a, b]), [Ph(U8), Re(any_lazy), Ph(U16)], 2 4 2, "5aa3", "5.0 300"),
    p!(|s| sscanf_unescaped!(s, "{u8}.*{u16}").map(|(a, b)| crate::vals![s; a, b]), [Ph(U8), Re(any_star), Ph(U16)], 2 4 2, "5aa3", "5.0 300"),
    // a top-level alternative belongs to the whole format
    p!(|s| sscanf_unescaped!(s, "a|bc").map(|_| vec![]), [Re(|s, p| { let mut v = one(s, p, |c| c == b'a'); if lit(s, p, b"bc") { v.push(p + 2) } v })], 3 5 2, "a", "bc"),
    p!(|s| sscanf_unescaped!(s, "[ab]+{}c?", str).map(|a| vec![a.val(s)]), [Re(|s, p| plus(s, p, |c| c == b'a' || c == b'b')), Ph(Str), Re(|s, p| up_to(s, p, 1, |c| c == b'c'))], 3 5 2, "abacc", "aé"),
    p!(|s| sscanf_unescaped!(s, r"x{{2}}{}y{{1,2}}", u8).map(|a| vec![a.val(s)]), [L("xx"), Ph(U8), L("y"), Re(|s, p| up_to(s, p, 1, |c| c == b'y'))], 1 4 2, "xx1yy", "xx1y"),
    p!(|s| sscanf_unescaped!(s, r"\{{{}\}}", u8).map(|a| vec![a.val(s)]), [L("{"), Ph(U8), L("}")], 2 4 2, "{1}"),
    p!(|s| sscanf_unescaped!(s, r"^{}$", u8).map(|a| vec![a.val(s)]), [Ph(U8)], 2 4 2, "12"),
    p!(|s| sscanf_unescaped!(s, "\\.{}\\t\t\u{e9}", char).map(|a| vec![a.val(s)]), [L("."), Ph(Char), L("\t\té")], 2 4 2, ".x\t\té"),
    p!(|s| flat!(s, sscanf!(s, "{Named}")), [L("p"), Re(|s, p| star(s, p, space)), L("="), Re(|s, p| star(s, p, space)), Ph(U8), L(""), Re(|s, p| up_to(s, p, 2, |c| c == b';'))], 0 4 2, "p = 1;", "p=12;;"),
    p!(|s| flat!(s, sscanf!(s, "{Version}.{Version}")), [Re(|s, p| one(s, p, |c| c == b'v' || c == b'V')), Ph(U8), L("."), Ph(U16), L("."), Re(|s, p| one(s, p, |c| c == b'v' || c == b'V')), Ph(U8), L("."), Ph(U16)], 0 3 2, "v1.2.V3.4"),
    p!(|s| flat!(s, sscanf!(s, "{E}{u8}")), [Alt(&[
            (0, &[L("a"), Re(any_one), L("c"), Ph(Char)]),
            (1, &[Re(|s, p| if lit(s, p, b"bb") { vec![p + 1, p + 2] } else if lit(s, p, b"b") { vec![p + 1] } else { vec![] }), Ph(Char)]),
            (2, &[L("a.c"), Ph(Char), Ph(Char)]),
            (3, &[Re(|s, p| up_to(s, p, 1, |c| c == b'x')), Re(|s, p| up_to(s, p, 1, |c| c == b'y'))]),
        ]), Ph(U8)], 2 4 2, "a.cx1", "bbx1", "a.cxy1", "xy1", "1"),
    p!(|s| flat!(s, sscanf!(s, "{Alt2}{Alt2}|{u8}")), [Re(|s, p| one(s, p, |c| c == b'x' || c == b'y')), Re(|s, p| one(s, p, |c| c == b'x' || c == b'y')), L("|"), Ph(U8)], 1 5 2, "xy|1"),
    p!(|s| sscanf_unescaped!(s, "(?i)ab{char}K(?-i)k").map(|a| vec![a.val(s)]), [
        Re(|s, p| one(s, p, |c| c | 32 == b'a')), Re(|s, p| one(s, p, |c| c | 32 == b'b')), Ph(Char),
        Re(|s, p| { let mut v = one(s, p, |c| c | 32 == b'k'); if lit(s, p, "\u{212a}".as_bytes()) { v.push(p + 3) } v }), L("k")], 2 5 2, "aBxKk", "ABékk"),
    p!(|s| sscanf_unescaped!(s, "").map(|_| vec![]), [], 3 3 1, ""),
];

crate::harness! {
    fn c12_prog() { run(PROGS) }
}
