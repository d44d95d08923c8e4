//! Derived types inside of derived types: every level takes exactly its own captures.
use crate::prog::{K::*, P::*, *};
use crate::{flat, p};
use sscanf::sscanf;

#[derive(sscanf::FromScanf)]
#[sscanf(format = "({x},{y})")]
struct Point {
    x: i8,
    y: u8,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{to}<{from}")]
struct Line {
    from: Point,
    to: Point,
}
#[derive(sscanf::FromScanf)]
enum Shape {
    #[sscanf("dot {}")]
    Dot(Point),
    #[sscanf("line {line}{flag}")]
    Line { flag: bool, line: Line },
    #[sscanf("none")]
    None,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{id}:{shape};{rest}")]
struct Item<'a> {
    rest: &'a str,
    shape: Shape,
    id: u8,
}
#[derive(sscanf::FromScanf)]
enum Tree {
    #[sscanf("[{}]")]
    Leaf(char),
    #[sscanf("{{{a}|{b}}}")]
    Pair { a: Inner, b: Name },
    #[sscanf(transparent)]
    Inner(Inner),
}
#[derive(sscanf::FromScanf)]
enum Inner {
    #[sscanf("i{}")]
    I(u8),
    #[sscanf("j{1}{0}")]
    J(char, char),
    #[sscanf("k")]
    K,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{first}.{last}")]
struct Name {
    last: String,
    first: String,
}
/// more than nine captures
#[derive(sscanf::FromScanf)]
#[sscanf("{9}{8}{7}{6}{5}{4}{3}{2}{1}{0}")]
struct Ten(char, char, char, char, char, char, char, char, char, char);
#[derive(sscanf::FromScanf)]
enum Tens {
    #[sscanf("<{}>{}")]
    Two(Ten, Ten),
    #[sscanf("({}")]
    One(Ten),
    #[sscanf("_")]
    Zero,
}
#[derive(sscanf::FromScanf)]
#[sscanf(transparent)]
struct Wrap(Inner);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{0}+{1}+{2}")]
struct Three(Wrap, Inner, Wrap);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{b}{a}")]
struct Conv {
    #[sscanf(map = |p: Point| p.y)]
    a: u8,
    #[sscanf(filter_map = |i: Inner| match i { Inner::I(x) => Some(x), _ => None })]
    b: u8,
    #[sscanf(default = 9)]
    c: u8,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{}{}")]
struct Unit2(Unit, Unit);
#[derive(sscanf::FromScanf)]
#[sscanf(format = "u")]
struct Unit;
#[derive(sscanf::FromScanf)]
enum Empty {
    #[sscanf("<{}>")]
    Full(u8),
    #[sscanf("{:/x*/}{:/y*/}")]
    Runs(String, String),
}
#[derive(sscanf::FromScanf)]
enum Nothing {
    #[sscanf("n")]
    N,
    #[sscanf("")]
    Nothing,
}
#[derive(sscanf::FromScanf)]
#[sscanf("{b}{a}{c}")]
struct Holder {
    a: Empty,
    b: Nothing,
    c: u8,
}
#[derive(sscanf::FromScanf)]
enum Outer {
    #[sscanf("o{}{}")]
    O(Empty, Nothing),
    #[sscanf("{}/{}")]
    P(Holder, Empty),
    #[sscanf("{0}")]
    Q(Nothing),
}
#[derive(sscanf::FromScanf)]
#[sscanf("{}")]
struct L1(Nothing);
#[derive(sscanf::FromScanf)]
#[sscanf("[{}]{}")]
struct L2(L1, Empty);
#[derive(sscanf::FromScanf)]
#[sscanf("{1}{0}")]
struct L3(L2, L1);
#[derive(sscanf::FromScanf)]
#[sscanf("{}+{}")]
struct L4(L3, L3);
/// implemented by hand, with groups of its own
struct Manual(u8, u8);
impl sscanf::RegexRepresentation for Manual {
    const REGEX: &'static str = r"([0-9])x([0-9])";
}
impl sscanf::FromScanf<'_> for Manual {
    type Err = std::convert::Infallible;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches) -> Result<Self, Self::Err> {
        let _ = src.next().unwrap().unwrap();
        let a = src.next().unwrap().unwrap().as_str().as_bytes()[0] - b'0';
        let b = src.next().unwrap().unwrap().as_str().as_bytes()[0] - b'0';
        Ok(Manual(a, b))
    }
}
#[derive(sscanf::FromScanf)]
enum WithManual {
    #[sscanf("a{}{}")]
    A(Manual, u8),
    #[sscanf("b{m}{}{}")]
    B { c: char, m: Manual, d: char },
}

crate::flat_as! {
    Ten: |x| x.9, x.8, x.7, x.6, x.5, x.4, x.3, x.2, x.1, x.0;
    Point: |p| p.x, p.y;
    Line: |l| l.to, l.from;
    Item<'_>: |i| i.id, i.shape, i.rest;
    Name: |n| n.first, n.last;
    Wrap: |w| w.0;
    Three: |t| t.0, t.1, t.2;
    Conv: |c| c.b, c.a, c.c;
    Unit2: |u| u.0, u.1;
    Unit: |_| ;
    Manual: |m| m.0, m.1;
    Holder: |h| h.b, h.a, h.c;
    L1: |l| l.0;
    L2: |l| l.0, l.1;
    L3: |l| l.1, l.0;
    L4: |l| l.0, l.1;
}
crate::flat_enum! {
    Tens { 0 Tens::Two(a, b) => [a, b], 1 Tens::One(a) => [a], 2 Tens::Zero => [], }
    Shape { 0 Shape::Dot(p) => [p], 1 Shape::Line { flag, line } => [line, flag], 2 Shape::None => [], }
    Tree { 0 Tree::Leaf(c) => [c], 1 Tree::Pair { a, b } => [a, b], 2 Tree::Inner(i) => [i], }
    Inner { 0 Inner::I(x) => [x], 1 Inner::J(a, b) => [b, a], 2 Inner::K => [], }
    Empty { 0 Empty::Full(x) => [x], 1 Empty::Runs(a, b) => [a, b], }
    Nothing { 0 Nothing::N => [], 1 Nothing::Nothing => [], }
    Outer { 0 Outer::O(a, b) => [a, b], 1 Outer::P(a, b) => [a, b], 2 Outer::Q(a) => [a], }
    WithManual { 0 WithManual::A(m, x) => [m, x], 1 WithManual::B { c, m, d } => [m, c, d], }
}

const TENS: P = Alt(&[(0, &[L("<"), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), L(">"), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char)]), (1, &[L("("), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char)]), (2, &[L("_")])]);
const POINT: P = Sub(&[L("("), Ph(I8), L(","), Ph(U8), L(")")]);
const LINE: P = Sub(&[POINT, L("<"), POINT]);
const SHAPE: P = Alt(&[(0, &[L("dot "), POINT]), (1, &[L("line "), LINE, Ph(Bool)]), (2, &[L("none")])]);
const ITEM: P = Sub(&[Ph(U8), L(":"), SHAPE, L(";"), Ph(Str)]);
const INNER: P = Alt(&[(0, &[L("i"), Ph(U8)]), (1, &[L("j"), Ph(Char), Ph(Char)]), (2, &[L("k")])]);
const NAME: P = Sub(&[Ph(Owned), L("."), Ph(Owned)]);
const TREE: P = Alt(&[(0, &[L("["), Ph(Char), L("]")]), (1, &[L("{"), INNER, L("|"), NAME, L("}")]), (2, &[INNER])]);
const MANUAL: P = Ph(Custom(
    |s, p| if p + 3 <= s.len() && s[p].is_ascii_digit() && s[p + 1] == b'x' && s[p + 2].is_ascii_digit() { vec![p + 3] } else { vec![] },
    |s, a, _| { let b = s.as_bytes(); Some(Val::Int(false, (b[a] - b'0') as u128 * 16 + (b[a + 2] - b'0') as u128)) },
));

fn y_of(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut out = vec![];
    // a point: keep its end only
    go(&[POINT], s, p, &mut v, &mut |e, _| { out.push(e); false });
    out
}
fn y_val(s: &'static str, a: usize, b: usize) -> Option<Val> {
    let t = &s.as_bytes()[a..b];
    let comma = t.iter().position(|c| *c == b',').unwrap();
    I8.value(s, a + 1, a + comma)?;
    U8.value(s, a + comma + 1, b - 1)
}
fn inner_of(s: &[u8], p: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut out = vec![];
    go(&[INNER], s, p, &mut v, &mut |e, _| { out.push(e); false });
    out
}
fn inner_val(s: &'static str, a: usize, b: usize) -> Option<Val> {
    if s.as_bytes()[a] == b'i' { U8.value(s, a + 1, b) } else { None }
}

fn star(s: &[u8], p: usize, c: u8) -> Vec<usize> {
    let mut v = runs_of(s, p, usize::MAX, |x| x == c);
    v.reverse();
    v.push(p);
    v
}
fn text(s: &'static str, a: usize, b: usize) -> Option<Val> {
    Some(Val::Text(s.as_bytes()[a..b].to_vec()))
}
const XS: K = Custom(|s, p| star(s, p, b'x'), text);
const YS: K = Custom(|s, p| star(s, p, b'y'), text);
const EMPTY: P = Alt(&[(0, &[L("<"), Ph(U8), L(">")]), (1, &[Ph(XS), Ph(YS)])]);
const NOTHING: P = Alt(&[(0, &[L("n")]), (1, &[])]);
const HOLDER: P = Sub(&[NOTHING, EMPTY, Ph(U8)]);
const OUTER: P = Alt(&[(0, &[L("o"), EMPTY, NOTHING]), (1, &[HOLDER, L("/"), EMPTY]), (2, &[NOTHING])]);
const LEVEL2: P = Sub(&[L("["), NOTHING, L("]"), EMPTY]);
const LEVEL3: P = Sub(&[NOTHING, LEVEL2]);

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{Line}")), [LINE], 0 3 2, "(-1,2)<(3,4)"),
    p!(|s| flat!(s, sscanf!(s, "{Shape}")), [SHAPE], 0 3 2, "line (-1,2)<(3,4)true", "dot (5,6)", "none"),
    p!(|s| flat!(s, sscanf!(s, "{Item}")), [ITEM], 0 3 2, "7:dot (1,2);x;y", "8:none;é", "9:line (1,2)<(3,4)false; "),
    p!(|s| flat!(s, sscanf!(s, "{Item}/{Point}", )), [ITEM, L("/"), POINT], 0 0 2, "7:none;x/(1,2)", "7:dot (1,2);x/(3,4)"),
    p!(|s| flat!(s, sscanf!(s, "{u8}{Shape}{char}{Shape}", )), [Ph(U8), SHAPE, Ph(Char), SHAPE], 0 0 2, "1none;dot (1,2)", "1line (1,2)<(3,4)true;none"),
    p!(|s| flat!(s, sscanf!(s, "{Tree}")), [TREE], 2 4 2, "[x]", "{i1|a.b}", "jxy", "{k|.a.b}"),
    p!(|s| flat!(s, sscanf!(s, "{Tree}{Inner}{u8}")), [TREE, INNER, Ph(U8)], 0 4 2, "kk1", "{jab|c.d}i12"),
    p!(|s| flat!(s, sscanf!(s, "{Three}")), [INNER, L("+"), INNER, L("+"), INNER], 0 0 2, "i1+jab+k", "k+k+jab", "j++++j+-"),
    p!(|s| flat!(s, sscanf!(s, "{Conv}{}", u8)), [Ph(Custom(inner_of, inner_val)), Ph(Custom(y_of, y_val)), C(|| Val::Int(false, 9)), Ph(U8)], 0 0 2, "i1(2,3)4", "jab(2,3)4", "k(2,3)4"),
    p!(|s| flat!(s, sscanf!(s, "{Unit2}{u8}")), [L("uu"), Ph(U8)], 2 4 2, "uu1"),
    p!(|s| flat!(s, sscanf!(s, "{Wrap}{Three}{Wrap}")), [INNER, INNER, L("+"), INNER, L("+"), INNER, INNER], 0 0 2, "ki1+jab+ki2"),
    p!(|s| flat!(s, sscanf!(s, "{Holder}")), [HOLDER], 1 4 2, "1", "nxxy2", "<3>4"),
    p!(|s| flat!(s, sscanf!(s, "{Outer}")), [OUTER], 2 4 2, "o", "", "n1/", "ox<2>", "oxyn", "<1>2/xy"),
    p!(|s| flat!(s, sscanf!(s, "{Outer}{Empty}{char}")), [OUTER, EMPTY, Ph(Char)], 1 4 2, "on-", "-", "1/xy"),
    p!(|s| flat!(s, sscanf!(s, "{L4}{Nothing}")), [LEVEL3, L("+"), LEVEL3, NOTHING], 0 3 2, "[]+[]", "n[n]<1>+n[]xyn"),
    p!(|s| flat!(s, sscanf!(s, "{Ten}{u8}{Ten}")), [Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(U8), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char)], 0 0 1, "abcdefghij12klmnopqrst"),
    p!(|s| flat!(s, sscanf!(s, "{Tens}{char}{Tens}")), [TENS, Ph(Char), TENS], 0 0 1, "_x_", "(abcdefghijx_", "_x<abcdefghij>0123456789"),
];
static MANUAL_PROGS: &[Prog] = &[
    p!(|s| sscanf!(s, "{Manual}").map(|m| vec![pack(m)]), [MANUAL], 2 4 3, "1x2"),
    p!(|s| sscanf!(s, "{Manual}-{u8}-{Manual}").map(|(a, b, c)| vec![pack(a), Val::Int(false, b as u128), pack(c)]), [MANUAL, L("-"), Ph(U8), L("-"), MANUAL], 0 3 2, "1x2-3-4x5"),
    p!(|s| sscanf!(s, "{WithManual}").map(|w| match w {
        WithManual::A(m, x) => vec![Val::Var(0), pack(m), Val::Int(false, x as u128)],
        WithManual::B { c, m, d } => vec![Val::Var(1), pack(m), Val::Char(c as u32), Val::Char(d as u32)],
    }), [Alt(&[(0, &[L("a"), MANUAL, Ph(U8)]), (1, &[L("b"), MANUAL, Ph(Char), Ph(Char)])])], 0 4 2, "a1x23", "b1x2cd"),
    p!(|s| sscanf!(s, "{WithManual}{u8}{Manual}").map(|(w, u, m)| {
        let mut v = match w {
            WithManual::A(m, x) => vec![Val::Var(0), pack(m), Val::Int(false, x as u128)],
            WithManual::B { c, m, d } => vec![Val::Var(1), pack(m), Val::Char(c as u32), Val::Char(d as u32)],
        };
        v.push(Val::Int(false, u as u128));
        v.push(pack(m));
        v
    }), [Alt(&[(0, &[L("a"), MANUAL, Ph(U8)]), (1, &[L("b"), MANUAL, Ph(Char), Ph(Char)])]), Ph(U8), MANUAL], 0 0 2, "a1x2345x6", "b1x2cd34x5"),
];
fn pack(m: Manual) -> Val {
    Val::Int(false, m.0 as u128 * 16 + m.1 as u128)
}

crate::harness! {
    fn c07_prog() { run(PROGS) }
    fn c07_manual() { run(MANUAL_PROGS) }
}
#[allow(dead_code)]
fn unused(x: WithManual) {
    let _ = flat!("", Some(x));
}
