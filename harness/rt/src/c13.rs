//! Custom regexes: {:/.../}
use crate::prog::{K::*, P::*, *};
use crate::{flat, p, vals};
use sscanf::sscanf;

/// a conversion that accepts everything, with a regex that does not
#[derive(Debug)]
struct Any(String);
impl std::str::FromStr for Any {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Any(s.to_string()))
    }
}
/// no RegexRepresentation
#[derive(sscanf::FromScanf)]
#[sscanf(format = r"{a:/[xy]+/}{b}{c:/[0-9]?/}")]
struct Fields<'a> {
    c: Any,
    b: u8,
    a: &'a str,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = "...{field:/<[a-z]+>/}...")]
struct Generic<T>
where
    T: std::str::FromStr + 'static,
    <T as std::str::FromStr>::Err: std::error::Error + 'static,
{
    field: T,
}
#[derive(sscanf::FromScanf)]
enum E {
    #[sscanf("{:/a|b/}{:/c|d/}")]
    Two(Any, char),
    #[sscanf(format = r"{x:/[\w&&[:ascii:]]\/\\/}")]
    One { x: Any },
    #[sscanf("m{:/[0-9]{2}/}")]
    M(#[sscanf(map = |x: u16| x + 1)] u16),
}
/// every kind of type
#[derive(sscanf::FromScanf)]
#[sscanf("{2:/[ab]/}{0:/x+/}{:/[yz]*/}{:/[0-9]/}{:/-.+/}")]
struct Kinds<'a>(
    std::borrow::Cow<'a, str>,
    std::path::PathBuf,
    &'a str,
    std::num::NonZeroU8,
    #[sscanf(map = |c: std::borrow::Cow<'a, str>| c.len())] usize,
);
impl ToVal for Any {
    fn val(self, s: &'static str) -> Val {
        self.0.val(s)
    }
}
impl Flat for Any {
    fn flat(self, s: &'static str, o: &mut Vec<Val>) {
        o.push(self.val(s))
    }
}
crate::flat_as! {
    Fields<'_>: |f| f.a, f.b, f.c;
    Kinds<'_>: |k| k.2, k.0, k.1, k.3.get(), k.4;
    Generic<Any>: |g| g.field;
    Generic<String>: |g| g.field;
}
crate::flat_enum! { E { 0 E::Two(a, b) => [a, b], 1 E::One { x } => [x], 2 E::M(x) => [x], } }

fn slice(_: &'static str, a: usize, b: usize) -> Option<Val> {
    Some(Val::Slice(a, b - a))
}
fn text(s: &'static str, a: usize, b: usize) -> Option<Val> {
    Some(Val::Text(s.as_bytes()[a..b].to_vec()))
}
fn character(s: &'static str, a: usize, b: usize) -> Option<Val> {
    if b > a && width(s.as_bytes()[a]) == b - a { Some(Val::Char(decode(&s.as_bytes()[a..b]))) } else { None }
}
fn number<const MAX: u128>(s: &'static str, a: usize, b: usize) -> Option<Val> {
    let mut v = 0u128;
    if a == b {
        return None;
    }
    for c in &s.as_bytes()[a..b] {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (*c - b'0') as u128;
    }
    if v <= MAX { Some(Val::Int(false, v)) } else { None }
}
fn rev(mut v: Vec<usize>) -> Vec<usize> {
    v.reverse();
    v
}
fn digit_pairs(s: &[u8], p: usize) -> Vec<usize> {
    let v = runs_of(s, p, 2, |c| c.is_ascii_digit());
    if v.len() == 2 { vec![p + 2] } else { vec![] }
}
fn of(s: &[u8], p: usize, l: &[u8]) -> Vec<usize> {
    if lit(s, p, l) { vec![p + l.len()] } else { vec![] }
}
/// runs of characters (of any width) with f
fn chars(s: &[u8], pos: usize, f: fn(u8) -> bool) -> Vec<usize> {
    let mut v = vec![];
    let mut i = pos;
    while i < s.len() && (s[i] >= 0x80 || f(s[i])) {
        i += width(s[i]);
        v.push(i);
    }
    v
}

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{str:/[^m]+/}{str}")), [Ph(Custom(|s, p| rev(chars(s, p, |c| c != b'm')), slice)), Ph(Str)], 3 5 2, "random Text", "ém"),
    p!(|s| flat!(s, sscanf!(s, r"{u8:/[0-9]{2}/}{u8}")), [Ph(Custom(digit_pairs, number::<255>)), Ph(U8)], 2 5 2, "1234"),
    p!(|s| flat!(s, sscanf!(s, "{u8:/[0-9]{2}/}{u8:/[0-9]{2}/}{}", u8)), [Ph(Custom(digit_pairs, number::<255>)), Ph(Custom(digit_pairs, number::<255>)), Ph(U8)], 2 4 2, "123456"),
    // an alternative inside of the regex ends at the placeholder
    p!(|s| flat!(s, sscanf!(s, "x{str:/a|bc|/}y")), [L("x"), Ph(Custom(|s, p| { let mut v = of(s, p, b"a"); v.extend(of(s, p, b"bc")); v.push(p); v }, slice)), L("y")], 3 5 2, "xay", "xbcy"),
    p!(|s| flat!(s, sscanf!(s, r"{str:/a\/b\\\/?/}-")), [Ph(Custom(|s, p| { let mut v = of(s, p, br"a/b\/"); v.extend(of(s, p, br"a/b\")); v }, slice)), L("-")], 2 4 2, r"a/b\/-", r"a/b\-"),
    p!(|s| flat!(s, sscanf!(s, "{str:/\\/\\\\[.]/}{}", char)), [Ph(Custom(|s, p| of(s, p, br"/\."), slice)), Ph(Char)], 2 4 2, r"/\.x"),
    p!(|s| flat!(s, sscanf!(s, r"{str:/\.\{\}\(\)/}{}", char)), [Ph(Custom(|s, p| of(s, p, b".{}()"), slice)), Ph(Char)], 2 4 2, ".{}()x"),
    p!(|s| flat!(s, sscanf!(s, "{str:/[{}]+/}{}", char)), [Ph(Custom(|s, p| rev(runs_of(s, p, 99, |c| c == b'{' || c == b'}')), slice)), Ph(Char)], 2 4 2, "}}{{x"),
    p!(|s| flat!(s, sscanf!(s, "{:/(?:ab)+?/}{}", str, String)), [Ph(Custom(|s, p| { let mut v = vec![]; let mut i = p; while lit(s, i, b"ab") { i += 2; v.push(i) } v }, slice)), Ph(Owned)], 2 4 2, "ababab"),
    p!(|s| flat!(s, sscanf!(s, "{1:/[0-9]*/}{0:/.{2}/}{1:/[0-9]+/}", str, u16)), [
        Ph(Custom(|s, p| { let mut v = rev(runs_of(s, p, 99, |c| c.is_ascii_digit())); v.push(p); v }, number::<65535>)),
        Ph(Custom(|s, p| { let v = runs(s, p); if v.len() >= 2 { vec![v[1]] } else { vec![] } }, slice)),
        Ph(Custom(|s, p| rev(runs_of(s, p, 99, |c| c.is_ascii_digit())), number::<65535>))], 1 4 2, "12éa45", "123456"),
    p!(|s| flat!(s, sscanf!(s, "{char:/.*?/}{String:/x*/}")), [
        Ph(Custom(|s, p| { let mut v = runs(s, p); v.insert(0, p); v }, character)),
        Ph(Custom(|s, p| { let mut v = rev(runs_of(s, p, 99, |c| c == b'x')); v.push(p); v }, text))], 3 4 2, "éxx"),
    p!(|s| sscanf!(s, "{:/(?i)k/}{:/a.b/}", char, Cow<str>).map(|(a, b)| vals![s; a, b]), [
        Ph(Custom(|s, p| { let mut v = runs_of(s, p, 1, |c| c | 32 == b'k'); v.extend(of(s, p, "\u{212a}".as_bytes())); v }, character)),
        Ph(Custom(|s, p| if lit(s, p, b"a") { runs(s, p + 1).into_iter().take(1).filter(|e| lit(s, *e, b"b")).map(|e| e + 1).collect() } else { vec![] }, slice))], 2 5 2, "Ka-b"),
    p!(|s| flat!(s, sscanf!(s, "{bool:/true|false|no/},{Any:/[^,]*/}")), [
        Ph(Custom(|s, p| { let mut v = of(s, p, b"true"); v.extend(of(s, p, b"false")); v.extend(of(s, p, b"no")); v },
            |_, a, b| match b - a { 4 => Some(Val::Bool(true)), 5 => Some(Val::Bool(false)), _ => None })), L(","),
        Ph(Custom(|s, p| { let mut v = rev(chars(s, p, |c| c != b',')); v.push(p); v }, text))], 0 4 2, "true,", "no,a"),
    p!(|s| flat!(s, sscanf!(s, "[{Fields}]")), [L("["),
        Ph(Custom(|s, p| rev(runs_of(s, p, 99, |c| c == b'x' || c == b'y')), slice)), Ph(U8),
        Ph(Custom(|s, p| { let mut v = runs_of(s, p, 1, |c| c.is_ascii_digit()); v.push(p); v }, text)), L("]")], 0 4 2, "[xy1234]", "[y9]"),
    p!(|s| flat!(s, sscanf!(s, "{Generic<String>}{Generic<Any>}")), [
        L("..."), Ph(Custom(|s, p| if lit(s, p, b"<") { rev(runs_of(s, p + 1, 99, |c| c.is_ascii_lowercase())).into_iter().filter(|e| lit(s, *e, b">")).map(|e| e + 1).collect() } else { vec![] }, text)), L("......"),
        Ph(Custom(|s, p| if lit(s, p, b"<") { rev(runs_of(s, p + 1, 99, |c| c.is_ascii_lowercase())).into_iter().filter(|e| lit(s, *e, b">")).map(|e| e + 1).collect() } else { vec![] }, text)), L("...")], 0 2 2, "...<regex>......<a>..."),
    p!(|s| flat!(s, sscanf!(s, "{E}{}", u8)), [Alt(&[
            (0, &[Ph(Custom(|s, p| runs_of(s, p, 1, |c| c == b'a' || c == b'b'), text)), Ph(Custom(|s, p| runs_of(s, p, 1, |c| c == b'c' || c == b'd'), character))]),
            (1, &[Ph(Custom(|s, p| runs_of(s, p, 1, |c| c.is_ascii_alphanumeric() || c == b'_').into_iter().filter(|e| lit(s, *e, br"/\")).map(|e| e + 2).collect(), text))]),
            (2, &[L("m"), Map(Custom(digit_pairs, number::<65535>), |v| match v { Val::Int(_, m) => Some(Val::Int(false, m + 1)), v => Some(v) })]),
        ]), Ph(U8)], 0 4 2, "ac1", "_/\\1", "m123"),
    p!(|s| flat!(s, sscanf!(s, "{Kinds}")), [
        Ph(Custom(|s, p| runs_of(s, p, 1, |c| c == b'a' || c == b'b'), slice)),
        Ph(Custom(|s, p| rev(runs_of(s, p, 99, |c| c == b'x')), slice)),
        Ph(Custom(|s, p| { let mut v = rev(runs_of(s, p, 99, |c| c == b'y' || c == b'z')); v.push(p); v }, text)),
        Ph(Custom(|s, p| runs_of(s, p, 1, |c| c.is_ascii_digit()), |s, a, b| number::<255>(s, a, b).filter(|v| !matches!(v, Val::Int(_, 0))))),
        Ph(Custom(|s, p| if lit(s, p, b"-") { rev(runs(s, p + 1)) } else { vec![] }, |_, a, b| Some(Val::Int(false, (b - a) as u128))))], 0 4 2, "axy1-b", "bxx0-1"),
];

crate::harness! {
    fn c13_prog() { run(PROGS) }
}
