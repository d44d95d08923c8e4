//! Floating point numbers and the older number types.
use crate::prog::{K::*, P::*, *};
use crate::sym::*;
use crate::{flat, p, vals};
use sscanf::{sscanf, FullF32, FullF64, HexNumber};

/// 0x123 or 123
fn hex_ends(s: &[u8], p: usize) -> Vec<usize> {
    let hex = |c: u8| c.is_ascii_hexdigit();
    let mut v = vec![];
    if p + 2 <= s.len() && s[p] == b'0' && s[p + 1] | 32 == b'x' {
        v = runs_of(s, p + 2, 99, hex);
        v.reverse();
    }
    let mut w = runs_of(s, p, 99, hex);
    w.reverse();
    v.extend(w);
    v
}
fn hex_value(s: &'static str, a: usize, b: usize) -> Option<Val> {
    let t = &s.as_bytes()[a..b];
    let t = if t.len() > 2 && t[1] | 32 == b'x' { &t[2..] } else { t };
    let mut m = 0u128;
    for c in t {
        m = m.checked_mul(16)? + crate::model::digit(*c, 16)? as u128;
    }
    if m > usize::MAX as u128 { None } else { Some(Val::Int(false, m)) }
}
const HEX: K = Custom(hex_ends, hex_value);

#[derive(sscanf::FromScanf)]
#[sscanf(format = "{x};{y}")]
struct Vec2 {
    y: f32,
    x: f64,
}
crate::flat_as! { Vec2: |v| v.x, v.y; }

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{f64}")), [Ph(F64)], 2 3 2, "1.5", "-.5e1", "1.e-2", "infinity", "+NaN", "1e400"),
    p!(|s| flat!(s, sscanf!(s, "{f32}")), [Ph(F32)], 2 3 2, "1.5", "-.5E+1", "12345.678", "-Inf", "nan", "1e-50"),
    p!(|s| flat!(s, sscanf!(s, "{f64}{str}")), [Ph(F64), Ph(Str)], 1 3 1, "1.5e3x", "infinity", "nano"),
    p!(|s| flat!(s, sscanf!(s, "{f32}{f64}")), [Ph(F32), Ph(F64)], 1 3 1, "1.5-2.5", "1.2.3", "infinf"),
    p!(|s| flat!(s, sscanf!(s, "{f64}.{u8}")), [Ph(F64), L("."), Ph(U8)], 0 3 1, "1.5.3", "1.5"),
    p!(|s| flat!(s, sscanf!(s, "<{Vec2}>")), [L("<"), Ph(F64), L(";"), Ph(F32), L(">")], 0 2 1, "<1.5;-2>"),
    p!(|s| sscanf!(s, "{}", FullF32).map(|a| vec![(*a).val(s)]), [Ph(F32)], 1 3 1, "-1.5e2"),
    p!(|s| sscanf!(s, "{FullF64}").map(|a| vec![a.0.val(s)]), [Ph(F64)], 1 3 1, "-1.5e2"),
    p!(|s| sscanf!(s, "{HexNumber}").map(|a| vec![a.0.val(s)]), [Ph(HEX)], 2 4 2, "0x1f", "0XaB", "ffffffffffffffff", "0x10000000000000000"),
    p!(|s| sscanf!(s, "{} + {}", HexNumber, HexNumber).map(|(a, b)| vals![s; *a, *b]), [Ph(HEX), L(" + "), Ph(HEX)], 0 2 2, "0x1f + 2"),
    p!(|s| sscanf!(s, "{HexNumber}{HexNumber}").map(|(a, b)| vals![s; a.0, b.0]), [Ph(HEX), Ph(HEX)], 1 4 2, "0x12", "0x10x2", "120X3"),
];

/// the older types behave as the number inside of them
fn wrappers() {
    let b = bytes::<4>();
    let x = f32::from_bits(u32::from_le_bytes(b));
    let mut w = FullF32(x);
    check((w == x) == (x == x) && (x == w) == (x == x), "a FullF32 is equal to the number inside");
    check((*w).to_bits() == x.to_bits(), "a FullF32 dereferences to the number inside");
    *w = 1.0;
    check(w.0 == 1.0, "a FullF32 can be changed");
    let b = bytes::<8>();
    let y = usize::from_le_bytes(b);
    let z = usize::from_le_bytes(bytes::<8>());
    let mut h = HexNumber(y);
    check((h == z) == (y == z) && (z == h) == (y == z) && (h == HexNumber(z)) == (y == z), "a HexNumber is equal to the number inside");
    check(*h == y, "a HexNumber dereferences to the number inside");
    *h = z;
    check(h.0 == z, "a HexNumber can be changed");
    let d = f64::from_bits(u64::from_le_bytes(b));
    let w = FullF64(d);
    check((w == d) == (d == d) && (d == w) == (d == d) && (*w).to_bits() == d.to_bits(), "a FullF64 is the number inside");
    reach("wrappers");
}

/// parse() of the wrappers
fn parse() {
    let n = param(1);
    let s = if param(2) == 1 { ascii_str(n) } else { any_str(n) };
    match param(0) {
        0 => {
            let b = s.as_bytes();
            let ends = hex_ends(b, 0);
            let r = s.parse::<HexNumber>();
            if ends.contains(&b.len()) {
                match (r, hex_value(s, 0, b.len())) {
                    (Ok(h), Some(w)) => {
                        reach("value");
                        check(h.0.val(s).same(&w), "the value of the digits");
                    }
                    (Err(_), None) => reach("failed conversion"),
                    _ => check(false, "a number of the documented form is read if it fits"),
                }
            } else {
                // a sign is left open
                assume(!b.contains(&b'+'));
                reach("no match");
                check(r.is_err(), "anything else is an error");
            }
        }
        1 => match (s.parse::<FullF32>(), s.parse::<f32>()) {
            (Ok(a), Ok(b)) => check(a.0.to_bits() == b.to_bits(), "a FullF32 is read like f32"),
            (a, b) => check(a.is_err() && b.is_err(), "a FullF32 is read like f32"),
        },
        _ => match (s.parse::<FullF64>(), s.parse::<f64>()) {
            (Ok(a), Ok(b)) => check(a.0.to_bits() == b.to_bits(), "a FullF64 is read like f64"),
            (a, b) => check(a.is_err() && b.is_err(), "a FullF64 is read like f64"),
        },
    }
}
static PREFIX: [bool; 256] = table(b"0xX1aF_ ");
fn prefixes() {
    let s = table_str(param(0), &PREFIX);
    let b = s.as_bytes();
    let r = s.parse::<HexNumber>();
    if hex_ends(b, 0).contains(&b.len()) {
        reach("value");
        let w = hex_value(s, 0, b.len());
        check(r.map_or(false, |h| w.map_or(false, |w| h.0.val(s).same(&w))), "the value of the digits");
    } else {
        check(r.is_err(), "anything else is an error");
    }
}

/// Numbers next to the middle between two values, to the limits and to zero: `?` stands for any digit.
/// Reading them in a wider or narrower type, or in two steps, gives another result. Further ones have hundreds of digits.
static NEAR: &[&str] = &[
    "1.0000000596046447753906?6", "1.00000005960464477539062?1", "-16777217.00000000000000?", "3402823567797336616375393954581425685?9",
    "3.402823567797336?e38", "1.401298464324817070923729583289916131280261941876515771757e-4?", "7.00649232162408535461864791644958065640130970938257885878534141944895541342930300743319094181060791015?e-46",
    "9007199254740993.000000000000000?", "0.1000000000000000055511151231257827021181583404541015?", "1.797693134862315807?e308", "2.4703282292062327208828439643411068618252990130716238221279284125033775363510437593264991818081799618989828234772285886546332835517796989819938739800539093906315035659515570226392290858392449105184435931802849936536152500319370457678249219365623669863658480757001585769269903706311928279558551332927834338409351978015531246597263579574622766465272827220056374006485499977096599470454020828166226237857393450736339007967761930577506740176324673600968951340535537458516661134223766766220053110?e-324",
    "0.30000000000000004?", "+8.5e-4?", "1e2?", "inf?nity", "na?",
];
fn near() {
    let zeros = "0".repeat(400);
    let t = match param(0) {
        16 => format!("{zeros}4?"),
        17 => format!("-3?{}", "2".repeat(300)),
        18 => format!("0.{zeros}?1E402"),
        19 => format!("1.5e+{zeros}?"),
        i => NEAR[i].to_string(),
    };
    let t = t.as_bytes();
    let k = fork(12);
    let v: Vec<u8> = t.iter().map(|c| if *c == b'?' { b"0123456789in"[k] } else { *c }).collect();
    let s: &'static str = Box::leak(String::from_utf8(v).unwrap().into_boxed_str());
    let (x, y) = (s.parse::<f32>().ok().map(|x| x.to_bits()), s.parse::<f64>().ok().map(|x| x.to_bits()));
    reach(if x.is_some() { "value" } else { "no match" });
    check(s.parse::<FullF32>().ok().map(|a| a.0.to_bits()) == x, "a FullF32 is read like f32");
    check(s.parse::<FullF64>().ok().map(|a| a.0.to_bits()) == y, "a FullF64 is read like f64");
    check(sscanf!(s, "{f32}").ok().map(|a| a.to_bits()) == x, "an f32 is the value of parse()");
    check(sscanf!(s, "{}", f64).ok().map(|a| a.to_bits()) == y, "an f64 is the value of parse()");
    check(sscanf!(s, "{FullF32}").ok().map(|a| a.0.to_bits()) == x, "a FullF32 placeholder is the value of parse()");
    check(sscanf!(s, "{}", FullF64).ok().map(|a| a.0.to_bits()) == y, "a FullF64 placeholder is the value of parse()");
    check(sscanf!(s, "{Vec1}").ok().map(|a| a.x.to_bits()) == x, "an f32 field is the value of parse()");
}
#[derive(sscanf::FromScanf)]
#[sscanf("{x}")]
struct Vec1 {
    x: f32,
}

crate::harness! {
    fn c16_near() { near() }
    fn c16_parse() { parse() }
    fn c16_prefixes() { prefixes() }
    fn c16_prog() { run(PROGS) }
    fn c16_wrappers() { wrappers() }
}
