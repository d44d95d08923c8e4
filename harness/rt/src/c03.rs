//! Several placeholders: the whole input is split among them.
use crate::model::*;
use crate::prog::{int, K::*, Prog, P::*};
use crate::sym::*;
use crate::vals;
use sscanf::sscanf;
use std::num::*;
use std::path::PathBuf;

const U8: crate::prog::K = Dec(int::<u8>());
const I8: crate::prog::K = Dec(int::<i8>());
const I32: crate::prog::K = Dec(int::<i32>());
const US: crate::prog::K = Dec(int::<usize>());
const H8: crate::prog::K = Radix(int::<u8>(), 16, Prefix::Never);
const X8: crate::prog::K = Radix(int::<u8>(), 16, Prefix::Optional);

static PROGS: &[Prog] = &[
    /* 0 */
    Prog {
        run: |s| sscanf!(s, "{}-{}", str, str).map(|(a, b)| vals![s; a, b]),
        parts: &[Ph(Str), L("-"), Ph(Str)],
        any: 4, ascii: 5, w: 2,
        templates: &["a-b", "--é-x\ny"],
    },
    /* 1 */
    Prog {
        run: |s| sscanf!(s, "{},{}", i8, u8).map(|(a, b)| vals![s; a, b]),
        parts: &[Ph(I8), L(","), Ph(U8)],
        any: 2, ascii: 4, w: 2,
        templates: &["-128,255"],
    },
    /* 2 */
    Prog {
        run: |s| sscanf!(s, "{}{}", u8, str).map(|(a, b)| vals![s; a, b]),
        parts: &[Ph(U8), Ph(Str)],
        any: 1, ascii: 4, w: 2,
        templates: &["1234x"],
    },
    /* 3 */
    Prog {
        run: |s| sscanf!(s, "{}{}", str, u8).map(|(a, b)| vals![s; a, b]),
        parts: &[Ph(Str), Ph(U8)],
        any: 2, ascii: 4, w: 2,
        templates: &["x1123", "a+12"],
    },
    /* 4 */
    Prog {
        run: |s| sscanf!(s, "#{u8:r16}{u8:r16}{u8:r16}").map(|(a, b, c)| vals![s; a, b, c]),
        parts: &[L("#"), Ph(H8), Ph(H8), Ph(H8)],
        any: 1, ascii: 4, w: 2,
        templates: &["#D4aF37", "#12+3f", "#1234"],
    },
    /* 5 */
    Prog {
        run: |s| sscanf!(s, "Move to {char}{usize}{char}{usize}").map(|(a, b, c, d)| vals![s; a, b, c, d]),
        parts: &[L("Move to "), Ph(Char), Ph(US), Ph(Char), Ph(US)],
        any: 1, ascii: 0, w: 2,
        templates: &["Move to N36E21"],
    },
    /* 6 */
    Prog {
        run: |s| sscanf!(s, "<x={i32}, y={i32}, z={i32}>").map(|(a, b, c)| vals![s; a, b, c]),
        parts: &[L("<x="), Ph(I32), L(", y="), Ph(I32), L(", z="), Ph(I32), L(">")],
        any: 0, ascii: 0, w: 2,
        templates: &["<x=3, y=-6, z=+69>"],
    },
    /* 7 */
    Prog {
        run: |s| sscanf!(s, "{1}{0}{1}{0}", NonZeroU8, char).map(|(a, b, c, d)| vals![s; a, b, c, d]),
        parts: &[Ph(Char), Ph(Nz(int::<u8>())), Ph(Char), Ph(Nz(int::<u8>()))],
        any: 1, ascii: 4, w: 2,
        templates: &["N36E210"],
    },
    /* 8 */
    Prog {
        run: |s| sscanf!(s, "{String}. {str}.").map(|(a, b)| vals![s; a, b]),
        parts: &[Ph(Owned), L(". "), Ph(Str), L(".")],
        any: 3, ascii: 5, w: 3,
        templates: &["A é. B. C."],
    },
    /* 9 */
    Prog {
        run: |s| sscanf!(s, "{bool}{bool}{char}").map(|(a, b, c)| vals![s; a, b, c]),
        parts: &[Ph(Bool), Ph(Bool), Ph(Char)],
        any: 1, ascii: 0, w: 2,
        templates: &["truefalse€", "falsetruex"],
    },
    /* 10: more than nine groups */
    Prog {
        run: |s| {
            sscanf!(s, "{u8} {u8} {u8} {u8} {u8} {u8} {u8} {u8} {u8} {u8} {u8} {u8}")
                .map(|(a, b, c, d, e, f, g, h, i, j, k, l)| vals![s; a, b, c, d, e, f, g, h, i, j, k, l])
        },
        parts: &[Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "),
            Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8), L(" "), Ph(U8)],
        any: 0, ascii: 0, w: 2,
        templates: &["1 2 3 4 5 6 7 8 9 10 11 12"],
    },
    /* 11 */
    Prog {
        run: |s| sscanf!(s, "{}/{}", PathBuf, str).map(|(a, b)| vals![s; a, b]),
        parts: &[Ph(Path), L("/"), Ph(Str)],
        any: 3, ascii: 5, w: 2,
        templates: &["/a/b", "a//é/"],
    },
    /* 12 */
    Prog {
        run: |s| sscanf!(s, "{u8:x}{u8:x}{u8:x}").map(|(a, b, c)| vals![s; a, b, c]),
        parts: &[Ph(X8), Ph(X8), Ph(X8)],
        any: 0, ascii: 3, w: 2,
        templates: &["D4AF37", "0x1f00xa", "0x0X12"],
    },
    /* 13 */
    Prog {
        run: |s| sscanf!(s, "{}{}{}", char, str, char).map(|(a, b, c)| vals![s; a, b, c]),
        parts: &[Ph(Char), Ph(Str), Ph(Char)],
        any: 5, ascii: 6, w: 2,
        templates: &["aéb"],
    },
    /* 14 */
    Prog {
        run: |s| sscanf!(s, "{}{}{}", i128, i64, u16).map(|(a, b, c)| vals![s; a, b, c]),
        parts: &[Ph(Dec(int::<i128>())), Ph(Dec(int::<i64>())), Ph(Dec(int::<u16>()))],
        any: 0, ascii: 3, w: 2,
        templates: &["1-2+3", "-123"],
    },
    /* 15: literal text that placeholders can also match */
    Prog {
        run: |s| sscanf!(s, "1{}1{}1", u8, u8).map(|(a, b)| vals![s; a, b]),
        parts: &[L("1"), Ph(U8), L("1"), Ph(U8), L("1")],
        any: 1, ascii: 5, w: 3,
        templates: &["1111111", "121121"],
    },
    /* 16: indexes of two digits */
    Prog {
        run: |s| {
            sscanf!(s, "{11}{10}{9}{8}{7}{6}{5}{4}{3}{2}{1}{0}", u8, char, bool, char, i8, char, u8, char, bool, char, u16, char)
                .map(|(a, b, c, d, e, f, g, h, i, j, k, l)| vals![s; a, b, c, d, e, f, g, h, i, j, k, l])
        },
        parts: &[Ph(Char), Ph(Dec(int::<u16>())), Ph(Char), Ph(Bool), Ph(Char), Ph(U8), Ph(Char), Ph(I8), Ph(Char), Ph(Bool), Ph(Char), Ph(U8)],
        any: 0, ascii: 0, w: 1,
        templates: &["x12ytruez3a-4bfalsec5"],
    },
    /* 17: one type for many placeholders */
    Prog {
        run: |s| {
            sscanf!(s, "{0}{1}{0}{0}{0}{0}{0}{0}{0}{0}{1:x}{0}{0}{}", char, u8)
                .map(|(a, b, c, d, e, f, g, h, i, j, k, l, m, n)| vals![s; a, b, c, d, e, f, g, h, i, j, k, l, m, n])
        },
        parts: &[Ph(Char), Ph(U8), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(Char), Ph(X8), Ph(Char), Ph(Char), Ph(Char)],
        any: 0, ascii: 0, w: 1,
        templates: &["a12bcdefghi0x1fjkl"],
    },
    /* 18: more types than bits of a number */
    Prog {
        run: |s| sscanf!(s, "{5}{12}{19}{26}{33}{0}{7}{14}{21}{28}{35}{2}{9}{16}{23}{30}{37}{4}{11}{18}{25}{32}{39}{6}{13}{20}{27}{34}{1}{8}{15}{22}{29}{36}{3}{10}{17}{24}{31}{38}", u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char, u8, char).map(|(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39)| vals![s; a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39]),
        parts: &[Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8), Ph(Char), Ph(U8)],
        any: 0,
        ascii: 0,
        w: 1,
        templates: &["a13b39c65d91e117f143g169h195i221j247k23l49m75n101o127p153q179r205s231t7"],
    },
];

static ONES: [bool; 256] = table(b"a:1\n");

/// Calls at one call site do not influence each other.
fn again() {
    let f: fn(&'static str) -> Option<(&'static str, u8)> = |s| sscanf!(s, "{}:{}", str, u8).ok();
    let a = f("a:1");
    check(a == Some(("a", 1)), "the example text is accepted");
    let s = table_str(3, &ONES);
    let t = table_str(3, &ONES);
    let r = f(s);
    let g: fn(&'static str) -> Option<(char, &'static str)> = |s| sscanf!(s, "{}:{}", char, str).ok();
    let other = g(s);
    let b = s.as_bytes();
    match other {
        None => check(b[0] == b'\n' || b[1] != b':' || b[2] == b'\n', "another format has its own result"),
        Some((c, t)) => check(b[1] == b':' && c as u32 == b[0] as u32 && t.len() == 1 && t.as_bytes()[0] == b[2], "another format has its own values"),
    }
    let q = f(t);
    let r2 = f(s);
    let one = |s: &'static str| {
        let b = s.as_bytes();
        if b[1] == b':' && b[0] != b'\n' && b[2].is_ascii_digit() { Some((b[0], b[2] - b'0')) } else { None }
    };
    for (r, s) in [(r, s), (q, t), (r2, s)] {
        match (r, one(s)) {
            (None, None) => reach("no match"),
            (Some((a, b)), Some((c, d))) => {
                reach("value");
                check(a.len() == 1 && a.as_bytes()[0] == c && b == d, "repeated calls return the values of their own input");
            }
            _ => check(false, "repeated calls judge their own input"),
        }
    }
}

crate::harness! {
    fn c03_prog() { crate::prog::run(PROGS) }
    fn c03_again() { again() }
}
