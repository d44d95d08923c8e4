//! Symbolic texts for numbers.
use crate::model::*;
use crate::sym::*;

/// valid digits for each radix, both cases
const DIGITS: [[bool; 256]; 37] = {
    let mut t = [[false; 256]; 37];
    let mut r = 2;
    while r <= 36 {
        let mut c = 0;
        while c < 128 {
            let v = match c as u8 {
                b'0'..=b'9' => c - 48,
                b'a'..=b'z' => c - 97 + 10,
                b'A'..=b'Z' => c - 65 + 10,
                _ => 99,
            };
            t[r][c] = v < r;
            c += 1;
        }
        r += 1;
    }
    t
};

#[derive(Clone, Copy)]
pub enum Text {
    /// any text of that many bytes
    Any(usize),
    Ascii(usize),
    /// sign, prefix, n digits: those of the limit of the type, of which w at pos are symbolic
    Number { sign: u8, prefix: &'static str, n: usize, pos: usize, w: usize },
}

/// digits of v
fn digits_of(mut v: u128, radix: u32) -> Vec<u8> {
    let mut d = vec![];
    while v > 0 {
        d.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[(v % radix as u128) as usize]);
        v /= radix as u128;
    }
    d.reverse();
    d
}

impl Text {
    pub fn make(&self, int: &Int, radix: u32) -> &'static str {
        match *self {
            Text::Any(n) => any_str(n),
            Text::Ascii(n) => ascii_str(n),
            Text::Number { sign, prefix, n, pos, w } => {
                let mut d = digits_of(int.limit(int.signed && sign == b'-'), radix);
                d.resize(n, b'0');
                let s = table_str(w, &DIGITS[radix as usize]);
                d[pos..pos + w].copy_from_slice(s.as_bytes());
                let mut t: Vec<u8> = vec![];
                if sign != 0 {
                    t.push(sign);
                }
                t.extend_from_slice(prefix.as_bytes());
                t.extend_from_slice(&d);
                unsafe { std::str::from_utf8_unchecked(Vec::leak(t)) }
            }
        }
    }
}

/// The texts for a number: short texts without a restriction, then digit strings of every length
/// around the length of the limit, where a window of digits is symbolic.
pub fn texts(int: &Int, radix: u32, prefixes: &[&'static str], any: usize, ascii: usize, deep: bool) -> Vec<Text> {
    let mut v = vec![];
    for n in 0..=any {
        v.push(Text::Any(n));
    }
    for n in any + 1..=ascii {
        v.push(Text::Ascii(n));
    }
    let len = max_digits(int.limit(int.signed), radix);
    let w = match radix {
        2 | 3 => 6,
        _ if radix.is_power_of_two() => 3,
        _ if int.bits == 128 => if radix > 10 { 1 } else { 2 },
        _ if int.bits >= 32 && radix > 10 => 2,
        _ => 3,
    };
    let signs: &[u8] = if int.signed { &[0, b'-', b'+'] } else { &[0, b'+'] };
    for &prefix in prefixes {
        for &sign in signs {
            for n in [len - 1, len, len + 1, len + 2] {
                if n == 0 {
                    continue;
                }
                let w = w.min(n);
                let last = n - w;
                let step = if deep { w } else { last.max(1) };
                let mut pos = 0;
                while pos <= last {
                    // digits before the window are those of the limit, so it decides about the range
                    v.push(Text::Number { sign, prefix, n, pos, w });
                    if pos == last {
                        break;
                    }
                    pos = (pos + step).min(last);
                }
            }
        }
    }
    v
}

/// A few texts at the limit: for options that another task covers with another type.
pub fn few_texts(int: &Int, radix: u32) -> Vec<Text> {
    let mut v = vec![Text::Ascii(1)];
    let len = max_digits(int.limit(int.signed), radix);
    let signs: &[u8] = if int.signed { &[b'-', b'+'] } else { &[0, b'+'] };
    for &sign in signs {
        for (n, pos) in [(len, 0), (len, len - 1), (len + 1, len)] {
            if int.bits == 128 && pos == 0 {
                continue;
            }
            v.push(Text::Number { sign, prefix: "", n, pos, w: 1 });
        }
    }
    v
}

pub fn text(list: &[Text], int: &Int, radix: u32) -> &'static str {
    list[fork(list.len())].make(int, radix)
}
