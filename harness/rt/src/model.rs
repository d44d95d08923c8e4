//! Reference models, written from the documentation.

#[derive(Clone, Copy, PartialEq)]
pub enum Prefix {
    Never,
    Optional,
    Required,
}

/// A number of the documented form: sign, prefix and the digits
pub struct Num<'a> {
    pub neg: bool,
    pub digits: &'a [u8],
}

pub fn digit(c: u8, radix: u32) -> Option<u32> {
    let v = match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'z' => c - b'a' + 10,
        b'A'..=b'Z' => c - b'A' + 10,
        _ => return None,
    } as u32;
    if v < radix { Some(v) } else { None }
}

/// The documented form of a number, or None if the text does not have it
pub fn num(s: &[u8], radix: u32, signed: bool, prefix: Prefix) -> Option<Num<'_>> {
    let (neg, mut d) = match s.first() {
        Some(b'+') => (false, &s[1..]),
        Some(b'-') if signed => (true, &s[1..]),
        _ => (false, s),
    };
    if prefix != Prefix::Never {
        let letter = match radix { 16 => b'x', 8 => b'o', _ => b'b' };
        let has = d.len() >= 2 && d[0] == b'0' && (d[1] == letter || d[1] == letter - 32);
        // for an optional prefix, `0b1` in hexadecimal is a number without a prefix: x is not a digit
        if has {
            d = &d[2..];
        } else if prefix == Prefix::Required {
            return None;
        }
    }
    if d.is_empty() || !d.iter().all(|c| digit(*c, radix).is_some()) {
        return None;
    }
    Some(Num { neg, digits: d })
}

/// The magnitude, or None if it does not fit 128 bits
pub fn magnitude(d: &[u8], radix: u32) -> Option<u128> {
    let mut v = 0u128;
    for c in d {
        v = v.checked_mul(radix as u128)?.checked_add(digit(*c, radix)? as u128)?;
    }
    Some(v)
}

/// How many digits the largest magnitude of a type takes
pub fn max_digits(mut max: u128, radix: u32) -> usize {
    let mut n = 0;
    while max > 0 {
        max /= radix as u128;
        n += 1;
    }
    n
}

/// What the placeholder has to return for a text
#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    /// this number (negative, magnitude)
    Value(bool, u128),
    /// an error
    Reject,
    /// this number or an error: in range, but written with more digits than any value needs
    Either(bool, u128),
}

#[derive(Clone, Copy)]
pub struct Int {
    pub signed: bool,
    pub max: u128,
    pub bits: u32,
}

impl Int {
    /// the largest magnitude with that sign
    pub fn limit(&self, neg: bool) -> u128 {
        if neg { self.max + 1 } else { self.max }
    }
    pub fn want(&self, s: &[u8], radix: u32, prefix: Prefix) -> Want {
        let Some(n) = num(s, radix, self.signed, prefix) else { return Want::Reject };
        match magnitude(n.digits, radix) {
            Some(m) if m <= self.limit(n.neg) => {
                if n.digits.len() <= max_digits(self.limit(true && self.signed), radix) {
                    Want::Value(n.neg, m)
                } else {
                    Want::Either(n.neg, m)
                }
            }
            _ => Want::Reject,
        }
    }
}

pub trait Integer: Copy + PartialEq {
    const INT: Int;
    /// the value with that sign and magnitude, which is in range
    fn make(neg: bool, mag: u128) -> Self;
}
macro_rules! integer {
    ($signed:literal: $($t:ident)*) => {$(
        impl Integer for $t {
            const INT: Int = Int { signed: $signed, max: $t::MAX as u128, bits: $t::BITS };
            #[inline(always)]
            fn make(neg: bool, mag: u128) -> Self {
                if neg { (mag as $t).wrapping_neg() } else { mag as $t }
            }
        }
    )*};
}
integer!(false: u8 u16 u32 u64 u128 usize);
integer!(true: i8 i16 i32 i64 i128 isize);
