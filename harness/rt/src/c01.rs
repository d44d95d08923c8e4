//! Decimal integers: `{T}` on the whole input.
use crate::gen::*;
use crate::model::*;
use crate::sym::*;
use sscanf::sscanf;
use std::num::*;

pub fn judge<T: Integer>(r: Option<T>, want: Want) {
    match (r, want) {
        (Some(v), Want::Value(neg, m)) | (Some(v), Want::Either(neg, m)) => {
            reach("value");
            check(v == T::make(neg, m), "the returned number is the one in the text");
        }
        (Some(_), Want::Reject) => check(false, "accepted a text that is no number of this type"),
        (None, Want::Value(..)) => check(false, "rejected a number of this type"),
        (None, _) => reach("reject"),
    }
}

// param 0: texts (0 usual, 1 deeper)
fn list(int: &Int) -> Vec<Text> {
    let deep = param(0) == 1;
    texts(int, 10, &[""], if deep { 4 } else { 3 }, if deep { 8 } else { 4 }, deep)
}

macro_rules! plain {
    ($($name:ident $t:ident)*) => { harness! { $(
        fn $name() {
            let _ = sscanf!("1", "{}", $t);
            let int = <$t as Integer>::INT;
            let s = text(&list(&int), &int, 10);
            let r = sscanf!(s, "{}", $t);
            judge::<$t>(r.ok(), int.want(s.as_bytes(), 10, Prefix::Never));
        }
    )*
        fn c01_nonzero() { nonzero() }
        fn c01_pair() { crate::prog::run(PAIRS) }
    } };
}
plain! {
    c01_u8 u8 c01_u16 u16 c01_u32 u32 c01_u64 u64 c01_u128 u128 c01_usize usize
    c01_i8 i8 c01_i16 i16 c01_i32 i32 c01_i64 i64 c01_i128 i128 c01_isize isize
}

/// a number takes as many digits as its type can have, and the next one takes the rest
macro_rules! pairs {
    ($($nz:ident $t:ident $a:literal $b:literal)*) => {
        static PAIRS: &[crate::prog::Prog] = &[
            $(crate::p!(|s| sscanf!(s, "{}{}", $t, u8).map(|(a, b)| crate::vals![s; a, b]),
                [crate::prog::P::Ph(crate::prog::K::Dec(crate::prog::int::<$t>())), crate::prog::P::Ph(crate::prog::U8)], 0 0 1, $a, $b),
            crate::p!(|s| sscanf!(s, "{}{}", $nz, u8).map(|(a, b)| crate::vals![s; a, b]),
                [crate::prog::P::Ph(crate::prog::K::Nz(crate::prog::int::<$t>())), crate::prog::P::Ph(crate::prog::U8)], 0 0 1, $a, $b),)*
        ];
    };
}
pairs! {
    NonZeroU8 u8 "2557" "+25512"
    NonZeroU16 u16 "655357" "6553512"
    NonZeroU32 u32 "42949672957" "+429496729512"
    NonZeroU64 u64 "184467440737095516157" "1844674407370955161512"
    NonZeroU128 u128 "3402823669209384634633746074317682114557" "34028236692093846346337460743176821145512"
    NonZeroUsize usize "184467440737095516157" "1844674407370955161512"
    NonZeroI8 i8 "1277" "-12812"
    NonZeroI16 i16 "327677" "-3276812"
    NonZeroI32 i32 "21474836477" "-214748364812"
    NonZeroI64 i64 "92233720368547758077" "-922337203685477580812"
    NonZeroI128 i128 "1701411834604692317316873037158841057277" "-17014118346046923173168730371588410572812"
    NonZeroIsize isize "92233720368547758077" "-922337203685477580812"
}

/// param 1: the type
fn nonzero() {
    macro_rules! nz {
        ($($i:literal $nz:ident $t:ident)*) => { match param(1) { $($i => {
            let _ = sscanf!("1", "{}", $nz);
            let int = <$t as Integer>::INT;
            let s = text(&list(&int), &int, 10);
            let r = sscanf!(s, "{}", $nz);
            let mut want = int.want(s.as_bytes(), 10, Prefix::Never);
            if let Want::Value(_, m) = want {
                let n = num(s.as_bytes(), 10, int.signed, Prefix::Never).unwrap();
                if m == 0 {
                    want = Want::Reject;
                } else if n.digits[0] == b'0' {
                    want = Want::Either(n.neg, m); // leading zeros are not part of the form
                }
            }
            if let Want::Either(_, 0) = want {
                want = Want::Reject;
            }
            judge::<$t>(r.ok().map(|v| v.get()), want);
        })* _ => unreachable!() } };
    }
    nz! {
        0 NonZeroU8 u8 1 NonZeroU16 u16 2 NonZeroU32 u32 3 NonZeroU64 u64 4 NonZeroU128 u128 5 NonZeroUsize usize
        6 NonZeroI8 i8 7 NonZeroI16 i16 8 NonZeroI32 i32 9 NonZeroI64 i64 10 NonZeroI128 i128 11 NonZeroIsize isize
    }
}
