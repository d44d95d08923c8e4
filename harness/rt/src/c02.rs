//! Integers with a radix option: `{:x}`, `{:o}`, `{:b}`, with `#`, and `{:rN}`.
pub use crate::c01::judge;
pub use crate::gen::*;
pub use crate::model::*;
pub use crate::sym::*;

pub fn texts_for(int: &Int, radix: u32, prefix: Prefix) -> Vec<Text> {
    let deep = param(1) == 1;
    let prefixes: &[&'static str] = match (prefix, radix) {
        (Prefix::Never, _) => &[""],
        (Prefix::Optional, 16) => &["", "0x", "0X"],
        (Prefix::Optional, 8) => &["", "0o", "0O"],
        (Prefix::Optional, _) => &["", "0b", "0B"],
        (Prefix::Required, 16) => &["", "0x", "0X"],
        (Prefix::Required, 8) => &["", "0o", "0O"],
        (Prefix::Required, _) => &["", "0b", "0B"],
    };
    if param(1) == 2 {
        return few_texts(int, radix);
    }
    texts(int, radix, prefixes, if deep { 2 } else { 1 }, if deep { 5 } else { 3 }, deep)
}

// param 0: the option; param 1: texts (0 usual, 1 deeper, 2 few)

macro_rules! radix {
    ($($name:ident $t:ident: $($i:literal $f:literal $radix:literal $prefix:ident $warm:literal)*)*) => { $crate::harness! { $(
        fn $name() {
            let int = <$t as Integer>::INT;
            match param(0) {
                $($i => {
                    let _ = sscanf!($warm, $f, $t);
                    let s = text(&texts_for(&int, $radix, Prefix::$prefix), &int, $radix);
                    let r = sscanf!(s, $f, $t);
                    judge::<$t>(r.ok(), int.want(s.as_bytes(), $radix, Prefix::$prefix));
                })*
                _ => unreachable!(),
            }
        }
    )* } };
}
pub(crate) use radix;
pub const ENTRIES: &[(&str, fn())] = &[];
