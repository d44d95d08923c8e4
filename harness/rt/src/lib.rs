#![allow(deprecated)]
pub mod sym;
pub mod model;
pub mod gen;
pub mod prog;

/// Declares the entry points of a property: an `extern "C"` function for the symbolic executor
/// and a row in ENTRIES for the native replay.
#[macro_export]
macro_rules! harness {
    ($(fn $name:ident() $body:block)*) => {
        $(pub fn $name() $body)*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
        #[cfg(not(feature = "native"))]
        mod wrappers { $(#[no_mangle] pub extern "C" fn $name() { super::$name() })* }
    };
}

macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn entries() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
            v
        }
    };
}
modules! { c01 "c01" c02 "c02" c02a "c02a" c02b "c02b" c02c "c02c" c02d "c02d" c03 "c03" c04 "c04" c05 "c05" c06 "c06" c07 "c07" c08 "c08" c09 "c09" c10 "c10" c11 "c11" c12 "c12" c13 "c13" c14 "c14" c15 "c15" c16 "c16" }
