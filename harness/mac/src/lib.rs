pub mod sym;
pub mod fmt;
pub mod tok;

#[macro_export]
macro_rules! harness {
    ($(fn $name:ident() $body:block)*) => {
        $(pub fn $name() $body)*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
        #[cfg(not(feature = "native"))]
        mod wrappers { $(#[no_mangle] pub extern "C" fn $name() { super::$name() })* }
    };
}

macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn entries() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
            v
        }
    };
}
modules! { c03 "c03" c04 "c04" c06 "c06" c08 "c08" c11 "c11" c12 "c12" c13 "c13" c14 "c14" c17 "c17" c18 "c18" c19 "c19" c20 "c20" }
