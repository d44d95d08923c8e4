//! syn without its connection to the compiler's `proc_macro`.
pub use real_syn::*;
#[macro_export]
macro_rules! parse_macro_input {
    ($x:ident as $t:ty) => {
        match $crate::parse2::<$t>(::proc_macro2::TokenStream::from($x)) {
            Ok(x) => x,
            Err(e) => return ::proc_macro::TokenStream::from(e.to_compile_error()),
        }
    };
    ($x:ident with $p:path) => {
        match $crate::parse::Parser::parse2($p, ::proc_macro2::TokenStream::from($x)) {
            Ok(x) => x,
            Err(e) => return ::proc_macro::TokenStream::from(e.to_compile_error()),
        }
    };
    ($x:ident) => {
        $crate::parse_macro_input!($x as _)
    };
}
/// `syn::parse` for the token streams of the stand-in
pub fn parse<T: parse::Parse>(x: fake_proc_macro::TokenStream) -> Result<T> {
    real_syn::parse2(x.0)
}
