//! Stands in for the compiler's `proc_macro`: the token streams of proc_macro2's own implementation.
pub struct TokenStream(pub proc_macro2::TokenStream);
impl From<proc_macro2::TokenStream> for TokenStream {
    fn from(t: proc_macro2::TokenStream) -> Self {
        TokenStream(t)
    }
}
impl From<TokenStream> for proc_macro2::TokenStream {
    fn from(t: TokenStream) -> Self {
        t.0
    }
}
impl TokenStream {
    pub fn new() -> Self {
        TokenStream(proc_macro2::TokenStream::new())
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl Default for TokenStream {
    fn default() -> Self {
        Self::new()
    }
}
impl Extend<TokenStream> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenStream>>(&mut self, i: I) {
        self.0.extend(i.into_iter().map(|t| t.0))
    }
}
impl std::fmt::Display for TokenStream {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::str::FromStr for TokenStream {
    type Err = proc_macro2::LexError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse().map(TokenStream)
    }
}
