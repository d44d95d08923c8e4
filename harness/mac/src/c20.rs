//! The arguments of the macros: an input expression, a string literal, types.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::parse::{ParseStream, Parser};

struct Call {
    input: Option<TokenStream>,
    literal: syn::LitStr,
    types: Vec<String>,
}
/// What an expression, a literal or a type is decides syn.
fn arguments(src: &TokenStream, m: Macro) -> Option<Call> {
    let parser = |s: ParseStream| {
        let no = || syn::Error::new(proc_macro2::Span::call_site(), "no");
        let mut input = None;
        if m != Macro::GetRegex {
            let e: syn::Expr = s.parse()?;
            input = Some(e.to_token_stream());
            comma(s)?;
        }
        let literal = s.parse::<syn::LitStr>()?;
        let mut types = vec![];
        while !s.is_empty() {
            comma(s)?;
            if s.is_empty() {
                break;
            }
            let t: syn::Type = s.parse()?;
            let mut text = String::new();
            t.to_token_stream().into_iter().for_each(|t| plain(&mut text, &t));
            match &t {
                syn::Type::Path(_) => {}
                syn::Type::Reference(_) if text.strip_prefix('&').map_or(false, |t| STR_PATHS.contains(&t)) => {}
                _ => return Err(no()),
            }
            types.push(text);
        }
        Ok(Call { input, literal, types })
    };
    parser.parse2(src.clone()).ok()
}
fn comma(s: ParseStream) -> syn::Result<()> {
    s.step(|c| match c.punct() {
        Some((p, rest)) if p.as_char() == ',' => Ok(((), rest)),
        _ => Err(c.error("no comma")),
    })
}
fn judge(m: Macro, src: &str) {
    let t = tokens(src);
    let call = arguments(&t, m);
    let out = match m {
        Macro::Sscanf => sscanf(t),
        Macro::Unescaped => sscanf_unescaped(t),
        Macro::GetRegex => sscanf_get_regex(t),
    };
    let want = call.as_ref().and_then(|c| {
        assume(c.literal.suffix().is_empty());
        let s = c.literal.value();
        assume(!s.contains('\\')); // the format strings are those of C18
        let types: Vec<&'static str> = c.types.iter().map(|t| &*Box::leak(t.clone().into_boxed_str())).collect();
        read(&s, &mut Types::new(&types))
    });
    match want {
        None => {
            reach("rejected");
            check(rejected(&out), "a call without the documented arguments is rejected");
        }
        Some(items) => {
            reach("accepted");
            if rejected(&out) {
                check(false, "a call with the documented arguments is accepted");
                return;
            }
            let r = regexes(&out);
            let (open, close, kind) = if m == Macro::Unescaped { ("^(?:", ")$", Kind::Unescaped) } else { ("^", "$", Kind::Escaped) };
            check(r.len() == 1 && same(&r[0], &items, open, close, kind), "the regex of the format string");
            if let Some(e) = call.and_then(|c| c.input) {
                let (all, e) = (words(&out), words(&e));
                check(infix(&all, &e), "the input is the expression that was given");
            }
        }
    }
}

const CALLS: &[(Macro, &str)] = &[
    (Macro::Sscanf, "s,\"{}\",u8"),
    (Macro::Sscanf, "&s[1..],r\"{}.{}\",&str,a::B<u8>,"),
    (Macro::Unescaped, "f(s), r#\"{1}.{0}\"# , i8, char"),
    (Macro::Sscanf, "s.t() + \"x\",\"{u8}\","),
    (Macro::GetRegex, "\"{}{0}\",std::u8"),
    (Macro::GetRegex, "r\"a{}\",&std::primitive::str,"),
    (Macro::Unescaped, "{ s }, \"\""),
];
static CHARS: [bool; 256] = table(b",\"{}u8s&:( )'<>+r.#-=|!_5[];b?*@$");
static FEW: [bool; 256] = table(b",\"s& r{}8");

fn windows() {
    let (m, s) = CALLS[param(0)];
    let w = param(1);
    let parts = param(2);
    // positions are shared among the tasks
    let n = s.len() - w + 1;
    let (from, to) = (n * param(3) / parts, n * (param(3) + 1) / parts);
    assume(to > from);
    let i = from + fork(to - from);
    let d = fork(w + 2);
    // w characters become w, fewer or one more
    let new = table_str(w + 1 - d, &CHARS);
    judge(m, &format!("{}{}{}", &s[..i], new, &s[i + w..]));
}
fn short() {
    let s = table_str(fork(param(1) + 1), &FEW);
    judge(MACROS[param(0)], s);
}

const LISTS: &[(Macro, &[&str])] = &[
    (Macro::Sscanf, &["s", ",", "\"{}{}\"", ",", "u8", ",", "&", "str"]),
    (Macro::Unescaped, &["&", "s", ",", "r\"{}\"", ",", "a::B<u8>", ","]),
    (Macro::GetRegex, &["\"{}-{u8}\"", ",", "&", "core::primitive::str"]),
    (Macro::Sscanf, &["f", "(s)", ",", "r#\"{1}{0}\"#", ",", "Cow<str>", ",", "Vec", "<", "u8", ">"]),
];
const TOKENS: &[&str] = &[
    "mut", "'a", "&", "*const", "dyn X", "impl X", "[u8]", "[u8; 2]", "(u8)", "(u8, u8)", "()", "fn(u8)", "!", "_", "u8", "Vec<u8>", "<u8 as T>::X", "::", ",", ";", "=", "=>", ":",
    "\"{}\"", "r\"{}\"", "b\"{}\"", "br\"{}\"", "c\"{}\"", "1", "'c'", "1.5", "true", "-", "|x| x", "move", "match s {}", "m!()", "..", "str", "for<'a>", "std::str", "std::primitive::str", "::core::primitive::str",
    "primitive::str", "as u8", "<str>", "?", ".await", "{ s }", "format!(\"{}\")", "concat!(\"{}\")", "stringify!({})", "self", "Self", "crate::T", "dyn", "unsafe { s }", "#[a]", "#", "$", "@", "T::<u8>", "r#type",
];
/// calls in which tokens are missing, added, or replaced by others
fn lists() {
    let (m, list) = LISTS[param(0)];
    let i = fork(list.len() + 1);
    let gone = fork((list.len() - i).min(2) + 1);
    let mut src = list[..i].join(" ");
    for k in 0..param(1) {
        // a task has a part of the tokens that come first
        let t = if k == 0 { let n = TOKENS.len(); let (a, b) = (n * param(3) / param(2), n * (param(3) + 1) / param(2)); a + fork(b - a) } else { fork(TOKENS.len()) };
        src.push(' ');
        src.push_str(TOKENS[t]);
    }
    src.push(' ');
    src.push_str(&list[i + gone..].join(" "));
    judge(m, &src);
}

crate::harness! {
    fn c20_lists() { lists() }
    fn c20_readable() { check(crate::fmt::readable(), "readable") }
    fn c20_windows() { windows() }
    fn c20_short() { short() }
}
