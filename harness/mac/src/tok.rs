//! Calling the macros, and reading what they generate.
use proc_macro2::{Delimiter, TokenStream, TokenTree};

/// The text of a macro's input as tokens. `text` has to be something that the compiler would pass on.
pub fn tokens(text: &str) -> TokenStream {
    match text.parse::<TokenStream>() {
        Ok(t) => t,
        Err(_) => {
            crate::sym::assume(false);
            unreachable!()
        }
    }
}
pub fn sscanf(t: TokenStream) -> TokenStream {
    core_macro::sscanf(t.into()).0
}
pub fn sscanf_unescaped(t: TokenStream) -> TokenStream {
    core_macro::sscanf_unescaped(t.into()).0
}
pub fn sscanf_get_regex(t: TokenStream) -> TokenStream {
    core_macro::sscanf_get_regex(t.into()).0
}
pub fn derive(t: TokenStream) -> TokenStream {
    core_macro::derive_from_sscanf(t.into()).0
}

/// Does the output report an error to the compiler?
pub fn rejected(t: &TokenStream) -> bool {
    t.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "compile_error",
        TokenTree::Group(g) => rejected(&g.stream()),
        _ => false,
    })
}

/// The parts of the regex that the output builds: what `concatcp!` gets.
#[derive(Debug, PartialEq, Clone)]
pub enum Part {
    /// adjacent literals are one
    Text(String),
    /// the regex of a type, whose tokens are given without spaces
    Type(String),
}
pub fn regexes(t: &TokenStream) -> Vec<Vec<Part>> {
    let mut v = vec![];
    find(t, &mut v);
    v
}
fn find(t: &TokenStream, v: &mut Vec<Vec<Part>>) {
    let mut last = [false, false]; // `concatcp`, `!`
    for t in t.clone() {
        match t {
            TokenTree::Ident(i) => last = [i == "concatcp", false],
            TokenTree::Punct(p) => last = [false, last[0] && p.as_char() == '!'],
            TokenTree::Group(g) => {
                if last[1] {
                    v.push(parts(g.stream()));
                } else {
                    find(&g.stream(), v);
                }
                last = [false, false];
            }
            TokenTree::Literal(_) => last = [false, false],
        }
    }
}
fn parts(t: TokenStream) -> Vec<Part> {
    let mut v = vec![];
    let mut item: Vec<TokenTree> = vec![];
    let mut depth = 0;
    for t in t {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => {
                part(&mut v, &item);
                item.clear();
                continue;
            }
            TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
            TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
            _ => {}
        }
        item.push(t);
    }
    if !item.is_empty() {
        part(&mut v, &item);
    }
    v
}
fn part(v: &mut Vec<Part>, item: &[TokenTree]) {
    if let [TokenTree::Literal(l)] = item {
        let s = unquote(&l.to_string());
        if s.is_empty() {
            return;
        }
        if let Some(Part::Text(t)) = v.last_mut() {
            t.push_str(&s);
        } else {
            v.push(Part::Text(s));
        }
        return;
    }
    // <TYPE as ::sscanf::RegexRepresentation>::REGEX
    let mut s = String::new();
    let mut depth = 0;
    for t in &item[1..] {
        match t {
            TokenTree::Ident(i) if i == "as" && depth == 0 => break,
            TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
            TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
            _ => {}
        }
        plain(&mut s, t);
    }
    v.push(Part::Type(s));
}
pub fn plain(s: &mut String, t: &TokenTree) {
    match t {
        TokenTree::Group(g) => {
            let (a, b) = match g.delimiter() {
                Delimiter::Parenthesis => ("(", ")"),
                Delimiter::Brace => ("{", "}"),
                Delimiter::Bracket => ("[", "]"),
                Delimiter::None => ("", ""),
            };
            s.push_str(a);
            g.stream().into_iter().for_each(|t| plain(s, &t));
            s.push_str(b);
        }
        t => s.push_str(&t.to_string()),
    }
}
/// The text that a string literal stands for
pub fn unquote(l: &str) -> String {
    let b = l.as_bytes();
    let mut s = String::new();
    if b[0] == b'r' {
        let q = l.find('"').unwrap();
        s.push_str(&l[q + 1..l.len() - q]);
        return s;
    }
    let mut it = l[1..l.len() - 1].chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            s.push(c);
            continue;
        }
        match it.next().unwrap() {
            'n' => s.push('\n'),
            'r' => s.push('\r'),
            't' => s.push('\t'),
            '0' => s.push('\0'),
            'u' => {
                let mut m = 0;
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    if let Some(d) = c.to_digit(16) {
                        m = m * 16 + d;
                    }
                }
                s.push(char::from_u32(m).unwrap());
            }
            'x' => {
                let m = it.next().unwrap().to_digit(16).unwrap() * 16 + it.next().unwrap().to_digit(16).unwrap();
                s.push(char::from_u32(m).unwrap());
            }
            c => s.push(c),
        }
    }
    s
}
/// The identifiers and numbers of `t` that are in `of`, outside of the regex, without adjacent duplicates
pub fn mentions(t: &TokenStream, of: &[&str]) -> Vec<String> {
    let mut v = vec![];
    mention(t, of, &mut v);
    v.dedup();
    v
}
fn mention(t: &TokenStream, of: &[&str], v: &mut Vec<String>) {
    let mut last = [false, false];
    for t in t.clone() {
        match t {
            TokenTree::Ident(i) => {
                last = [i == "concatcp", false];
                if of.iter().any(|o| i == o) {
                    v.push(i.to_string());
                }
            }
            TokenTree::Punct(p) => last = [false, last[0] && p.as_char() == '!'],
            TokenTree::Group(g) => {
                if !last[1] {
                    mention(&g.stream(), of, v);
                }
                last = [false, false];
            }
            TokenTree::Literal(l) => {
                last = [false, false];
                let s = l.to_string();
                if of.contains(&&s[..]) {
                    v.push(s);
                }
            }
        }
    }
}
/// The same, with the values of variables at the places where these are used
fn inlined(t: &TokenStream, of: &[&str]) -> Vec<String> {
    let mut v = vec![];
    inline(t, of, &mut vec![], &mut v);
    v.dedup();
    v
}
fn inline(t: &TokenStream, of: &[&str], vars: &mut Vec<(String, Vec<String>)>, v: &mut Vec<String>) {
    let toks: Vec<TokenTree> = t.clone().into_iter().collect();
    let is = |i: usize, c: char| matches!(toks.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    let known = vars.len();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Ident(x) if x == "let" => {
                let mut j = i + 1;
                if matches!(toks.get(j), Some(TokenTree::Ident(m)) if m == "mut") {
                    j += 1;
                }
                // let x = ..; or let x: T = ..;
                if let Some(TokenTree::Ident(name)) = toks.get(j) {
                    let end = (j..toks.len()).find(|e| is(*e, ';')).unwrap_or(toks.len());
                    if let Some(eq) = (j + 1..end).find(|e| is(*e, '=')).filter(|e| *e == j + 1 || is(j + 1, ':')) {
                        let mut value = vec![];
                        inline(&toks[eq + 1..end].iter().cloned().collect(), of, vars, &mut value);
                        vars.push((name.to_string(), value));
                        i = end + 1;
                        continue;
                    }
                }
            }
            TokenTree::Ident(x) => {
                let x = x.to_string();
                if of.contains(&&x[..]) {
                    v.push(x.clone());
                }
                if let Some((_, value)) = vars.iter().rev().find(|(n, _)| *n == x) {
                    v.extend(value.iter().cloned());
                }
            }
            TokenTree::Punct(_) => {}
            TokenTree::Group(g) => {
                let regex = i >= 2 && is(i - 1, '!') && matches!(&toks[i - 2], TokenTree::Ident(c) if c == "concatcp");
                if !regex {
                    inline(&g.stream(), of, vars, v);
                }
            }
            TokenTree::Literal(l) => {
                let s = l.to_string();
                if of.contains(&&s[..]) {
                    v.push(s);
                }
            }
        }
        i += 1;
    }
    vars.truncate(known);
}
/// Do the fields get values of the types as in `want`, which is field, type, field, type and so on, in the order of reading?
/// The values are where the fields are, or in variables.
pub fn assigned(t: &TokenStream, of: &[&str], want: &[String]) -> bool {
    if infix(&mentions(t, of), want) {
        return true;
    }
    let types: Vec<String> = want.chunks(2).map(|p| p[1].clone()).collect();
    let look: Vec<&str> = types.iter().map(|t| &t[..]).collect();
    let values = inlined(t, of);
    infix(&mentions(t, &look), &types) && want.chunks(2).all(|p| infix(&values, p))
}
/// Does `v` contain `w` as a run?
pub fn infix(v: &[String], w: &[String]) -> bool {
    w.is_empty() || v.windows(w.len()).any(|x| x == w)
}
/// all tokens
pub fn words(t: &TokenStream) -> Vec<String> {
    let mut v = vec![];
    for t in t.clone() {
        match t {
            TokenTree::Group(g) => {
                v.push("(".to_string());
                v.extend(words(&g.stream()));
                v.push(")".to_string());
            }
            t => v.push(t.to_string()),
        }
    }
    v
}
