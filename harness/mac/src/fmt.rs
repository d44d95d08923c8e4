//! What a format string stands for: an independent reading of the documentation.
use crate::sym::*;
use crate::tok::*;
use proc_macro2::TokenStream;
use quote::ToTokens;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Escaped,
    Unescaped,
}
pub enum Opt {
    None,
    Regex(String),
    Radix(String),
}
pub enum Item {
    Text(String),
    /// part of the regex itself
    Raw(String),
    /// a type (tokens without spaces), or the name of a field
    Placeholder(String, Opt),
}
/// what the text before `:` of a placeholder refers to
pub trait Names {
    fn next(&mut self) -> Option<String>;
    fn index(&mut self, n: &str) -> Option<String>;
    fn name(&mut self, s: &str) -> Option<String>;
    fn complete(&self) -> bool;
}
/// the types of `sscanf!`
pub struct Types {
    pub types: Vec<&'static str>,
    pub used: Vec<bool>,
    pub next: usize,
}
impl Types {
    pub fn new(t: &[&'static str]) -> Self {
        Types { types: t.to_vec(), used: vec![false; t.len()], next: 0 }
    }
    fn take(&mut self, n: usize) -> Option<String> {
        if n >= self.types.len() {
            return None;
        }
        let n = conc(n);
        self.used[n] = true;
        Some(self.types[n].to_string())
    }
}
impl Names for Types {
    fn next(&mut self) -> Option<String> {
        self.next += 1;
        self.take(self.next - 1)
    }
    fn index(&mut self, n: &str) -> Option<String> {
        self.take(number(n)?)
    }
    fn name(&mut self, s: &str) -> Option<String> {
        inline_type(s)
    }
    fn complete(&self) -> bool {
        self.used.iter().all(|u| *u)
    }
}
pub const STR_PATHS: [&str; 6] = ["str", "primitive::str", "std::primitive::str", "::std::primitive::str", "core::primitive::str", "::core::primitive::str"];
/// a type that can stand in a placeholder: a path, or `&str`
pub fn inline_type(s: &str) -> Option<String> {
    let t = syn::parse2::<syn::Type>(s.parse().ok()?).ok()?;
    match &t {
        syn::Type::Path(p) => Some(text_of(&p.to_token_stream())),
        syn::Type::Reference(r) if r.lifetime.is_none() && r.mutability.is_none() => {
            let e = text_of(&r.elem.to_token_stream());
            if STR_PATHS.contains(&&e[..]) {
                Some("&".to_string() + &e)
            } else {
                None
            }
        }
        _ => None,
    }
}
/// Splits a format string. `None`: malformed. Placeholders are given as `(text before the colon, option)`.
fn split(s: &str) -> Option<Vec<Item>> {
    let c: Vec<char> = s.chars().collect();
    let mut items = vec![];
    let mut text = String::new();
    let mut i = 0;
    while i < c.len() {
        let twice = i + 1 < c.len() && c[i + 1] == c[i];
        if c[i] == '{' || c[i] == '}' {
            if twice {
                text.push(c[i]);
                i += 2;
                continue;
            }
            if c[i] == '}' {
                return None;
            }
            items.push(Item::Text(std::mem::take(&mut text)));
            let (n, item) = placeholder(&c[i + 1..])?;
            items.push(item);
            i += 1 + n;
        } else {
            text.push(c[i]);
            i += 1;
        }
    }
    items.push(Item::Text(text));
    Some(items)
}
/// Returns the number of characters up to and including `}`
fn placeholder(c: &[char]) -> Option<(usize, Item)> {
    let mut i = 0;
    let mut name = String::new();
    loop {
        match *c.get(i)? {
            '}' => return Some((i + 1, Item::Placeholder(name, Opt::None))),
            ':' if c.get(i + 1) == Some(&':') => {
                name.push_str("::");
                i += 2;
            }
            ':' => break,
            x => {
                name.push(x);
                i += 1;
            }
        }
    }
    i += 1;
    if *c.get(i)? == '/' {
        let mut r = String::new();
        i += 1;
        loop {
            match *c.get(i)? {
                '/' => break,
                '\\' => {
                    let n = *c.get(i + 1)?;
                    if n != '/' {
                        r.push('\\');
                    }
                    r.push(n);
                    i += 2;
                }
                x => {
                    r.push(x);
                    i += 1;
                }
            }
        }
        if *c.get(i + 1)? != '}' {
            return None;
        }
        if !custom(&r) {
            return None;
        }
        // what only the regex crate allows, and not the syntax that the macro knows, is left open
        assume(regex_syntax::Parser::new().parse(&r).is_ok());
        return Some((i + 2, Item::Placeholder(name, Opt::Regex(r))));
    }
    let mut o = String::new();
    while *c.get(i)? != '}' {
        o.push(c[i]);
        i += 1;
    }
    let ok = match &o[..] {
        "x" | "o" | "b" | "#x" | "x#" | "#o" | "o#" | "#b" | "b#" => true,
        _ => match o.strip_prefix('r') {
            Some(n) => {
                // `+8` is a number as well
                assume(!n.starts_with('+'));
                number(n).is_some_and(|n| n >= 2 && n <= 36)
            }
            None => false,
        },
    };
    if !ok {
        return None;
    }
    Some((i + 1, Item::Placeholder(name, Opt::Radix(o))))
}
fn number(s: &str) -> Option<usize> {
    if s.is_empty() {
        return None;
    }
    let mut n = 0usize;
    for b in s.bytes() {
        if !b.is_ascii_digit() {
            return None;
        }
        n = n.checked_mul(10)?.checked_add((b - b'0') as usize)?;
    }
    Some(n)
}
/// A regex that can stand in a placeholder: it is valid, also within parentheses, and has no groups that capture
fn custom(r: &str) -> bool {
    groups(r) == Some(0) && groups(&format!("({})", r)) == Some(1)
}
/// the number of groups that capture, as the regex crate counts them
pub fn groups(r: &str) -> Option<usize> {
    let h = rs8::parse(r).ok()?;
    Some(h.properties().explicit_captures_len())
}
const RADIX_TYPES: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

/// The items of a format string, or `None` if it has to be rejected
pub fn read(s: &str, names: &mut dyn Names) -> Option<Vec<Item>> {
    let mut items = split(s)?;
    // those with a name or a number come first
    for explicit in [true, false] {
        for i in &mut items {
            if let Item::Placeholder(n, o) = i {
                if explicit == n.is_empty() || (!explicit && n.starts_with('\0')) {
                    continue;
                }
                assume(!n.starts_with('+')); // `+0` is a number as well
                let t = if n.is_empty() {
                    names.next()
                } else if n.bytes().all(|b| b.is_ascii_digit()) {
                    names.index(n)
                } else {
                    names.name(n)
                }?;
                if matches!(o, Opt::Radix(_)) && !RADIX_TYPES.contains(&&t[..]) {
                    return None;
                }
                *n = format!("\0{}", t);
            }
        }
    }
    for i in &mut items {
        if let Item::Placeholder(n, _) = i {
            n.remove(0);
        }
    }
    if !names.complete() {
        return None;
    }
    Some(items)
}

/// Is `parts` the regex of the format string?
pub fn same(parts: &[Part], items: &[Item], open: &str, close: &str, kind: Kind) -> bool {
    let parts: Vec<Part> = parts.iter().map(|p| match p {
        Part::Type(t) if STR_PATHS.contains(&&t[..]) => Part::Type("str".to_string()),
        p => p.clone(),
    }).collect();
    let parts = &parts[..];
    // what is expected, with `None` for the regex of a radix
    let mut want: Vec<Option<Part>> = vec![];
    let text = |want: &mut Vec<Option<Part>>, s: &str| {
        if let Some(Some(Part::Text(t))) = want.last_mut() {
            t.push_str(s);
        } else if !s.is_empty() {
            want.push(Some(Part::Text(s.to_string())));
        }
    };
    text(&mut want, open);
    for i in items {
        match i {
            Item::Text(t) if kind == Kind::Escaped => text(&mut want, &rs8::escape(t)),
            Item::Text(t) | Item::Raw(t) => text(&mut want, t),
            Item::Placeholder(t, o) => {
                text(&mut want, "(");
                match o {
                    Opt::None => want.push(Some(Part::Type(match &t[..] {
                        x if x.starts_with('&') || is_cow(x) || STR_PATHS.contains(&x) => "str".to_string(),
                        x => x.to_string(),
                    }))),
                    Opt::Regex(r) => text(&mut want, r),
                    Opt::Radix(_) => want.push(None),
                }
                text(&mut want, ")");
            }
        }
    }
    text(&mut want, close);
    if want.iter().all(|w| w.is_some()) {
        if parts.len() == want.len() && parts.iter().zip(&want).all(|(p, w)| Some(p) == w.as_ref()) {
            return true;
        }
        // written differently
        let w: Vec<Part> = want.into_iter().flatten().collect();
        let mut types = vec![];
        let (a, b) = (flat(parts, &mut types), flat(&w, &mut types));
        return match (rs8::parse(&a), rs8::parse(&b)) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => kind == Kind::Unescaped,
            _ => false,
        };
    }
    // the regexes of the radixes can be anything
    let mut types = vec![];
    let a = flat(parts, &mut types);
    let mut rest = &a[..];
    let n = want.len();
    for (i, w) in want.iter().enumerate() {
        let w = match w {
            None => continue,
            Some(w) => flat(std::slice::from_ref(w), &mut types),
        };
        if i == 0 {
            match rest.strip_prefix(&w[..]) {
                Some(r) => rest = r,
                None => return false,
            }
        } else if i == n - 1 {
            return rest.ends_with(&w[..]);
        } else {
            match rest.find(&w[..]) {
                Some(k) => rest = &rest[k + w.len()..],
                None => return false,
            }
        }
    }
    true
}
pub fn is_cow(t: &str) -> bool {
    matches!(t.strip_suffix("Cow<str>"), Some("" | "borrow::" | "std::borrow::" | "::std::borrow::" | "alloc::borrow::" | "::alloc::borrow::"))
}
fn flat(parts: &[Part], types: &mut Vec<String>) -> String {
    let mut s = String::new();
    for p in parts {
        match p {
            Part::Text(t) => s.push_str(t),
            Part::Type(t) => {
                let k = match types.iter().position(|x| x == t) {
                    Some(k) => k,
                    None => {
                        types.push(t.clone());
                        types.len() - 1
                    }
                };
                s.push(char::from_u32(0xE000 + k as u32).unwrap());
            }
        }
    }
    s
}
pub fn text_of(t: &TokenStream) -> String {
    let mut s = String::new();
    t.clone().into_iter().for_each(|t| plain(&mut s, &t));
    s
}

#[derive(Clone, Copy, PartialEq)]
pub enum Macro {
    Sscanf,
    Unescaped,
    GetRegex,
}
/// One call of a macro. `literal` is the source of the literal.
pub fn call(m: Macro, literal: &str, types: &[&'static str]) -> Option<(TokenStream, Vec<Item>)> {
    let mut src = String::new();
    if m != Macro::GetRegex {
        src.push_str("input, ");
    }
    src.push_str(literal);
    for t in types {
        src.push_str(", ");
        src.push_str(t);
    }
    let input = tokens(&src);
    let lit = literal_of(literal);
    let out = match m {
        Macro::Sscanf => sscanf(input),
        Macro::Unescaped => sscanf_unescaped(input),
        Macro::GetRegex => sscanf_get_regex(input),
    };
    let mut names = Types::new(types);
    let want = read(&lit, &mut names);
    if let Some(items) = split(&lit).filter(|_| !literal.starts_with('r')) {
        // escape sequences in names and in the options for a radix are left open
        for i in &items {
            if let Item::Placeholder(n, o) = i {
                assume(literal.contains(&format!("{{{}", n)));
                if let Opt::Radix(o) = o {
                    assume(literal.contains(&format!(":{}", o)));
                }
            }
        }
    }
    match want {
        None => {
            reach("rejected");
            check(rejected(&out), "a malformed format string is rejected");
            None
        }
        Some(items) => {
            reach("accepted");
            if rejected(&out) {
                check(false, "a well-formed format string is accepted");
                return None;
            }
            let r = regexes(&out);
            check(r.len() == 1, "one regex");
            let (open, close, kind) = if m == Macro::Unescaped { ("^(?:", ")$", Kind::Unescaped) } else { ("^", "$", Kind::Escaped) };
            check(r.len() == 1 && same(&r[0], &items, open, close, kind), "the regex of the format string");
            Some((out, items))
        }
    }
}

/// `#[sscanf(..)] struct S(TYPES)` with a format string, in the form `attr = literal` or just the literal
pub fn call_struct(attr: &str, literal: &str, types: &[&'static str], kind: Kind) {
    let mut src = format!("#[sscanf({}{})] struct S(", attr, literal);
    for t in types {
        src.push_str(t);
        src.push(',');
    }
    src.push_str(");");
    let input = tokens(&src);
    let lit = literal_of(literal);
    let out = derive(input);
    let mut names = Positions { taken: vec![false; types.len()], types };
    match read(&lit, &mut names) {
        None => {
            reach("rejected");
            check(rejected(&out), "a malformed format string is rejected");
        }
        Some(items) => {
            reach("accepted");
            if rejected(&out) {
                check(false, "a well-formed format string is accepted");
                return;
            }
            let r = regexes(&out);
            check(r.len() == 1 && same(&r[0], &items, "", "", kind), "the regex of the format string");
        }
    }
}
/// The text that a literal stands for, as syn reads it
pub fn literal_of(literal: &str) -> String {
    match syn::parse_str::<syn::LitStr>(literal) {
        Ok(l) => {
            assume(l.suffix().is_empty());
            l.value()
        }
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// the fields of a tuple struct
struct Positions<'a> {
    taken: Vec<bool>,
    types: &'a [&'static str],
}
impl Positions<'_> {
    fn take(&mut self, n: usize) -> Option<String> {
        if n >= self.taken.len() || self.taken[n] {
            return None;
        }
        self.taken[n] = true;
        Some(self.types[n].to_string())
    }
}
impl Names for Positions<'_> {
    fn next(&mut self) -> Option<String> {
        let n = self.taken.iter().position(|t| !*t)?;
        self.take(n)
    }
    fn index(&mut self, n: &str) -> Option<String> {
        match n {
            "0" => self.take(0),
            "1" => self.take(1),
            "2" => self.take(2),
            _ => None,
        }
    }
    fn name(&mut self, _: &str) -> Option<String> {
        None
    }
    fn complete(&self) -> bool {
        self.taken.iter().all(|t| *t)
    }
}
/// HIR of a regex
pub fn hir(r: &str) -> Option<rs8::hir::Hir> {
    rs8::parse(r).ok()
}

/// Up to `w` adjacent characters of the literal are replaced by any others (fewer or as many)
pub fn window(lit: &str, w: usize, table: &'static [bool; 256]) -> String {
    let start = lit.find('"').unwrap() + 1;
    let end = lit.rfind('"').unwrap();
    let i = start + fork(end - start - w + 1);
    assume(lit.is_char_boundary(i) && lit.is_char_boundary(i + w));
    let d = fork(w + 1);
    format!("{}{}{}", &lit[..i], table_str(w - d, table), &lit[i + w..])
}
/// everything that does not end the literal
pub static RAW: [bool; 256] = {
    let mut t = [true; 256];
    t[b'"' as usize] = false;
    t
};
pub const MACROS: [Macro; 3] = [Macro::Sscanf, Macro::Unescaped, Macro::GetRegex];

/// Is the code that the macros generate of the form that these checks can read? Only the form matters here:
/// which regex and which values are right is for the checks.
pub fn readable() -> bool {
    let types = |t: &TokenStream| {
        let mut v: Vec<String> = vec![];
        for p in regexes(t).concat() {
            if let Part::Type(t) = p {
                v.push(t);
            }
        }
        v.sort();
        v
    };
    let all = |t: &TokenStream, of: &[&str]| {
        let mut v = mentions(t, of);
        v.sort();
        v.dedup();
        let mut w = of.to_vec();
        w.sort();
        v == w
    };
    let strings = |w: &[&str]| w.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let one = |t: &TokenStream| regexes(t).len() == 1 && types(t) == ["T0", "T1"];
    for f in [sscanf, sscanf_unescaped] {
        let o = f(tokens("input, \"a{}b{}\", T0, T1"));
        if !one(&o) || rejected(&o) || !all(&o, &["T0", "T1"]) || !infix(&mentions(&o, &["T0", "T1"]), &strings(&["T0", "T1"])) {
            return false;
        }
    }
    if !one(&sscanf_get_regex(tokens("\"a{}b{}\", T0, T1"))) {
        return false;
    }
    for (s, w) in [
        ("#[sscanf(\"a{b}{}\")] struct S { a: T0, b: T1 }", ["b", "T1", "a", "T0"]),
        ("#[sscanf(format = \"{}{a}\")] struct S { a: T0, b: T1 }", ["b", "T1", "a", "T0"]),
        ("enum E { #[sscanf(\"{a}{}\")] A { a: T0, b: T1 } }", ["a", "T0", "b", "T1"]),
    ] {
        let o = derive(tokens(s));
        if !one(&o) || rejected(&o) || !all(&o, &["a", "T0", "b", "T1"]) || !assigned(&o, &w, &strings(&w)) {
            return false;
        }
    }
    let o = derive(tokens("#[sscanf(\"a{1}{0}\")] struct S(T0, T1);"));
    let e = derive(tokens("enum E { #[sscanf(\"x{}\")] A(T0), #[sscanf(\"y{}\")] B(T1) }"));
    if !one(&o) || !all(&o, &["0", "T0", "1", "T1"]) || !assigned(&o, &["0", "T0", "1", "T1"], &strings(&["1", "T1", "0", "T0"])) || !one(&e) {
        return false;
    }
    rejected(&sscanf(tokens("input, \"{\", T0"))) && rejected(&derive(tokens("struct S(T0);")))
}

/// a regex with groups inside of others, repetitions, alternations
pub fn nested_regex(depth: usize) -> String {
    let mut s = ["(b)", "(?P<n>b)", "(?:b)", r"\(b\)", "[(]b"][fork(5)].to_string();
    for _ in 0..depth {
        s = match fork(9) {
            0 => format!("(?:{s})*"),
            1 => format!("{s}+?"),
            2 => format!("{s}|c"),
            3 => format!("(?:c|d{s})"),
            4 => format!("c{s}"),
            5 => format!("(?:{s}){{2,}}?"),
            6 => format!("{s}??"),
            7 => format!("(?i:{s})"),
            _ => format!("(?:{s}){{0,2}}c"),
        };
    }
    s
}
