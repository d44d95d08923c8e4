//! `autogen`: the text of a variant, for any name.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;

static UPPER: [bool; 256] = table(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ");
static LOWER: [bool; 256] = table(b"abcdefghijklmnopqrstuvwxyz");
static START: [bool; 256] = table(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_");
static NEXT: [bool; 256] = table(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_");

fn same_text(attr: &str, ident: &str, want: &str) {
    let src = format!("#[sscanf({attr})] enum E {{ #[sscanf(skip)] Other, {ident}, #[sscanf(\"last\")] Last(u8) }}");
    let src = src.replace("(\"last\")", "(\"l{}\")");
    let out = derive(tokens(&src));
    if rejected(&out) {
        check(false, "the enum is accepted");
        return;
    }
    reach("accepted");
    let r = regexes(&out);
    let items = [Item::Raw(format!("(?:({})|(l", want)), Item::Placeholder("u8".into(), Opt::None), Item::Raw("))".into())];
    check(r.len() == 1 && same(&r[0], &items, "", "", Kind::Unescaped), "the variant has the text of its name in this case");
}
/// names of words: an upper case letter and some in lower case
fn words() {
    let n = fork(param(0)) + 1;
    let mut ident = String::new();
    let mut words: Vec<(String, String)> = vec![]; // lower and upper
    for _ in 0..n {
        let k = fork(param(1)) + 1;
        let w = format!("{}{}", table_str(1, &UPPER), table_str(k, &LOWER));
        words.push((w.to_ascii_lowercase(), w.to_ascii_uppercase()));
        // SomeName, some_name or SOME_NAME
        let w = [w.clone(), w.to_ascii_lowercase(), w.to_ascii_uppercase()][param(3)].clone();
        if param(3) > 0 && !ident.is_empty() {
            ident.push('_');
        }
        ident.push_str(&w);
    }
    assume(ident != "Self" && ident != "Other" && ident != "Last");
    assume(syn::parse_str::<syn::Ident>(&ident).is_ok());
    let cap = |w: &(String, String)| format!("{}{}", &w.1[..1], &w.0[1..]);
    let lower: Vec<&str> = words.iter().map(|w| &w.0[..]).collect();
    let upper: Vec<&str> = words.iter().map(|w| &w.1[..]).collect();
    let pascal: Vec<String> = words.iter().map(cap).collect();
    let (case, text) = match param(2) {
        0 => ("lower case", lower.join(" ")),
        1 => ("UPPER CASE", upper.join(" ")),
        2 => ("lowercase", lower.concat()),
        3 => ("UPPERCASE", upper.concat()),
        4 => ("PascalCase", pascal.concat()),
        5 => ("camelCase", format!("{}{}", lower[0], pascal[1..].concat())),
        6 => ("snake_case", lower.join("_")),
        7 => ("SCREAMING_SNAKE_CASE", upper.join("_")),
        8 => ("kebab-case", lower.join("-")),
        _ => ("SCREAMING-KEBAB-CASE", upper.join("-")),
    };
    same_text(&format!("autogen = \"{case}\""), &ident, &rs8::escape(&text));
}
/// names as they are
fn names() {
    let s = format!("{}{}", table_str(1, &START), table_str(fork(param(0) + 1), &NEXT));
    assume(s != "_" && s != "Other" && s != "Last");
    // no keywords
    assume(syn::parse_str::<syn::Ident>(&s).is_ok());
    let (attr, text) = match param(1) {
        0 => ("autogen", s.clone()),
        1 => ("autogenerate = \"CaseSensitive\"", s.clone()),
        _ => ("autogen = \"CaseInsensitive\"", format!("(?i:{})", s)),
    };
    same_text(attr, &s, &text);
}
/// names with digits and underscores: what a word is does not matter without separators
fn flat() {
    let s = format!("{}{}", table_str(1, &UPPER), table_str(fork(param(0) + 1), &NEXT));
    assume(s != "Other" && s != "Last" && s != "Self");
    let t: String = s.bytes().filter(|c| *c != b'_').map(|c| c as char).collect();
    let (case, text) = if param(1) == 0 { ("lowercase", t.to_ascii_lowercase()) } else { ("UPPERCASE", t.to_ascii_uppercase()) };
    same_text(&format!("autogen = \"{case}\""), &s, &text);
}
crate::harness! {
    fn c14_flat() { flat() }
    fn c14_readable() { check(crate::fmt::readable(), "readable") }
    fn c14_words() { words() }
    fn c14_names() { names() }
}
