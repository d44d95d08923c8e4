//! Unescaped formats: the text outside of placeholders is a regex.
use crate::fmt::*;
use crate::sym::*;

const TEMPLATES: &[(&str, &[&'static str])] = &[
    ("r\"a|b{}(?:c|d){{2}}[{{}}]\"", &["u8"]),
    ("r#\"(?:a{}){{0,1}}\\{{\\}}b*\"#", &["char"]),
    ("\"\\\\d+{:/x|y/}|\\\\w{}?\"", &["char", "u16"]),
    ("r\"^{}$|.{{3,}}.\\.\"", &["i8"]),
];
static CHARS: [bool; 256] = table(b"{}\\|.(2a)");

/// the call forms: macro, attribute with a name, attribute without
fn go(form: usize, lit: &str, types: &[&'static str]) {
    match form {
        0 => {
            call(Macro::Unescaped, lit, types);
        }
        1 => call_struct("format_unescaped = ", lit, types, Kind::Unescaped),
        _ => call_struct("", lit, types, if lit.starts_with('r') { Kind::Unescaped } else { Kind::Escaped }),
    }
}
fn formats() {
    let n = fork(param(1) + 1);
    let s = table_str(n, &CHARS);
    let (a, b) = [("r\"", "\""), ("r#\"", "\"#"), ("\"", "\"")][param(0)];
    go(param(2), &format!("{a}{s}{b}"), &["u8"][..param(3)]);
}
fn windows() {
    let (lit, types) = TEMPLATES[param(0)];
    go(param(2), &window(lit, param(1), &RAW), types);
}
crate::harness! {
    fn c12_readable() { check(crate::fmt::readable(), "readable") }
    fn c12_formats() { formats() }
    fn c12_windows() { windows() }
}
