//! Regexes of placeholders.
use crate::fmt::*;
use crate::sym::*;

const TEMPLATES: &[(&str, &[&'static str])] = &[
    ("r\"{:/a|b/}\"", &["u8"]),
    ("r\"x{:/[a-f\\d]{2,3}/}{u8:/(?:a\\/b)?/}\"", &["&str"]),
    ("\"{:/\\\\/\\\\w+[^}]/}.{0}\"", &["String"]),
    ("r#\"{:/(?i:ab)\\(/}|{:/.*?/}\"#", &["char", "&str"]),
    ("r\"{:/[/\\]{}]\\\\/}\"", &["u8"]),
];
static CHARS: [bool; 256] = table(b"/\\(?:)a|[]{}+");
static FLAGS: [bool; 256] = table(b"(?ix)# P<n>");

fn go(form: usize, lit: &str, types: &[&'static str]) {
    match form {
        0 | 1 => {
            call([Macro::Sscanf, Macro::Unescaped][form], lit, types);
        }
        2 => call_struct("format = ", lit, types, Kind::Escaped),
        _ => call_struct("format_unescaped = ", lit, types, Kind::Unescaped),
    }
}
fn formats() {
    let n = fork(param(1) + 1);
    let s = table_str(n, if param(3) == 0 { &CHARS } else { &FLAGS });
    let lit = match param(0) {
        0 => format!("r\"a{{:/{}/}}b\"", s),
        1 => format!("\"{{:/{}/}}\"", s),
        _ => format!("r#\"{{:/(?:{}/}}{{}}\"#", s),
    };
    go(param(2), &lit, if param(0) == 2 { &["&str", "u8"] } else { &["u8"] });
}
fn windows() {
    let (lit, types) = TEMPLATES[param(0)];
    go(param(2), &window(lit, param(1), &RAW), types);
}
fn nested() {
    let s = nested_regex(param(0));
    go(param(1), &format!("r\"a{{:/{}/}}b\"", s), &["u8"]);
}
crate::harness! {
    fn c13_nested() { nested() }
    fn c13_readable() { check(crate::fmt::readable(), "readable") }
    fn c13_formats() { formats() }
    fn c13_windows() { windows() }
}
