//! `sscanf_get_regex!`: the regex of the format that it is given.
use crate::fmt::*;
use crate::sym::*;

const TEMPLATES: &[(&str, &[&str])] = &[
    ("r#\"a.{}#(b){u8:x}c{1:/[a-z]+/}\"#", &["u8", "&str"]),
    ("\"{}\\\\{}$|^{0}\\n.*\"", &["u64", "char"]),
    ("r\"{std::u8}+[{&str}]{Cow<str>:/a\\/b/}?\"", &[]),
];
static CHARS: [bool; 256] = table(b"{}:0a.#\\|$");

fn formats() {
    let n = fork(param(1) + 1);
    let s = table_str(n, &CHARS);
    let (a, b) = [("r\"", "\""), ("r#\"", "\"#"), ("r##\"", "\"##"), ("\"", "\"")][param(0)];
    call(Macro::GetRegex, &format!("{a}{s}{b}"), &["u8"]);
}
fn windows() {
    let (lit, types) = TEMPLATES[param(0)];
    call(Macro::GetRegex, &window(lit, param(1), &RAW), types);
}
crate::harness! {
    fn c11_readable() { check(crate::fmt::readable(), "readable") }
    fn c11_formats() { formats() }
    fn c11_windows() { windows() }
}
