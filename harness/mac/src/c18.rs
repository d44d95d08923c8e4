//! Format strings: which ones are accepted, and the regex that they become.
use crate::fmt::*;
use crate::sym::*;

static STRUCTURE: [bool; 256] = table(b"{}:/0a.");
static OPTIONS: [bool; 256] = table(b"{}:#xob");
static RADIX: [bool; 256] = table(b"r0123456789");
static REGEX: [bool; 256] = table(b"/\\(?:)a|x#");
static COOKED: [bool; 256] = table(b"\\{}nx7du0a:/");
static TYPES: [bool; 256] = table(b"u8:&strCow<>' a");
fn any_macro(lit: &str, types: &[&'static str]) {
    match param(2) {
        3 => call_struct("format = ", lit, types, Kind::Escaped),
        4 => call_struct("format_unescaped = ", lit, types, Kind::Unescaped),
        m => {
            call(MACROS[m], lit, types);
        }
    }
}
fn formats() {
    let (mode, len) = (param(0), param(1));
    let n = fork(len + 1);
    let raw = |s: &str| format!("r\"{}\"", s);
    let (s, types): (String, &[&str]) = match mode {
        0 => (raw(table_str(n, &RAW)), &["u8"]),
        1 => (raw(table_str(n, &STRUCTURE)), &["u8", "char"]),
        2 => (raw(table_str(n, &OPTIONS)), &["u8"]),
        3 => (format!("\"{{:{}}}\"", table_str(n, &RADIX)), &["i16"]),
        4 => (raw(&format!("a{{:/{}/}}b", table_str(n, &REGEX))), &["u8"]),
        5 => (format!("\"{}\"", table_str(n, &COOKED)), &["u8"]),
        6 => (raw(&format!("{{{}}}", table_str(n, &TYPES))), &[]),
        7 => {
            let s = any_str(n);
            assume(s.bytes().all(|b| b != b'"'));
            (format!("r#\"{}\"#", s), &[])
        }
        _ => (raw(&format!("{{}}{{{}}}{{{}}}", table_str(n, &DIGITS), table_str(fork(2), &DIGITS))), &["u8", "i8", "char"]),
    };
    any_macro(&s, types);
}
static DIGITS: [bool; 256] = table(b"0123456789");

const TEMPLATES: &[(&str, &[&str])] = &[
    ("r\"a{}b{u8:x}c{1:/[a-z]+/}\"", &["u8", "&str"]),
    ("\"{{{:#o}}}{0}.*\"", &["u64"]),
    ("\"x{std::u8}{&str}{Cow<str>:/a\\\\/b/}\"", &[]),
    ("r##\"{:r16}{i8:b#}{:o}\"##", &["i32", "usize"]),
    ("\"[{char:/\\\\d|\\\\//}]{::std::string::String}\"", &[]),
];
/// a few characters of a format string are any characters
fn windows() {
    let (lit, types) = TEMPLATES[param(0)];
    any_macro(&window(lit, param(1), &RAW), types);
}

fn nested() {
    let s = nested_regex(param(0));
    any_macro(&format!("r\"{{:/{}/}}-\"", s), &["char"]);
}
crate::harness! {
    fn c18_nested() { nested() }
    fn c18_readable() { check(crate::fmt::readable(), "readable") }
    fn c18_formats() { formats() }
    fn c18_windows() { windows() }
}
