//! Literal text of formats, for any text.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;
use rs8::hir::{Hir, Look};

static META: [bool; 256] = table(b"\\.+*?()[]{}|^$#&-~a\" ");
static HEX: [bool; 256] = table(b"0123456789abcdefABCDEF_");

/// the literal for a text: 0 raw, 1 ordinary
fn literal(s: &str, form: usize) -> String {
    let mut l = String::new();
    for c in s.chars() {
        if c == '{' || c == '}' {
            l.push(c);
        } else if form == 1 && (c == '"' || c == '\\') {
            l.push('\\');
        }
        l.push(c);
    }
    l
}
fn quoted(l: &str, form: usize) -> String {
    if form == 0 {
        format!("r##\"{}\"##", l)
    } else {
        format!("\"{}\"", l)
    }
}
fn text() {
    let n = fork(param(0) + 1);
    let s = match param(1) {
        0 => any_str(n),
        1 => ascii_str(n),
        _ => table_str(n, &META),
    };
    let form = param(2);
    assume(s.bytes().all(|b| b != b'\r'));
    if form == 0 {
        assume(!s.contains("\"##"));
    }
    expect(&quoted(&literal(s, form), form), s);
}
/// escape sequences with any digits
fn escapes() {
    let l = match param(0) {
        0 => format!("\\x{}", table_str(2, &HEX)),
        1 => format!("\\u{{{}}}", table_str(fork(param(1) + 1), &HEX)),
        2 => format!("a\\{}b", ascii_str(1)),
        _ => format!("\\{}\\{}", ascii_str(1), ascii_str(1)),
    };
    let l = format!("\"{}\"", l);
    tokens(&l);
    let s = literal_of(&l);
    assume(!s.contains(|c| c == '{' || c == '}'));
    expect(&l, &s);
}
fn expect(l: &str, s: &str) {
    let src = match param(3) {
        0 => format!("input, {}", l),
        1 => l.to_string(),
        _ => format!("#[sscanf({})] struct S;", l),
    };
    let t = tokens(&src);
    let out = match param(3) {
        0 => sscanf(t),
        1 => sscanf_get_regex(t),
        _ => derive(t),
    };
    // a raw literal without a name is an unescaped format of a derive
    if rejected(&out) {
        check(false, "a format without placeholders is accepted");
        return;
    }
    reach("accepted");
    let r = regexes(&out);
    check(r.len() == 1, "one regex");
    let mut want = vec![];
    if param(3) != 2 {
        want.push(Hir::look(Look::Start));
    }
    want.push(Hir::literal(s.as_bytes().to_vec()));
    if param(3) != 2 {
        want.push(Hir::look(Look::End));
    }
    let ok = match &r[0][..] {
        [Part::Text(t)] => hir(t) == Some(Hir::concat(want)),
        [] => s.is_empty(),
        _ => false,
    };
    check(ok, "the regex is the text itself");
}
/// text around and between placeholders
fn between() {
    let n = param(0);
    let s: Vec<&str> = (0..3).map(|_| table_str(fork(n + 1), &META)).collect();
    let mut l = String::new();
    for i in 0..3 {
        assume(s[i].bytes().all(|b| b != b'\r' && b != b'"'));
        l.push_str(&literal(s[i], 0));
        l.push_str(["{}", "{u16}", ""][i]);
    }
    call([Macro::Sscanf, Macro::GetRegex][param(1)], &quoted(&l, 0), &["char"]);
}
crate::harness! {
    fn c04_readable() { check(crate::fmt::readable(), "readable") }
    fn c04_text() { text() }
    fn c04_escapes() { escapes() }
    fn c04_between() { between() }
}
