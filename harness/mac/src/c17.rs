//! Which type or field each placeholder belongs to.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;

const TYPES: [&str; 3] = ["T0", "T1", "T2"];
static INDEX: [bool; 256] = table(b"0123T:");

/// `sscanf!` with any number of types and any placeholders
fn types() {
    let n = fork(4);
    let k = fork(param(0) + 1);
    let mut s = String::from("\"");
    for i in 0..k {
        s.push_str(["", "-", "+"][i % 3]);
        s.push('{');
        s.push_str(table_str(fork(param(1) + 1), &INDEX));
        s.push('}');
    }
    s.push('"');
    let m = [Macro::Sscanf, Macro::Unescaped, Macro::GetRegex][param(2)];
    if let Some((out, items)) = call(m, &s, &TYPES[..n]) {
        let want = order(&items);
        if m != Macro::GetRegex {
            let mut w: Vec<String> = want.iter().map(|w| w.rsplit(':').next().unwrap().to_string()).collect();
            w.dedup();
            let of: Vec<&str> = w.iter().map(|s| &s[..]).collect();
            check(infix(&mentions(&out, &of), &w), "the values are in the order of the placeholders");
        }
    }
}
fn order(items: &[Item]) -> Vec<String> {
    items
        .iter()
        .filter_map(|i| match i {
            Item::Placeholder(t, _) => Some(t.clone()),
            _ => None,
        })
        .collect()
}

struct Fields {
    names: Vec<&'static str>,
    taken: Vec<bool>,
    used: Vec<usize>,
}
impl Fields {
    fn take(&mut self, i: usize) -> Option<String> {
        if i >= self.taken.len() || self.taken[i] {
            return None;
        }
        self.taken[i] = true;
        self.used.push(i);
        Some(TYPES[i].to_string())
    }
}
impl Names for Fields {
    fn next(&mut self) -> Option<String> {
        let i = self.taken.iter().position(|t| !*t)?;
        self.take(i)
    }
    fn index(&mut self, n: &str) -> Option<String> {
        match n {
            "0" => self.take(0),
            "1" => self.take(1),
            "2" => self.take(2),
            _ => None,
        }
    }
    fn name(&mut self, s: &str) -> Option<String> {
        let i = self.names.iter().position(|n| *n == s)?;
        self.take(i)
    }
    fn complete(&self) -> bool {
        self.taken.iter().all(|t| *t)
    }
}
static NAME: [bool; 256] = table(b"abc012");

/// one struct or variant: its source, and what it has to become
fn body(fields: usize, k: usize, defaults: bool) -> (String, bool, String, Fields, Option<Vec<Item>>) {
    let named = fork(2) == 1;
    let names: Vec<&'static str> = if named { ["a", "b", "c"][..fields].to_vec() } else { vec![] };
    let mut taken = vec![false; fields];
    let mut src = String::new();
    for i in 0..fields {
        if defaults && fork(2) == 1 {
            taken[i] = true;
            src.push_str("#[sscanf(default)] ");
        }
        if named {
            src.push_str(names[i]);
            src.push_str(": ");
        }
        src.push_str(TYPES[i]);
        src.push_str(", ");
    }
    let mut f = String::new();
    for i in 0..k {
        f.push_str(["", "-", "+"][i % 3]);
        f.push('{');
        f.push_str(table_str(fork(2), &NAME));
        f.push('}');
    }
    let mut fs = Fields { names, taken, used: vec![] };
    let items = read(&f, &mut fs);
    (src, named, f, fs, items)
}
fn expected(fs: &Fields, items: &[Item]) -> Vec<String> {
    let mut w = vec![];
    for t in order(items) {
        let i = TYPES.iter().position(|x| *x == t).unwrap();
        w.push(if fs.names.is_empty() { i.to_string() } else { fs.names[i].to_string() });
        w.push(t);
    }
    w
}
/// fields whose values come from the placeholders: only these are looked at
fn interesting(fs: &Fields) -> Vec<&'static str> {
    let mut v = vec![];
    for i in &fs.used {
        v.push(TYPES[*i]);
        v.push(if fs.names.is_empty() { ["0", "1", "2"][*i] } else { fs.names[*i] });
    }
    v
}

fn structs() {
    let fields = fork(4);
    let k = fork(param(0) + 1);
    let (src, named, f, fs, items) = body(fields, k, param(1) == 1);
    let esc = fork(2) == 0;
    let attr = if esc { "format" } else { "format_unescaped" };
    let src = if named { format!("#[sscanf({attr} = \"{f}\")] struct S {{ {src} }}") } else { format!("#[sscanf({attr} = \"{f}\")] struct S({src});") };
    let out = derive(tokens(&src));
    match items {
        None => {
            reach("rejected");
            check(rejected(&out), "placeholders that do not fit the fields are rejected");
        }
        Some(items) => {
            reach("accepted");
            if rejected(&out) {
                check(false, "placeholders that fit the fields are accepted");
                return;
            }
            let r = regexes(&out);
            check(r.len() == 1 && same(&r[0], &items, "", "", if esc { Kind::Escaped } else { Kind::Unescaped }), "the regex of the struct");
            check(assigned(&out, &interesting(&fs), &expected(&fs, &items)), "each field gets the value of its placeholder");
        }
    }
}

fn enums() {
    let n = fork(2) + 1;
    let mut src = String::from("enum E { ");
    let mut all: Option<Vec<Item>> = Some(vec![]);
    let mut orders = vec![];
    let mut first = true;
    for v in 0..n {
        let kind = fork(4);
        if kind == 1 {
            src.push_str("#[sscanf(skip)] ");
        }
        if kind >= 2 {
            let fields = fork(param(1) + 1);
            let (s, named, f, fs, items) = body(fields, fork(param(0) + 1), false);
            let name = ["A", "B", "C"][v];
            let attr = if kind == 2 { "format" } else { "format_unescaped" };
            if named {
                src.push_str(&format!("#[sscanf({attr} = \"{f}\")] {name} {{ {s} }}, "));
            } else if fields == 0 {
                src.push_str(&format!("#[sscanf({attr} = \"{f}\")] {name}, "));
            } else {
                src.push_str(&format!("#[sscanf({attr} = \"{f}\")] {name}({s}), "));
            }
            match items {
                None => all = None,
                Some(items) => {
                    orders.push((interesting(&fs), expected(&fs, &items)));
                    if let Some(all) = &mut all {
                        all.push(Item::Raw(if first { "(".into() } else { "|(".into() }));
                        for i in items {
                            all.push(match i {
                                Item::Text(t) if kind == 2 => Item::Raw(rs8::escape(&t)),
                                i => i,
                            });
                        }
                        all.push(Item::Raw(")".into()));
                    }
                    first = false;
                }
            }
        } else {
            src.push_str(["A, ", "B(u8), ", "C, "][v]);
        }
    }
    src.push('}');
    let out = derive(tokens(&src));
    if first {
        all = None; // no variant that could be made
    }
    match all {
        None => {
            reach("rejected");
            check(rejected(&out), "variants that do not fit are rejected");
        }
        Some(items) => {
            reach("accepted");
            if rejected(&out) {
                check(false, "variants that fit are accepted");
                return;
            }
            let r = regexes(&out);
            check(r.len() == 1 && same(&r[0], &items, "(?:", ")", Kind::Unescaped), "the regex of the enum");
            for (i, w) in orders {
                check(assigned(&out, &i, &w) || n > 1, "each field gets the value of its placeholder");
            }
        }
    }
}

const WHOLE: [(&[&str], &str); 4] = [
    (&["ab", "a_1", "Ab"], "{ab}-{a_1}+{Ab}"),
    (&["ab", "a_1", "Ab"], "{a_1}{}{ab}"),
    (&[], "{2}-{0}+{1}"),
    (&[], "{}{1}{}"),
];
static CHARS: [bool; 256] = table(b" abA_012#+r.&'{}-T");

/// formats in which a few characters differ from one that fits
fn windows() {
    let (names, f) = WHOLE[param(0)];
    let w = param(1);
    let n = f.len() - w + 1;
    let (from, to) = (n * param(3) / param(2), n * (param(3) + 1) / param(2));
    let i = from + fork(to - from);
    let d = fork(w + 2);
    let f = format!("{}{}{}", &f[..i], table_str(w + 1 - d, &CHARS), &f[i + w..]);
    let variant = fork(2) == 1;
    let mut fs = Fields { names: names.to_vec(), taken: vec![false; 3], used: vec![] };
    let items = read(&f, &mut fs);
    let body = if names.is_empty() { "(T0, T1, T2)".to_string() } else { format!("{{ {}: T0, {}: T1, {}: T2 }}", names[0], names[1], names[2]) };
    let src = if variant {
        format!("enum E {{ #[sscanf(\"{f}\")] A {body} }}")
    } else {
        format!("#[sscanf(\"{f}\")] struct S {body}{}", if names.is_empty() { ";" } else { "" })
    };
    let out = derive(tokens(&src));
    match items {
        None => {
            reach("rejected");
            check(rejected(&out), "placeholders that do not fit the fields are rejected");
        }
        Some(items) => {
            reach("accepted");
            if rejected(&out) {
                check(false, "placeholders that fit the fields are accepted");
                return;
            }
            let r = regexes(&out);
            check(r.len() == 1 && same(&r[0], &items, if variant { "(?:(" } else { "" }, if variant { "))" } else { "" }, Kind::Escaped), "the regex of the struct");
            let mut look = vec![];
            for i in &fs.used {
                look.push(TYPES[*i]);
                look.push(if names.is_empty() { ["0", "1", "2"][*i] } else { names[*i] });
            }
            let mut want = vec![];
            for t in order(&items) {
                let i = TYPES.iter().position(|x| *x == t).unwrap();
                want.push(if names.is_empty() { i.to_string() } else { names[i].to_string() });
                want.push(t);
            }
            check(assigned(&out, &look, &want), "each field gets the value of its placeholder");
        }
    }
}

crate::harness! {
    fn c17_readable() { check(crate::fmt::readable(), "readable") }
    fn c17_types() { types() }
    fn c17_structs() { structs() }
    fn c17_enums() { enums() }
    fn c17_windows() { windows() }
}
