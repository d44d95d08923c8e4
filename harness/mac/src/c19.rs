//! `#[sscanf(..)]`: which attributes are accepted where, and what they mean.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;

const NAMES: [&str; 11] = ["format", "format_unescaped", "transparent", "skip", "autogen", "autogenerate", "default", "map", "filter_map", "from", "try_from"];
const STRUCT: [&str; 3] = ["format", "format_unescaped", "transparent"];
const VARIANT: [&str; 4] = ["format", "format_unescaped", "transparent", "skip"];
const ENUM: [&str; 2] = ["autogen", "autogenerate"];
const FIELD: [&str; 5] = ["default", "map", "filter_map", "from", "try_from"];
const CONTEXTS: [&[&str]; 4] = [&STRUCT, &VARIANT, &ENUM, &FIELD];
const CASES: [&str; 12] = ["lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE", "CaseSensitive", "CaseInsensitive"];
const VALUES: [&str; 20] = ["", "=", "=\"a.{}\"", "=r\"a.{}\"", "=\"a.{\"", "=5", "=u16", "=|x: u16| x as T0", "=|x| x", "=|| 1", "=|x: u16, y: u8| x", "=\"CaseSensitive\"", "=\"snake_case\"", "=b\"a.{}\"", "=&str", "=Gen<u8>", "=a::Gen<'static, (u8, [T; 2])>", "=r#\"a.{}\"#", "=r###\"a.{}\"###", "=br\"a.{}\""];
const FORMATS: [&str; 4] = ["=\"a.{}\"", "=r\"a.{}\"", "=r#\"a.{}\"#", "=r###\"a.{}\"###"];
/// the ones of these that fit the name
fn fits(name: &str, value: &str) -> bool {
    match name {
        "format" | "format_unescaped" => FORMATS.contains(&value),
        "transparent" => value.is_empty(),
        "skip" => {
            assume(value.is_empty());
            true
        }
        "autogen" | "autogenerate" => value.is_empty() || value == "=\"CaseSensitive\"" || value == "=\"snake_case\"",
        "default" => value != "=" && value != "=&str" && !value.contains("Gen"),
        "map" | "filter_map" => value == "=|x: u16| x as T0",
        _ => value == "=u16" || value == "=&str" || value.contains("Gen"),
    }
}
fn values(name: &str, value: &str) {
    // `&str` is no expression, but for those that take no expression that makes no difference
    assume(!(value == "=&str" && name == "skip"));
}

/// the source with the attributes `a` on a struct, variant, enum or field
fn source(context: usize, a: &str, fields: &str) -> String {
    match context {
        0 => format!("{a} struct S({fields});"),
        1 => format!("enum E {{ {a} A({fields}), #[sscanf(\"last\")] Last }}"),
        2 => format!("{a} enum E {{ AbCd, #[sscanf(\"last\")] Last }}"),
        _ => format!("#[sscanf(\"a.{{}}\")] struct S({a} {fields});"),
    }
}
/// what the attribute turns it into
fn regex(context: usize, a: Option<(&str, &str)>) -> Option<Vec<Item>> {
    let ph = |t: &str| Item::Placeholder(t.into(), Opt::None);
    let raw = |t: &str| Item::Raw(t.into());
    let body = |name: &str, ty: &str| match name {
        "format" => vec![raw("a\\."), ph(ty)],
        "format_unescaped" => vec![raw("a."), ph(ty)],
        _ => vec![ph(ty)],
    };
    match context {
        0 => Some(body(a?.0, "T0")),
        1 => match a {
            None | Some(("skip", _)) => Some(vec![raw("(?:(last))")]),
            Some((n, _)) => {
                let mut v = vec![raw("(?:(")];
                v.extend(body(n, "T0"));
                v.push(raw(")|(last))"));
                Some(v)
            }
        },
        2 => Some(vec![raw(match a {
            None => "(?:(last))",
            Some((_, v)) if v.contains("snake") => "(?:(ab_cd)|(last))",
            Some(_) => "(?:(AbCd)|(last))",
        })]),
        _ => match a {
            None => Some(body("format", "T0")),
            // no value is left for the placeholder
            Some(("default", _)) => None,
            Some((_, "=|x: u16| x as T0")) => Some(body("format", "u16")),
            Some((_, v)) => Some(body("format", &v[1..].replace(' ', ""))),
        },
    }
}
fn decide(src: &str, want: Option<Vec<Item>>) {
    strsim::close_at(if param(3) == 0 { usize::MAX } else { fork(12) });
    let out = derive(tokens(src));
    match want {
        None => {
            reach("rejected");
            check(rejected(&out), "attributes of another form are rejected");
        }
        Some(items) => {
            reach("accepted");
            if rejected(&out) {
                check(false, "attributes of the documented form are accepted");
                return;
            }
            let r = regexes(&out);
            check(r.len() == 1 && same(&r[0], &items, "", "", Kind::Escaped), "the regex that the attributes ask for");
        }
    }
}
/// every name with every value, and without the name
fn pairs() {
    let context = param(0);
    let k = fork(NAMES.len() + 1);
    let value = VALUES[fork(VALUES.len())];
    if k == NAMES.len() {
        // the name can be left out for format strings
        assume(value.len() > 1);
        let text = &value[1..];
        let want = match (context, text) {
            (0 | 1, "\"a.{}\"") => regex(context, Some(("format", value))),
            (0 | 1, t) if t.starts_with('r') => regex(context, Some(("format_unescaped", value))),
            _ => None,
        };
        return decide(&source(context, &format!("#[sscanf({text})]"), "T0"), want);
    }
    let name = NAMES[k];
    values(name, value);
    let ok = CONTEXTS[context].contains(&name) && fits(name, value);
    let want = if ok { regex(context, Some((name, value))) } else { None };
    let comma = ["", ","][fork(2)];
    decide(&source(context, &format!("#[sscanf({name}{value}{comma})]"), "T0"), want);
}
static IDENT: [bool; 256] = table(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_");
/// other names
fn others() {
    let (context, w) = (param(0), param(1));
    let name = match fork(NAMES.len() + 1) {
        k if k < NAMES.len() => {
            let n = NAMES[k];
            assume(n.len() >= w);
            let i = fork(n.len() - w + 1);
            let d = fork(w + 1);
            format!("{}{}{}", &n[..i], table_str(w - d, &IDENT), &n[i + w..])
        }
        _ => format!("{}{}", table_str(1, &IDENT), table_str(fork(param(2)), &IDENT)),
    };
    assume(name != "_" && syn::parse_str::<syn::Ident>(&name).is_ok());
    let value = ["", "=\"a.{}\"", "=u16", "=|x: u16| x as T0"][fork(4)];
    let ok = CONTEXTS[context].iter().any(|n| *n == name) && fits(&name, value);
    let known = CONTEXTS[context].iter().find(|n| **n == name);
    let want = if ok { regex(context, Some((known.unwrap(), value))) } else { None };
    decide(&source(context, &format!("#[sscanf({name}{value})]"), "T0"), want);
}
/// two attributes, in one list or in two
fn two() {
    let context = param(0);
    let value = |n: &str| match n {
        "format" | "format_unescaped" => "=\"a.{}\"",
        "map" | "filter_map" => "=|x: u16| x as T0",
        "from" | "try_from" => "=u16",
        _ => "",
    };
    let set = CONTEXTS[context];
    let (i, j) = (fork(set.len() + 1), fork(set.len() + 1));
    let one = |i: usize| if i < set.len() { format!("{}{}", set[i], value(set[i])) } else { String::new() };
    let attrs = match fork(4) {
        0 => format!("#[sscanf({})] #[sscanf({})]", one(i), one(j)),
        1 => format!("#[doc = \"x\"] #[sscanf({})] #[other(format)] #[sscanf({})] #[x::sscanf(format)]", one(i), one(j)),
        2 => {
            assume(i < set.len() && j < set.len());
            format!("#[sscanf({}, {})]", one(i), one(j))
        }
        _ => {
            // not separated
            assume(i < set.len() && j < set.len());
            return decide(&source(context, &format!("#[sscanf({} {})]", one(i), one(j)), "T0"), None);
        }
    };
    let want = match (set.get(i), set.get(j)) {
        (None, None) => regex(context, None),
        (Some(n), None) | (None, Some(n)) => regex(context, Some((n, value(n)))),
        _ => None,
    };
    decide(&source(context, &attrs, "T0"), want);
}
/// `transparent` and `autogen` depend on the fields
fn fields() {
    const F: [&str; 4] = ["()", "(T0)", "(T0, T1)", "{ a: T0 }"];
    let k = fork(4);
    let n = [0, 1, 2, 1][k];
    let f = F[k];
    let semi = if k < 3 { ";" } else { "" };
    let ph = Item::Placeholder("T0".into(), Opt::None);
    match fork(4) {
        0 => decide(&format!("#[sscanf(transparent)] struct S {f} {semi}"), if n == 1 { Some(vec![ph]) } else { None }),
        1 => decide(
            &format!("enum E {{ #[sscanf(transparent)] A {f} }}"),
            if n == 1 { Some(vec![Item::Raw("(?:(".into()), ph, Item::Raw("))".into())]) } else { None },
        ),
        2 => {
            let a = ["autogen", "autogenerate = \"CaseSensitive\""][fork(2)];
            let own = ["", "#[sscanf(skip)]", "#[sscanf(transparent)]", "#[sscanf(\"x\")]"][fork(4)];
            let want = match (own, n) {
                ("", 0) => Some(vec![Item::Raw("(?:(A)|(B))".into())]),
                ("#[sscanf(skip)]", _) => Some(vec![Item::Raw("(?:(B))".into())]),
                ("#[sscanf(transparent)]", 1) => Some(vec![Item::Raw("(?:(".into()), ph, Item::Raw(")|(B))".into())]),
                ("#[sscanf(\"x\")]", 0) => Some(vec![Item::Raw("(?:(x)|(B))".into())]),
                _ => None,
            };
            decide(&format!("#[sscanf({a})] enum E {{ {own} A {f}, B }}"), want);
        }
        _ => {
            let src = match fork(8) {
                0 => "#[sscanf] struct S(T0);",
                1 => "#[sscanf = \"{}\"] struct S(T0);",
                2 => "#[sscanf()] struct S(T0);",
                3 => "struct S(T0);",
                4 => "enum E { A, B }",
                5 => "enum E { }",
                6 => "#[sscanf(autogen)] enum E { #[sscanf(skip)] A }",
                _ => "#[sscanf(\"{}\")] union U { a: T0 }",
            };
            decide(src, None);
        }
    }
}
static CASE: [bool; 256] = table(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_- 0.");
/// other values for `autogen`
fn cases() {
    let (first, w) = (param(0), param(1));
    let c = CASES[first + fork(3)];
    let i = fork(c.len() - w + 1);
    let d = fork(w + 1);
    let value = format!("{}{}{}", &c[..i], table_str(w - d, &CASE), &c[i + w..]);
    let known = CASES.iter().position(|c| *c == value);
    if known.is_none() {
        // other ways to write `CaseInsensitive` are left open
        let mut flat = String::new();
        for b in value.bytes() {
            if b.is_ascii_alphanumeric() {
                flat.push(b.to_ascii_lowercase() as char);
            }
        }
        assume(flat != "caseinsensitive");
    }
    let texts = ["ab cd", "AB CD", "abcd", "ABCD", "AbCd", "abCd", "ab_cd", "AB_CD", "ab\\-cd", "AB\\-CD", "AbCd", "(?i:AbCd)"];
    let want = known.map(|k| vec![Item::Raw(format!("(?:({})|(last))", texts[k]))]);
    decide(&source(2, &format!("#[sscanf(autogen = \"{value}\")]"), ""), want);
}
crate::harness! {
    fn c19_readable() { check(crate::fmt::readable(), "readable") }
    fn c19_pairs() { pairs() }
    fn c19_others() { others() }
    fn c19_two() { two() }
    fn c19_fields() { fields() }
    fn c19_cases() { cases() }
}
