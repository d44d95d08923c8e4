//! The values of the attributes of fields go into the code as they were written.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;

const DEFAULTS: &[&str] = &[
    "5", "-5", "true", "false", "'c'", "\"text\"", "\"\"", "r\"a\"", "b\"x\"", "1.5", "1_u8", "0x1F", "0", "None", "Some(1)", "Vec::new()", "vec![1, 2]", "a::B { x: 1 }", "[0; 4]", "()", "(1, 2)", "f()", "CONST", "a::CONST",
    "<u8 as Tr>::C", "!x", "1 + 2", "x as u8", "if a { 1 } else { 2 }", "match a { _ => 1 }", "{ 5 }", "unsafe { f() }", "|x| x", "move || 1", "a.b", "a[0]", "&X", "&\"x\"", "(5)", "Default::default()", "loop { break 1; }", "1..2", "m!()", "m!{a}",
    "\"x\".to_string()", "String::from(\"\")", "u8::MAX", "T0::default()", "Self::new()", "b'x'", "u128::MAX", "1e5",
];
/// closures, and the type of their parameter
const CLOSURES: &[(&str, &str)] = &[
    ("|x: u16| x", "u16"), ("|x: u16| -> T0 { T0(x) }", "u16"), ("move |x: u16| x", "u16"), ("|_: u16| T0", "u16"), ("|mut x: u16| { x += 1; x }", "u16"), ("|W(x): W| x", "W"), ("|x: a::B<u8>| x.0", "a::B<u8>"),
    ("|x: &str| x.len()", "str"), ("|x: u16| { let y = x; y }", "u16"), ("|x: u16| f(x, |y| y)", "u16"), ("|x: u16| true", "u16"), ("|x: u16| if x > 1 { Some(x) } else { None }", "u16"), ("|W { a, .. }: W| a", "W"),
    ("|x: u16,| x", "u16"), ("|ref x: u16| *x", "u16"), ("|x @ 1..=5: u16| x", "u16"), ("|&x: u16| x", "u16"), ("|x: u16| x?", "u16"), ("|x: String| x", "String"), ("|x: Vec<Vec<u8>>| x", "Vec<Vec<u8>>"),
    // none of these names one type
    ("|x| x", ""), ("|| 1", ""), ("|x: u16, y: u8| x", ""), ("f", ""), ("a::f", ""), ("|x: u16, y| x", ""), ("5", ""), ("\"f\"", ""), ("(|x: u16| x)", ""), ("{ |x: u16| x }", ""), ("fn(u16)", ""), ("true", ""),
];
const TYPES: &[&str] = &["u16", "a::B", "a::B<u8>", "&str", "Vec<Vec<u8>>", "<A as B>::C", "::std::string::String", "std::borrow::Cow<str>", "Gen<'static, [u8; 2]>"];

/// what may stand around the field
fn source(context: usize, attr: &str, format: &str) -> String {
    match context {
        0 => format!("#[sscanf(\"{format}\")] struct S({attr} T0, #[sscanf(default)] T1);"),
        1 => format!("#[sscanf(\"{format}\")] struct S {{ {attr} a: T0, #[sscanf(default = 1)] b: T1 }}"),
        2 => format!("enum E {{ #[sscanf(\"{format}\")] A(#[sscanf(default)] T1, {attr} T0), #[sscanf(skip)] B }}"),
        _ => format!("enum E<T> {{ #[sscanf(\"b\")] B, #[sscanf(\"{format}\")] A {{ {attr} x: T0 }} }}"),
    }
}
fn want(context: usize, ty: Option<&str>) -> Vec<Item> {
    let mut v = vec![Item::Raw(["", "", "(?:(", "(?:(b)|("][context].into()), Item::Raw("k".into())];
    if let Some(t) = ty {
        v.push(Item::Placeholder(t.replace(' ', ""), Opt::None));
    }
    v.push(Item::Raw(["", "", "))", "))"][context].into()));
    v
}
fn values() {
    let context = param(0);
    let which = param(1);
    let (name, ty, value): (&str, Option<&str>, &str) = match which {
        0 => ("default", None, DEFAULTS[fork(DEFAULTS.len())]),
        1 | 2 => {
            let (c, t) = CLOSURES[fork(CLOSURES.len())];
            (["map", "filter_map"][which - 1], Some(t), c)
        }
        _ => {
            let t = TYPES[fork(TYPES.len())];
            (["from", "try_from"][which - 3], Some(t), t)
        }
    };
    // attributes may be given with a comma at the end
    let comma = ["", ","][fork(2)];
    let src = source(context, &format!("#[sscanf({name} = {value}{comma})]"), if which == 0 { "k" } else if context == 1 { "k{a}" } else { "k{}" });
    let out = derive(tokens(&src));
    if ty == Some("") {
        reach("rejected");
        check(rejected(&out), "a closure that does not name one type is rejected");
        return;
    }
    reach("accepted");
    if rejected(&out) {
        check(false, "a value of the documented form is accepted");
        return;
    }
    let r = regexes(&out);
    check(r.len() == 1 && same(&r[0], &want(context, ty), "", "", Kind::Unescaped), "the regex has the type that the attribute names");
    check(infix(&words(&out), &words(&tokens(value))), "the value is in the code as it was written");
}
fn readable() -> bool {
    let out = derive(tokens("#[sscanf(\"{}\")] struct S(#[sscanf(map = |x: u16| x as u8)] u8, #[sscanf(default = CONST)] u8);"));
    let w = words(&out);
    !rejected(&out) && infix(&w, &words(&tokens("|x: u16| x as u8"))) && infix(&w, &words(&tokens("CONST")))
}
crate::harness! {
    fn c08_readable() { check(crate::fmt::readable() && readable(), "readable") }
    fn c08_values() { values() }
}
