//! Enums of variants of all shapes: the alternation, and the fields of each variant.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;

// not in alphabetical order, and of different lengths
const NAMES: [&str; 4] = ["Mid", "Zero", "An", "Beginning"];
const TY: [[&str; 3]; 4] = [["T0", "T1", "T2"], ["U0", "U1", "U2"], ["Q0", "Q1", "Q2"], ["V0", "V1", "V2"]];
const FIELD: [[&str; 3]; 4] = [["tc", "ta", "tb"], ["ua", "uc", "ub"], ["qb", "qa", "qc"], ["vc", "vb", "va"]];
const LETTER: [&str; 4] = ["k", "z", "a", "m"];

enum V {
    /// never built
    Not,
    /// regex, and the fields in the order of their placeholders
    Built(Vec<Item>, Vec<String>),
    Wrong,
}
/// the source of variant `v` and what it stands for
fn variant(v: usize, shape: usize, auto: bool) -> (String, V) {
    let (name, [t0, t1, t2], [f0, f1, f2], l) = (NAMES[v], TY[v], FIELD[v], LETTER[v]);
    let text = |s: &str| Item::Raw(rs8::escape(s));
    let raw = |s: &str| Item::Raw(s.to_string());
    let ph = |t: &str| Item::Placeholder(t.to_string(), Opt::None);
    let m = |s: &[&str]| s.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match shape {
        0 => (format!("#[sscanf(\"{l}\")] {name}"), V::Built(vec![text(l)], vec![])),
        1 => (format!("#[sscanf(format = \"{l}.{{}}\")] {name}({t0})"), V::Built(vec![text(l), text("."), ph(t0)], m(&["0", t0]))),
        2 => (format!("#[sscanf(\"{l}{{}}-{{}}\")] {name}({t0}, {t1})"), V::Built(vec![text(l), ph(t0), text("-"), ph(t1)], m(&["0", t0, "1", t1]))),
        3 => (format!("#[sscanf(\"{{1}}{l}{{}}\")] {name}({t0}, {t1})"), V::Built(vec![ph(t1), text(l), ph(t0)], m(&["1", t1, "0", t0]))),
        4 => (format!("#[sscanf(\"{{{f0}}}{l}\")] {name} {{ {f0}: {t0} }}"), V::Built(vec![ph(t0), text(l)], m(&[f0, t0]))),
        5 => (format!("#[sscanf(\"{{{f1}}}{{}}{l}\")] {name} {{ {f0}: {t0}, {f1}: {t1} }}"), V::Built(vec![ph(t1), ph(t0), text(l)], m(&[f1, t1, f0, t0]))),
        6 => (format!("#[sscanf(format = \"{l}{{}}\")] {name}(#[sscanf(default)] {t0}, {t1})"), V::Built(vec![text(l), ph(t1)], m(&["1", t1]))),
        7 => (format!("#[sscanf(skip)] {name}"), V::Not),
        8 => (format!("#[sscanf(skip)] {name} {{ {f0}: {t0}, {f1}: {t1} }}"), V::Not),
        9 => (format!("#[sscanf(transparent)] {name}({t0})"), V::Built(vec![ph(t0)], m(&["0", t0]))),
        10 => (name.to_string(), if auto { V::Built(vec![text(&name.to_lowercase())], vec![]) } else { V::Not }),
        11 => (format!("#[sscanf(format_unescaped = \"{l}|{{}}.\")] {name}({t0})"), V::Built(vec![raw(l), raw("|"), ph(t0), raw(".")], m(&["0", t0]))),
        12 => (format!("#[sscanf(r\"{l}+{{}}\")] {name} {{ {f0}: {t0} }}"), V::Built(vec![raw(l), raw("+"), ph(t0)], m(&[f0, t0]))),
        13 => (format!("#[sscanf(\"{{}}{{{f2}}}{{}}\")] {name} {{ {f0}: {t0}, {f1}: {t1}, {f2}: {t2} }}"), V::Built(vec![ph(t0), ph(t2), ph(t1)], m(&[f0, t0, f2, t2, f1, t1]))),
        14 => (format!("{name}({t0})"), if auto { V::Wrong } else { V::Not }),
        15 => (format!("#[sscanf(\"{l}\")] {name}(#[sscanf(default)] {t0})"), V::Built(vec![text(l)], vec![])),
        16 => (format!("#[sscanf(transparent)] {name} {{ #[sscanf(default)] {f0}: {t0}, {f1}: {t1} }}"), V::Wrong),
        17 => (format!("#[sscanf(\"\")] {name} {{}}"), V::Built(vec![], vec![])),
        19 => (format!("#[sscanf(skip)] {name} = 5"), V::Not),
        20 => (format!("{name} = 1 + 2"), if auto { V::Built(vec![text(&name.to_lowercase())], vec![]) } else { V::Not }),
        21 => (format!("#[doc = \"text\"] #[sscanf(\"{l}\")] #[other(sscanf(skip))] {name} = -1"), V::Built(vec![text(l)], vec![])),
        22 => (format!("#[doc = \"text\"] #[sscanf(skip)] {name}()"), V::Not),
        _ => (format!("#[sscanf(\"{l}{{:/[a|b]/}}\")] {name}({t0})"), V::Built(vec![text(l), Item::Placeholder(t0.to_string(), Opt::Regex("[a|b]".into()))], m(&["0", t0]))),
    }
}
fn variants() {
    let n = param(0);
    let auto = param(1) == 1;
    let first = param(2);
    let mut src = String::from(if auto { "#[sscanf(autogen = \"lower case\")] enum E { " } else { "enum E { " });
    let mut items = vec![];
    let mut orders: Vec<(usize, Vec<String>)> = vec![];
    let (mut wrong, mut some) = (false, false);
    let mut all = vec![];
    for v in 0..n {
        // the shapes of the first variants are parameters
        let (s, m) = variant(v, if v == 0 { first } else { fork(23) }, auto);
        src.push_str(&s);
        if v + 1 < n {
            src.push_str(", ");
        }
        match m {
            V::Not => {}
            V::Wrong => wrong = true,
            V::Built(i, w) => {
                items.push(Item::Raw(if some { "|(".into() } else { "(".into() }));
                items.extend(i);
                items.push(Item::Raw(")".into()));
                all.extend(w.iter().filter(|w| TY[v].contains(&&w[..])).cloned());
                orders.push((v, w));
                some = true;
            }
        }
    }
    src.push_str(" }");
    let out = derive(tokens(&src));
    if wrong || !some {
        reach("rejected");
        check(rejected(&out), "enums of which a variant is wrong, or without one that can be built, are rejected");
        return;
    }
    reach("accepted");
    if rejected(&out) {
        check(false, "the enum is accepted");
        return;
    }
    let r = regexes(&out);
    check(r.len() == 1 && same(&r[0], &items, "(?:", ")", Kind::Unescaped), "the regex has the variants in order");
    let types: Vec<&str> = TY.iter().flatten().copied().collect();
    check(infix(&mentions(&out, &types), &all), "the variants are read in order");
    for (v, w) in orders {
        let mut look: Vec<&str> = TY[v].to_vec();
        look.extend(FIELD[v]);
        look.extend(["0", "1", "2"]);
        check(assigned(&out, &look, &w), "each field gets the value of its placeholder");
    }
}
fn readable() -> bool {
    let out = derive(tokens("enum E { #[sscanf(\"a{}\")] A(T0), #[sscanf(\"b{x}{y}\")] B { y: T1, x: T2 } }"));
    let w: Vec<String> = ["x", "T2", "y", "T1"].iter().map(|s| s.to_string()).collect();
    let t: Vec<String> = ["T0", "T2", "T1"].iter().map(|s| s.to_string()).collect();
    !rejected(&out) && assigned(&out, &["T1", "T2", "x", "y"], &w) && infix(&mentions(&out, &["T0", "T1", "T2"]), &t)
}
crate::harness! {
    fn c06_readable() { check(crate::fmt::readable() && readable(), "readable") }
    fn c06_variants() { variants() }
}
