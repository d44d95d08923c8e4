//! Placeholders and their types in `sscanf!`: any format with any indices.
use crate::fmt::*;
use crate::sym::*;
use crate::tok::*;

const TYPES: [&str; 4] = ["T0", "T1", "T2", "T3"];
static INDEX: [bool; 256] = table(b"0123456789");

/// param 0: how many placeholders; 1: how many characters each; 2: how many types
fn binding() {
    let n = param(2);
    let k = fork(param(0) + 1);
    let mut s = String::from("\"");
    for i in 0..k {
        s.push_str(["", "-", "."][i % 3]);
        s.push('{');
        s.push_str(table_str(fork(param(1) + 1), &INDEX));
        s.push('}');
    }
    s.push('"');
    let m = [Macro::Sscanf, Macro::Unescaped][param(3)];
    if let Some((out, items)) = call(m, &s, &TYPES[..n]) {
        let mut want = vec![];
        for i in &items {
            if let Item::Placeholder(t, _) = i {
                want.push(t.clone());
            }
        }
        want.dedup();
        let of: Vec<&str> = want.iter().map(|s| &s[..]).collect();
        check(infix(&mentions(&out, &of), &want), "the values are in the order of the placeholders");
    }
}
crate::harness! {
    fn c03_readable() { check(crate::fmt::readable(), "readable") }
    fn c03_binding() { binding() }
}
