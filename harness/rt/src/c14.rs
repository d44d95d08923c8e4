//! autogen: the texts of the variants come from their names.
use crate::prog::{K::*, P::*, *};
use crate::{flat, p};
use sscanf::sscanf;

macro_rules! e {
    ($($name:ident ($($attr:tt)*))*) => {$(
        #[derive(sscanf::FromScanf)]
        #[sscanf($($attr)*)]
        #[allow(non_camel_case_types)]
        enum $name {
            HelloWorld,
            Hello,
            OneTwoThree,
            K,
            low_name,
            r#Type,
            #[sscanf(skip)]
            #[allow(dead_code)]
            Gone,
            #[sscanf(format = "over{}")]
            Over(u8),
            #[sscanf("K+")]
            Plus,
            #[sscanf(skip)]
            #[allow(dead_code)]
            Fields { a: u8 },
        }
        crate::flat_enum! { $name {
            0 $name::HelloWorld => [],
            1 $name::Hello => [],
            2 $name::OneTwoThree => [],
            3 $name::K => [],
            4 $name::low_name => [],
            5 $name::r#Type => [],
            6 $name::Gone => [],
            7 $name::Over(x) => [x],
            8 $name::Plus => [],
            9 $name::Fields { a } => [a],
        } }
    )*};
}
e! {
    Plain (autogen)
    PlainLong (autogenerate)
    Insensitive (autogen = "CaseInsensitive")
    E0 (autogen = "CaseSensitive")
    E1 (autogenerate = "lower case")
    E2 (autogen = "UPPER CASE")
    E3 (autogen = "lowercase")
    E4 (autogenerate = "UPPERCASE")
    E5 (autogen = "PascalCase")
    E6 (autogen = "camelCase")
    E7 (autogenerate = "snake_case")
    E8 (autogen = "SCREAMING_SNAKE_CASE")
    E9 (autogen = "kebab-case")
    E10 (autogenerate = "SCREAMING-KEBAB-CASE")
}
/// not ASCII
macro_rules! u {
    ($($name:ident ($($attr:tt)*))*) => {$(
        #[derive(sscanf::FromScanf)]
        #[sscanf($($attr)*)]
        enum $name { Übung, ÜbungÄhnlich }
        crate::flat_enum! { $name { 0 $name::Übung => [], 1 $name::ÜbungÄhnlich => [], } }
    )*};
}
u! {
    U0 (autogen = "CaseSensitive")
    U1 (autogen = "snake_case")
    U2 (autogen = "SCREAMING-KEBAB-CASE")
    U3 (autogen = "camelCase")
}
/// nothing but one variant
#[derive(sscanf::FromScanf)]
#[sscanf(autogen = "lowercase")]
enum One {
    Only,
}
/// variants without autogen are not built
#[derive(sscanf::FromScanf)]
#[allow(dead_code)]
enum Without {
    Hello,
    #[sscanf("hi")]
    Hi,
    #[sscanf(skip)]
    World,
}
/// inside of another type
#[derive(sscanf::FromScanf)]
#[sscanf(format = "{k}={v}{k2}")]
struct Pair {
    k: Plain,
    v: u8,
    k2: E7,
}
crate::flat_enum! {
    One { 0 One::Only => [], }
    Without { 0 Without::Hello => [], 1 Without::Hi => [], 2 Without::World => [], }
}
crate::flat_as! { Pair: |p| p.k, p.v, p.k2; }

const PLAIN: P = Alt(&[(0, &[L("HelloWorld")]), (1, &[L("Hello")]), (2, &[L("OneTwoThree")]), (3, &[L("K")]), (4, &[L("low_name")]), (5, &[L("Type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const INSENSITIVE: P = Alt(&[(0, &[Ci("HelloWorld")]), (1, &[Ci("Hello")]), (2, &[Ci("OneTwoThree")]), (3, &[Ci("K")]), (4, &[Ci("low_name")]), (5, &[Ci("Type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A0: P = Alt(&[(0, &[L("HelloWorld")]), (1, &[L("Hello")]), (2, &[L("OneTwoThree")]), (3, &[L("K")]), (4, &[L("low_name")]), (5, &[L("Type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A1: P = Alt(&[(0, &[L("hello world")]), (1, &[L("hello")]), (2, &[L("one two three")]), (3, &[L("k")]), (4, &[L("low name")]), (5, &[L("type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A2: P = Alt(&[(0, &[L("HELLO WORLD")]), (1, &[L("HELLO")]), (2, &[L("ONE TWO THREE")]), (3, &[L("K")]), (4, &[L("LOW NAME")]), (5, &[L("TYPE")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A3: P = Alt(&[(0, &[L("helloworld")]), (1, &[L("hello")]), (2, &[L("onetwothree")]), (3, &[L("k")]), (4, &[L("lowname")]), (5, &[L("type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A4: P = Alt(&[(0, &[L("HELLOWORLD")]), (1, &[L("HELLO")]), (2, &[L("ONETWOTHREE")]), (3, &[L("K")]), (4, &[L("LOWNAME")]), (5, &[L("TYPE")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A5: P = Alt(&[(0, &[L("HelloWorld")]), (1, &[L("Hello")]), (2, &[L("OneTwoThree")]), (3, &[L("K")]), (4, &[L("LowName")]), (5, &[L("Type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A6: P = Alt(&[(0, &[L("helloWorld")]), (1, &[L("hello")]), (2, &[L("oneTwoThree")]), (3, &[L("k")]), (4, &[L("lowName")]), (5, &[L("type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A7: P = Alt(&[(0, &[L("hello_world")]), (1, &[L("hello")]), (2, &[L("one_two_three")]), (3, &[L("k")]), (4, &[L("low_name")]), (5, &[L("type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A8: P = Alt(&[(0, &[L("HELLO_WORLD")]), (1, &[L("HELLO")]), (2, &[L("ONE_TWO_THREE")]), (3, &[L("K")]), (4, &[L("LOW_NAME")]), (5, &[L("TYPE")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A9: P = Alt(&[(0, &[L("hello-world")]), (1, &[L("hello")]), (2, &[L("one-two-three")]), (3, &[L("k")]), (4, &[L("low-name")]), (5, &[L("type")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);
const A10: P = Alt(&[(0, &[L("HELLO-WORLD")]), (1, &[L("HELLO")]), (2, &[L("ONE-TWO-THREE")]), (3, &[L("K")]), (4, &[L("LOW-NAME")]), (5, &[L("TYPE")]), (7, &[L("over"), Ph(U8)]), (8, &[L("K+")])]);

static PROGS: &[Prog] = &[
    p!(|s| flat!(s, sscanf!(s, "{Plain}")), [PLAIN], 2 3 2, "HelloWorld", "Hello", "OneTwoThree", "K", "low_name", "Type", "over12", "K+", "Gone", "r#Type"),
    p!(|s| flat!(s, sscanf!(s, "{PlainLong}")), [PLAIN], 1 2 2, "HelloWorld", "Hello", "OneTwoThree", "K", "low_name", "Type", "over12", "K+", "Gone"),
    p!(|s| flat!(s, sscanf!(s, "{Insensitive}")), [INSENSITIVE], 3 4 2, "HelloWorld", "Hello", "OneTwoThree", "K", "low_name", "Type", "over12", "K+", "hELLOwORLD", "\u{212a}"),
    p!(|s| flat!(s, sscanf!(s, "{E0}")), [A0], 1 2 2, "HelloWorld", "Hello", "OneTwoThree", "K", "low_name", "Type", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E1}")), [A1], 1 2 2, "hello world", "hello", "one two three", "k", "low name", "type", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E2}")), [A2], 1 2 2, "HELLO WORLD", "HELLO", "ONE TWO THREE", "K", "LOW NAME", "TYPE", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E3}")), [A3], 1 2 2, "helloworld", "hello", "onetwothree", "k", "lowname", "type", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E4}")), [A4], 1 2 2, "HELLOWORLD", "HELLO", "ONETWOTHREE", "K", "LOWNAME", "TYPE", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E5}")), [A5], 1 2 2, "HelloWorld", "Hello", "OneTwoThree", "K", "LowName", "Type", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E6}")), [A6], 1 2 2, "helloWorld", "hello", "oneTwoThree", "k", "lowName", "type", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E7}")), [A7], 1 2 2, "hello_world", "hello", "one_two_three", "k", "low_name", "type", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E8}")), [A8], 1 2 2, "HELLO_WORLD", "HELLO", "ONE_TWO_THREE", "K", "LOW_NAME", "TYPE", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E9}")), [A9], 1 2 2, "hello-world", "hello", "one-two-three", "k", "low-name", "type", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{E10}")), [A10], 1 2 2, "HELLO-WORLD", "HELLO", "ONE-TWO-THREE", "K", "LOW-NAME", "TYPE", "over12", "K+", "hello world", "HelloWorld", "gone"),
    p!(|s| flat!(s, sscanf!(s, "{U0}")), [Alt(&[(0, &[L("Übung")]), (1, &[L("ÜbungÄhnlich")])])], 2 2 1, "Übung", "ÜbungÄhnlich"),
    p!(|s| flat!(s, sscanf!(s, "{U1}")), [Alt(&[(0, &[L("übung")]), (1, &[L("übung_ähnlich")])])], 2 2 1, "übung", "übung_ähnlich"),
    p!(|s| flat!(s, sscanf!(s, "{U2}")), [Alt(&[(0, &[L("ÜBUNG")]), (1, &[L("ÜBUNG-ÄHNLICH")])])], 2 2 1, "ÜBUNG", "ÜBUNG-ÄHNLICH"),
    p!(|s| flat!(s, sscanf!(s, "{U3}")), [Alt(&[(0, &[L("übung")]), (1, &[L("übungÄhnlich")])])], 2 2 1, "übung", "übungÄhnlich"),
    p!(|s| flat!(s, sscanf!(s, "{One}")), [Alt(&[(0, &[L("only")])])], 3 4 2, "only"),
    p!(|s| flat!(s, sscanf!(s, "{Without}")), [Alt(&[(1, &[L("hi")])])], 3 4 2, "hi", "Hello", "World"),
    p!(|s| flat!(s, sscanf!(s, "{Pair}")), [PLAIN, L("="), Ph(U8), A7], 0 2 2, "HelloWorld=1hello_world", "over1=2over3", "K+=2k", "Hello=1hello"),
];

crate::harness! {
    fn c14_prog() { run(PROGS) }
}
