//! Literal text of the format matches itself and nothing else.
use crate::model::*;
use crate::prog::{K::*, P::*, *};
use crate::{flat, p};
use sscanf::sscanf;

#[derive(sscanf::FromScanf)]
#[sscanf(format = "a.b|c?{}[d]")]
struct Derived(u8);
#[derive(sscanf::FromScanf)]
#[sscanf("x+{v}\t$\u{e9}")]
struct Short {
    v: u8,
}
#[derive(sscanf::FromScanf)]
#[sscanf(format = r"\d{v}\")]
struct Raw {
    v: u8,
}
#[derive(sscanf::FromScanf)]
enum Variants {
    #[sscanf(format = "(a)")]
    A,
    #[sscanf(format = "a|b{{}}")]
    B,
    #[sscanf("c*.\\")]
    C,
}
crate::flat_as! {
    Derived: |x| x.0;
    Short: |x| x.v;
    Raw: |x| x.v;
}
crate::flat_enum! { Variants { 0 Variants::A => [], 1 Variants::B => [], 2 Variants::C => [], } }

static PROGS: &[Prog] = &[
    /* 0: all punctuation */
    p!(|s| flat!(s, sscanf!(s, "!\"#$%&'()*+,-./:;<=>?@[\\]^_`|~ {{}}")), [L("!\"#$%&'()*+,-./:;<=>?@[\\]^_`|~ {}")], 2 2 2,
        "!\"#$%&'()*+,-./:;<=>?@[\\]^_`|~ {}"),
    /* 1: raw */
    p!(|s| flat!(s, sscanf!(s, r"\d+\\[a-z].\n")), [L(r"\d+\\[a-z].\n")], 1 1 2, r"\d+\\[a-z].\n", r"55\b.x", "1\\a\n"),
    p!(|s| flat!(s, sscanf!(s, r##"a"#b\x41"##)), [L(r##"a"#b\x41"##)], 1 1 2, r##"a"#b\x41"##),
    /* 3: escape sequences */
    p!(|s| flat!(s, sscanf!(s, "\n\t\r\0\\\'\"\x41\u{e9}\u{1F600}\x7e")), [L("\n\t\r\0\\'\"Aé😀~")], 2 2 2, "\n\t\r\0\\'\"Aé😀~"),
    p!(|s| flat!(s, sscanf!(s, "\\n\\d\\\\u{{41}}\u{0041}\u{00_004_2}")), [L("\\n\\d\\\\u{41}AB")], 1 1 2, "\\n\\d\\\\u{41}AB"),
    /* 5: line continuation */
    p!(|s| flat!(s, sscanf!(s, "ab \
        cd\
        
          e")), [L("ab cde")], 1 1 2, "ab cde"),
    /* 6: braces */
    p!(|s| flat!(s, sscanf!(s, "{{}}{{{{}}}}}}{{")), [L("{}{{}}}{")], 3 3 3, "{}{{}}}{"),
    p!(|s| flat!(s, sscanf!(s, "{{{u8}}}")), [L("{"), Ph(U8), L("}")], 3 4 2, "{12}"),
    p!(|s| flat!(s, sscanf!(s, "{{{}}}{{", u8)), [L("{"), Ph(U8), L("}{")], 3 4 2, "{12}{"),
    p!(|s| flat!(s, sscanf!(s, "{{u8}}")), [L("{u8}")], 3 4 3, "{u8}", "5"),
    /* 10: multi-byte */
    p!(|s| flat!(s, sscanf!(s, "äß€😀日本.")), [L("äß€😀日本.")], 2 2 1, "äß€😀日本."),
    p!(|s| flat!(s, sscanf!(s, "é")), [L("é")], 4 4 1, "é"),
    p!(|s| flat!(s, sscanf!(s, "😀")), [L("😀")], 4 4 1, "😀"),
    /* 13: empty */
    p!(|s| flat!(s, sscanf!(s, "")), [L("")], 4 5 1, ""),
    /* 14: white space, upper and lower case */
    p!(|s| flat!(s, sscanf!(s, " a  B\t\n C # d ")), [L(" a  B\t\n C # d ")], 2 3 2, " a  B\t\n C # d "),
    p!(|s| flat!(s, sscanf!(s, "AbC")), [L("AbC")], 4 4 3, "AbC"),
    /* 16: next to placeholders */
    p!(|s| flat!(s, sscanf!(s, "{u8}.")), [Ph(U8), L(".")], 3 4 2, "12."),
    p!(|s| flat!(s, sscanf!(s, ".{u8}")), [L("."), Ph(U8)], 3 4 2, ".12"),
    p!(|s| flat!(s, sscanf!(s, "({str})")), [L("("), Ph(Str), L(")")], 4 5 2, "(ab)"),
    p!(|s| flat!(s, sscanf!(s, "[{u8}]*")), [L("["), Ph(U8), L("]*")], 3 4 2, "[12]*"),
    p!(|s| flat!(s, sscanf!(s, "{u8}+{u8}?")), [Ph(U8), L("+"), Ph(U8), L("?")], 2 4 2, "1+2?"),
    p!(|s| flat!(s, sscanf!(s, "{u8}|{u8}")), [Ph(U8), L("|"), Ph(U8)], 2 4 2, "1|2"),
    p!(|s| flat!(s, sscanf!(s, "^{u8}$")), [L("^"), Ph(U8), L("$")], 2 4 2, "^12$"),
    p!(|s| flat!(s, sscanf!(s, "{str}{{2}}")), [Ph(Str), L("{2}")], 4 5 2, "a{2}"),
    p!(|s| flat!(s, sscanf!(s, "a|{u8}|b")), [L("a|"), Ph(U8), L("|b")], 2 4 2, "a|1|b"),
    p!(|s| flat!(s, sscanf!(s, "\u{e9}{u8}\x2e\t{u8}\\", )), [L("é"), Ph(U8), L(".\t"), Ph(U8), L("\\")], 1 2 2, "é1.\t2\\"),
    p!(|s| flat!(s, sscanf!(s, "-{u8}-{u8}&&~~")), [L("-"), Ph(U8), L("-"), Ph(U8), L("&&~~")], 1 2 2, "-1-2&&~~"),
    /* 27: derived */
    p!(|s| flat!(s, sscanf!(s, "{Derived}")), [L("a.b|c?"), Ph(U8), L("[d]")], 2 3 2, "a.b|c?12[d]", "c1d", "a.b"),
    p!(|s| flat!(s, sscanf!(s, "{Short}")), [L("x+"), Ph(U8), L("\t$é")], 2 3 2, "x+12\t$é"),
    p!(|s| flat!(s, sscanf!(s, "<{Raw}>")), [L(r"<\d"), Ph(U8), L(r"\>")], 2 3 2, r"<\d12\>", "<412>"),
    p!(|s| flat!(s, sscanf!(s, "{Variants}")), [Alt(&[(0, &[L("(a)")]), (1, &[L("a|b{}")]), (2, &[L("c*.\\")])])], 3 4 2, "(a)", "a|b{}", "c*.\\", "a"),
    /* 31: continued on the next line: only ASCII white space is skipped */
    p!(|s| flat!(s, sscanf!(s, "a\
        	 {u8}\

         b\x20\
c")), [L("a\u{a0}"), Ph(U8), L("\u{2003}b c")], 0 2 2, "a\u{a0}1\u{2003}b c"),
    /* 32: long */
    p!(|s| flat!(s, sscanf!(s, "😀[&:b!)X.1~@)-,0')a?<]*-.Y9😀😀=99aa??..|$+,?*+-^b~<. [Y#^é`aé#Y^&^@$*@@*X[b&/b_<~-`a=c*😀+1)!&;&:[!0`~|c>Z?#;😀~ #],Z^$^*Z ^@.XZé,/c)é&[!< Xc%#?9'9<0.>~ X<| !😀.:!%$@]|@/ 1-,*%#*Z%];_;~Y&`c^~_]%[|#*`a@_[$]!|;&&]&<&*=~#: :.+~@|Z<.😀`:<^😀_]b+.`=😀*(*c@(.X91$*@+_c<!&-😀Y`?)~a&/]<1_~c_😀^0|,;#`|&9<<',~! .é-'@+9{u8}9+@'-é. !~,'<<9&|`#;,|0^😀_c~_1<]/&a~)?`Y😀-&!<c_+@*$19X.(@c*(*😀=`.+b]_😀^<:`😀.<Z|@~+.: :#~=*&<&]&&;|!]$[_@a`*#|[%]_~^c`&Y~;_;]%Z*#%*,-1 /@|]@$%!:.😀! |<X ~>.0<9'9?#%cX <![&é)c/,éZX.@^ Z*^$^Z,]# ~😀;#?Z>c|~`0![:&;&!)1+😀*c=a`-~<_b/&b[X*@@*$@^&^Y#éa`é^#Y[ .<~b^-+*?,+$|..??aa99=😀😀9Y.-*]<?a)'0,-)@~1.X)!b:&[😀")), [L("😀[&:b!)X.1~@)-,0')a?<]*-.Y9😀😀=99aa??..|$+,?*+-^b~<. [Y#^é`aé#Y^&^@$*@@*X[b&/b_<~-`a=c*😀+1)!&;&:[!0`~|c>Z?#;😀~ #],Z^$^*Z ^@.XZé,/c)é&[!< Xc%#?9'9<0.>~ X<| !😀.:!%$@]|@/ 1-,*%#*Z%];_;~Y&`c^~_]%[|#*`a@_[$]!|;&&]&<&*=~#: :.+~@|Z<.😀`:<^😀_]b+.`=😀*(*c@(.X91$*@+_c<!&-😀Y`?)~a&/]<1_~c_😀^0|,;#`|&9<<',~! .é-'@+9"), Ph(U8), L("9+@'-é. !~,'<<9&|`#;,|0^😀_c~_1<]/&a~)?`Y😀-&!<c_+@*$19X.(@c*(*😀=`.+b]_😀^<:`😀.<Z|@~+.: :#~=*&<&]&&;|!]$[_@a`*#|[%]_~^c`&Y~;_;]%Z*#%*,-1 /@|]@$%!:.😀! |<X ~>.0<9'9?#%cX <![&é)c/,éZX.@^ Z*^$^Z,]# ~😀;#?Z>c|~`0![:&;&!)1+😀*c=a`-~<_b/&b[X*@@*$@^&^Y#éa`é^#Y[ .<~b^-+*?,+$|..??aa99=😀😀9Y.-*]<?a)'0,-)@~1.X)!b:&[😀")], 0 0 1, "😀[&:b!)X.1~@)-,0')a?<]*-.Y9😀😀=99aa??..|$+,?*+-^b~<. [Y#^é`aé#Y^&^@$*@@*X[b&/b_<~-`a=c*😀+1)!&;&:[!0`~|c>Z?#;😀~ #],Z^$^*Z ^@.XZé,/c)é&[!< Xc%#?9'9<0.>~ X<| !😀.:!%$@]|@/ 1-,*%#*Z%];_;~Y&`c^~_]%[|#*`a@_[$]!|;&&]&<&*=~#: :.+~@|Z<.😀`:<^😀_]b+.`=😀*(*c@(.X91$*@+_c<!&-😀Y`?)~a&/]<1_~c_😀^0|,;#`|&9<<',~! .é-'@+979+@'-é. !~,'<<9&|`#;,|0^😀_c~_1<]/&a~)?`Y😀-&!<c_+@*$19X.(@c*(*😀=`.+b]_😀^<:`😀.<Z|@~+.: :#~=*&<&]&&;|!]$[_@a`*#|[%]_~^c`&Y~;_;]%Z*#%*,-1 /@|]@$%!:.😀! |<X ~>.0<9'9?#%cX <![&é)c/,éZX.@^ Z*^$^Z,]# ~😀;#?Z>c|~`0![:&;&!)1+😀*c=a`-~<_b/&b[X*@@*$@^&^Y#éa`é^#Y[ .<~b^-+*?,+$|..??aa99=😀😀9Y.-*]<?a)'0,-)@~1.X)!b:&[😀"),
];

crate::harness! {
    fn c04_prog() { run(PROGS) }
}
const _: Prefix = Prefix::Never;
