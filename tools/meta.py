#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: tools/meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props

M = 'sscanf_macro/src/'
MECH = dict(
    conv=('conversion of a capture to the type of its placeholder', M + 'regex_parts.rs (from_matches builder)'),
    rx=('regexes of the standard types', 'src/regex_representation.rs'),
    escape=('escaping of literal text', M + 'regex_parts.rs, ' + M + 'format_string.rs'),
    anchors=('^ and $ around the whole regex', M + 'lib.rs, ' + M + 'regex_parts.rs, src/from_scanf.rs'),
    radix=('regex and conversion of radix options', M + 'format_option.rs, ' + M + 'regex_parts.rs'),
    group=('one capture group for each placeholder, counting of captures', 'src/from_scanf.rs (NUM_CAPTURES), ' + M + 'regex_parts.rs'),
    structs=('derived structs: fields and placeholders are matched up', M + 'derive.rs'),
    enums=('derived enums: alternation in the order of the variants', M + 'derive.rs'),
    fields=('attributes of fields', M + 'attribute/field.rs, ' + M + 'derive.rs'),
    attrs=('parsing of attributes', M + 'attribute.rs, ' + M + 'attribute/'),
    errors=('error types', 'src/errors.rs, src/from_scanf.rs'),
    fmt=('parsing of format strings', M + 'format_string.rs, ' + M + 'placeholder.rs, ' + M + 'format_option.rs'),
    types=('assignment of types to placeholders', M + 'regex_parts.rs, ' + M + 'ty.rs'),
    macros=('the entry points of the macros and their arguments', M + 'lib.rs'),
    static=('static regex of the call site', M + 'lib.rs'),
    lits=('interpretation of string literals', M + 'str_lit.rs'),
    autogen=('derivation of texts from the names of variants', M + 'derive.rs, ' + M + 'attribute/enum.rs'),
    fromstr=('FromScanf::from_str', 'src/from_scanf.rs, ' + M + 'derive.rs'),
    newtypes=('HexNumber, FullF32, FullF64', 'src/types.rs'),
)

# id, title, statement, over, quantifier, why tests cannot, mechanisms, observe at
L = []


def prop(i, title, statement, over, text, why, mech, observe):
    files = sorted({f.strip().split(' ')[0] for m in mech for f in MECH[m][1].split(', ')})
    L.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=MECH[m][0], where=MECH[m][1]) for m in mech], observe_at=observe, hook_needed=None)))


prop('C01', 'Integers parse exactly: right value in range, error otherwise',
     'A placeholder of an integer type (u8..u128, usize, i8..i128, isize and the NonZero types) accepts exactly an optional sign (minus only for signed types) followed by decimal digits whose value fits the type, and returns that value. Numbers out of range, zero for NonZero types, signs without digits, non-ASCII digits, surrounding text and every other input give an error and never a wrong or wrapped number or a panic.',
     ['inputs'], 'every input text for each of the 24 integer types',
     'The tests try a few numbers per type; range limits, signs, lengths and foreign characters multiply to far more texts than can be listed.',
     ['conv', 'rx', 'anchors'], ['result of sscanf! with one integer placeholder'])
prop('C02', 'Radix options read exactly the numbers of that radix and prefix rule',
     'With :x, :o, :b or :r2 to :r36 a placeholder accepts exactly numbers written in that radix in upper or lower case, with an optional sign as the type allows, that fit the type, and returns their value. A prefix (0x, 0o, 0b) is optional without #, required with #, and not accepted for :r options of other radices, and the sign comes before the prefix.',
     ['inputs', 'configurations'], 'every input text, integer type and radix option',
     'There are 44 options for 12 types; the tests sample a handful of numbers for some of them.',
     ['radix', 'conv'], ['result of sscanf! with one placeholder that has a radix option'])
prop('C03', 'The whole input is split among the placeholders, deterministically',
     'A format with several placeholders accepts an input exactly if the whole input can be split into texts that the placeholders and the literal text describe, and each placeholder returns the value of its own part in order; ambiguities are resolved left to right by the documented greedy or lazy preference of each type. The result depends on the input and the format alone, not on earlier calls.',
     ['inputs', 'programs', 'histories'], 'every input, for formats with one to four placeholders of all kinds, and repeated calls at one call site',
     'How texts divide among adjacent placeholders depends on every character; the tests use a few unambiguous inputs.',
     ['conv', 'rx', 'anchors', 'static'], ['result of sscanf! with several placeholders'])
prop('C04', 'Literal text of a format matches itself and nothing else',
     'Outside of placeholders every character of the format matches exactly that character: regex metacharacters have no special meaning, {{ and }} stand for one brace, escape sequences mean what they mean in Rust, and case, white space and Unicode are matched exactly. The same holds for the formats of derived types.',
     ['inputs', 'programs'], 'every input text, for formats with each metacharacter, escape and brace combination',
     'A character that is not escaped correctly still matches itself in most tests; only inputs that differ from the literal text show it.',
     ['escape', 'lits', 'anchors'], ['Ok or Err of sscanf! and of derived types'])
prop('C05', 'Derived structs fill every field from its own placeholder',
     'A derived struct accepts exactly the texts that its format describes, and each field gets the value of the placeholder that names it by name, by index or by position, whatever the order of placeholders and fields. Defaulted fields get their default, transparent structs are read like their only field, and generic or borrowed fields work the same way.',
     ['inputs', 'programs'], 'every input for named, tuple, unit, generic and transparent structs with all ways to refer to fields',
     'Swapped or shifted fields only show for inputs where the values differ and are accepted in both places.',
     ['structs', 'group', 'conv'], ['fields of the value that sscanf! returns'])
prop('C06', 'Derived enums build the first variant that describes the text',
     'Reading a derived enum builds the first variant, in the order of declaration, whose format lets the whole input match, with its fields filled from that variant\'s own placeholders. Skipped variants are never built and texts that no variant describes give an error.',
     ['inputs', 'programs'], 'every input for enums with overlapping, nested, skipped and field-carrying variants',
     'The captures of all variants share one regex; mixed-up captures need particular variants and texts to show.',
     ['enums', 'group', 'conv'], ['variant and fields of the value that sscanf! returns'])
prop('C07', 'Nested types take exactly their own captures',
     'A derived or hand-written type can be used inside of other formats and types at any depth, any number of times and beside any other placeholder: every value, inner or outer, comes from its own part of the text. The result is the same as if the inner format were written out in place.',
     ['inputs', 'programs'], 'every input for nestings of structs, enums and hand-written implementations',
     'Captures are counted by position; an error in the count shifts values only for particular nestings.',
     ['group', 'structs', 'enums', 'conv'], ['the values that sscanf! returns'])
prop('C08', 'Field attributes: default, map, filter_map, from and try_from',
     'A field with map gets the function applied to the value of the type the closure names, with filter_map the match fails exactly if the function returns None, with from and try_from the conversion of that type is used and its failure is an error, and with default the field needs no text. Each conversion is called exactly once with the value of its own placeholder, and only for the variant that matched.',
     ['inputs', 'programs'], 'every input for structs and enums with each attribute, alone and combined',
     'The tests use one input per attribute; the values that make conversions fail or take the wrong operand are many.',
     ['fields', 'attrs', 'structs'], ['fields of the result, the calls of the closures'])
prop('C09', 'Errors tell a failed match from a failed conversion and keep the cause',
     'An input that the format does not describe is reported as a failed match; an input that has the described form but holds a text that a type refuses is reported as a failed conversion with the error of that type as its cause. The cause is the error of the first refusing placeholder and can be reached through the chain of error sources.',
     ['inputs'], 'every input, for conversions of std types, custom types and field attributes, nested and not',
     'The tests look at error kinds for two or three inputs.',
     ['errors', 'conv', 'fields'], ['the returned Error, its Display and source()'])
prop('C10', 'from_str reads the same language as sscanf! and parse()',
     'T::from_str(text) of FromScanf gives the same value, or the same kind of error, as sscanf!(text, "{T}"): the whole text has to match. For types with FromStr it returns exactly what text.parse() returns, with its error as the cause. This holds for derived types, hand-written ones, and regexes with a | at the top level.',
     ['inputs'], 'every input for derived, hand-written and standard types',
     'from_str has its own regex and its own anchoring; a difference only shows for texts that one of the two rejects.',
     ['fromstr', 'anchors', 'conv'], ['result of FromScanf::from_str'])
prop('C11', 'sscanf_get_regex! describes what sscanf! accepts',
     'The regex that sscanf_get_regex! returns for a format matches exactly the inputs whose form sscanf! accepts for that format, from the first to the last character, and its numbered groups hold the text of each placeholder in order.',
     ['inputs', 'programs'], 'every input, for formats with all kinds of placeholders',
     'The tests compare a few regex strings.',
     ['anchors', 'group', 'static'], ['matches and groups of the regex'])
prop('C12', 'sscanf_unescaped! treats text outside of placeholders as regex',
     'In sscanf_unescaped! and format_unescaped the text outside of placeholders is a regex: classes, repetition, alternation, non-capturing groups and doubled braces have their regex meaning, the whole input has to match, including every branch of a top-level alternation, and placeholders still return their own parts.',
     ['inputs', 'programs'], 'every input, for regexes of each kind around placeholders',
     'The tests only show one or two unescaped formats with matching inputs.',
     ['escape', 'anchors', 'lits'], ['result of sscanf_unescaped!'])
prop('C13', 'Custom regexes {:/.../} replace the pattern of a placeholder only',
     'A placeholder with {:/regex/} takes exactly a text that the regex matches, whatever the type: the regex replaces the one of the type, an alternation stays inside the placeholder, escapes of / and braces mean that character, and neighbours and literal text are not affected. The text is converted by the type as usual, and a text that the type refuses is a failed conversion.',
     ['inputs', 'programs'], 'every input, for custom regexes with classes, alternation, repetition, braces and escapes',
     'A regex that leaks out of its placeholder still accepts the inputs of the tests.',
     ['fmt', 'group', 'conv'], ['result of sscanf!'])
prop('C14', 'autogen reads exactly the names of the variants in the given case',
     'With autogen a variant is read from its name in the given case (lower case, UPPER CASE, snake_case, kebab-case, PascalCase and so on, CaseSensitive as written, CaseInsensitive in any mixture of upper and lower case), and from nothing else; a format on a variant takes precedence, skipped variants are not read, and the first of several matching variants is built.',
     ['inputs', 'programs'], 'every input, for enums with each case option and kind of name',
     'The tests list some names; wrongly split words, digits or cases of other names are not seen.',
     ['autogen', 'enums', 'attrs'], ['variant of the value that sscanf! returns'])
prop('C15', 'Text placeholders: what they match, borrow, and from which inputs',
     'str, String and Cow<str> take one or more characters other than a line break, as few as possible, PathBuf as many as possible, char takes one character, bool takes true or false. Borrowed results point into the input, without copy or shift, at the right place and length. Every kind of input expression (str, String, references, boxes, slices, own types) is read by its text and evaluated exactly once, and names of the caller keep their meaning.',
     ['inputs', 'programs'], 'every input text incl. multi-byte characters, all text types, 20 kinds of input expressions',
     'Slices at the wrong byte only show with multi-byte characters; the tests use ASCII.',
     ['rx', 'conv', 'anchors', 'types'], ['values and addresses of the results'])
prop('C16', 'Floating point numbers and number wrappers',
     'f32 and f64 accept exactly the documented form (sign, digits, fraction, exponent, nan and inf) and return the same value as parse() of that text, with an error for anything else and never a different number. FullF32, FullF64 and HexNumber accept their documented forms and return the number.',
     ['inputs'], 'every input text for f32, f64 and the wrappers',
     'The forms of numbers combine in too many ways for a list.',
     ['rx', 'newtypes', 'conv'], ['the returned number, bit for bit'])
prop('C17', 'Placeholders and types or fields are matched up, one to one',
     'In sscanf! placeholders without a name take the listed types in order, {0}, {1} and so on the type at that position, {type} the type itself; every listed type has to be used. In derived structs and enum variants placeholders without a name take the fields that are not named and have no default, in order of declaration, and {name} or {0} that field; every field gets its value from exactly one placeholder or from default. What fits is accepted, and anything else (too many or too few placeholders, unknown or repeated names, indexes out of range) is an error of compilation.',
     ['programs'], 'every combination of types, fields, defaults and placeholders within the bounds',
     'The ways to mix names, positions and defaults multiply; the tests show a few that fit and a few that do not.',
     ['fmt', 'types', 'structs', 'enums'], ['generated code, or the error of the macro'])
prop('C18', 'Well-formed format strings are accepted, others are compile errors',
     'A format string of the documented syntax (literal text, {{ and }}, placeholders {}, {name}, {type}, each with the options :/regex/, :x, :o, :b with and without #, :r2 to :r36) compiles into the regex that it stands for, in sscanf!, sscanf_unescaped!, sscanf_get_regex! and derived types. Any other (unbalanced or stray braces, unknown options, radix out of range or on types that have none, invalid or capturing custom regexes, names that are no type) is an error of compilation; the macros never panic and never accept it silently.',
     ['programs', 'inputs'], 'every format string within the bounds',
     'The macro reads any string; the tests have a list of some malformed ones.',
     ['fmt', 'lits', 'escape', 'radix'], ['generated regex, or the error of the macro'])
prop('C19', 'Attributes of derive: accepted where they belong, with their meaning',
     'Each #[sscanf(..)] attribute is accepted only on the items it is documented for (format, format_unescaped and transparent on structs and variants, skip on variants, autogen and autogenerate on enums, default, map, filter_map, from and try_from on fields), only with the documented kind of value, and at most one per item; a string without a name is format, or format_unescaped if it is a raw string; from, try_from, map and filter_map match the source type; anything else is an error of compilation and never ignored.',
     ['programs'], 'every attribute name, value and pair of attributes within the bounds',
     'The tests list some wrong attributes; a misspelled or misplaced one that is silently ignored changes what a type accepts.',
     ['attrs', 'fields', 'autogen', 'structs', 'enums'], ['generated regex, or the error of the macro'])
prop('C20', 'The macros take an input, a format string and types, nothing else',
     'sscanf! and sscanf_unescaped! take an input expression, a string literal and a list of types (paths or &str), sscanf_get_regex! a string literal and types, separated by commas, with at most one comma at the end. The input is evaluated as it was written. A call of this form whose format string fits its types is accepted; any other (missing or doubled commas, literals that are no strings, other kinds of types, missing or additional arguments) is an error of compilation, and no call makes the macro panic.',
     ['programs'], 'every call within the bounds',
     'Macros read any tokens; the tests list some wrong calls, and an argument that is silently dropped or a call that is wrongly rejected is seen only by the user who writes it.',
     ['macros', 'fmt', 'types'], ['generated code, or the error of the macro'])

LEVEL_NOTE = ('Symbolic execution of the LLVM IR that rustc makes of the real crate, the real macro expansion, regex-automata and std, from a harness that calls the public macros; '
              'every branch and assertion is decided by symx\'s rewriting or z3 over all texts within the bounds of the evidence file; counterexamples are only reported if a native build reproduces them, '
              'and a sample of the explored paths is replayed natively too. Nothing is claimed outside of the bounds (longer texts, other programs). Trusted: rustc, symx, z3.')
prop('C21', 'Borrowed results cannot outlive the input',
     'A result that borrows from the input (&str, Cow<str> and derived types that hold them) has the lifetime of the input, so a program that uses it after the input is gone does not compile. Owned results are independent of the input and can be used for any time.',
     ['programs'], 'every program that keeps a result of sscanf!',
     'Tests can only show programs that compile; each of those that must not compile would need its own test.',
     ['structs', 'enums', 'types'], ['whether the program compiles'])
prop('C22', 'Calls from several threads at once give the results of single calls',
     'sscanf! at one call site and from_str of one type can be called from any number of threads at once, also for the first time, and each call returns what it would return alone.',
     ['schedules'], 'every interleaving of calls',
     'The tests call from one thread each; an interleaving inside of the first use happens rarely.',
     ['static', 'fromstr'], ['results of concurrent calls'])
NOT = [dict(property='C21', reason='A matter of types: rustc decides it when the user\'s program is compiled, and the compiled code that is executed symbolically has no trace of lifetimes. That borrowed results point into the input at the right place is decided in C15.'),
       dict(property='C22', reason='The executor runs one thread. All shared state of a call site is a lazy_static (std::sync::Once) with a Regex inside; the crate denies unsafe code and has no synchronization of its own, so the interleavings to explore are those of std and regex, whose futex and thread-local code is outside of what can be encoded here. Histories of calls in one thread are decided in C03 and C10.')]

exec(open(f'{V}/tools/meta2.py').read()) if os.path.exists(f'{V}/tools/meta2.py') else None

MAC_NOTE = ('The source of sscanf_macro, compiled as a library without the connection to rustc, is executed symbolically (LLVM IR) on token streams with symbolic characters, and what it generates is compared with an independent reading of the documentation; '
            'every branch and assertion is decided by symx\'s rewriting or z3 within the bounds of the evidence file; counterexamples are replayed natively. Trusted: rustc, proc-macro2\'s own tokenizer in place of that of rustc, symx, z3.')
have = [p for p in L if p['id'] in props.PROPS or p['id'] in [n['property'] for n in NOT]]
with open(f'{V}/properties.jsonl', 'w') as h:
    for p in have:
        assert len(p['title']) <= 80, p['title']
        h.write(json.dumps(p) + '\n')
checks = [dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} quick', thorough_cmd=f'python3 check.py {p["id"]} thorough',
               technique='symbolic execution of the compiled code (LLVM IR) with SMT', level='model_checking', level_note=MAC_NOTE if p['id'] >= 'C17' else LEVEL_NOTE)
          for p in have if p['id'] in props.PROPS]
json.dump(dict(version=1, setup_cmd='cargo +stable build --release --offline --manifest-path symx/Cargo.toml --target-dir .build/symx',
               checks=checks, not_applicable=NOT, notes='No hooks: the harness uses the public API, and /repo carries only fix: commits. See DESIGN.md.'),
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
for a, b in (('properties.jsonl', 'PROPERTIES'), ('MANIFEST.json', 'MANIFEST')):
    try:
        import jsonschema
    except ImportError:
        break
    s = json.load(open(f'/root/.vp/{b}.schema.json'))
    for d in ([json.loads(l) for l in open(f'{V}/{a}')] if a.endswith('l') else [json.load(open(f'{V}/{a}'))]):
        jsonschema.validate(d, s)
print(len(have), 'properties', len(checks), 'checks')
