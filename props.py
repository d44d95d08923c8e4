"""The properties: harness modules, task lists, bounds."""

COMMON = [
    'LLVM IR of the harness with sscanf, regex, regex-automata, regex-syntax and std linked in (rustc 1.90.0, opt-level 2, fat LTO, debug assertions and overflow checks on unless stated otherwise), target x86_64',
    'memory allocation never fails; no other threads run',
    'z3 and the rewriting of conditions in symx are trusted (thorough tier: rewrites are cross-checked against z3)',
]


def rt(feature, tasks):
    return dict(kind='rt', feature=feature, tasks=tasks)


def plain(feature, tasks):
    """the same harness as a release build has it, without debug assertions"""
    return dict(kind='rt', feature=feature, tasks=tasks, profile='plain')


def mac(feature, quick, thorough=()):
    """the macro itself as a function on symbolic sources; the thorough tier runs the quick tasks as well"""
    return dict(kind='mac', feature=feature, tasks=dict(quick=quick, thorough=quick + [t for t in thorough if t not in quick]))


INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']

PROPS = {}

PROPS['C01'] = dict(
    modules=[rt('c01', dict(
        quick=[f'c01_{t}:0' for t in INTS] + [f'c01_nonzero:0,{i}' for i in range(12)] + [f'c01_pair:{i},0' for i in range(24)],
        thorough=[f'c01_{t}:1' for t in INTS] + [f'c01_nonzero:1,{i}' for i in range(12)] + [f'c01_pair:{i},1' for i in range(24)]))],
    reach=['value', 'reject'],
    bounds='texts of 0..3 arbitrary bytes and 4 ASCII characters (thorough: 4 and 8); digit strings of len-1..len+2 digits for the number of digits of the limit of the type, all signs, with a window of 2..6 symbolic digits, the other digits being those of the limit (thorough: every window position); the format {T}{u8} for all 24 types with every text of 0..1 bytes and the texts of the limit and 1 or 2 more digits with every window of 1 character',
)


def c02(types):
    # all 44 options for one type are spread over the tiers: the quick tier takes for each type the prefixed options and a third of the bases, and few texts for the others
    def tasks(tier):
        out = []
        for t in types:
            i = INTS.index(t)
            for o in range(44):
                few = tier == 'quick' and 6 <= o <= 39 and (o + i) % 3
                out.append(f'c02_{t}:{o},{2 if few else int(tier != "quick")}')
        return out
    return tasks
PROPS['C02'] = dict(
    modules=[rt('c02' + 'abcd'[k], c02(INTS[3 * k:3 * k + 3])) for k in range(4)],
    reach=['value', 'reject'],
    bounds='for each of the 12 types and the options :x :o :b :#x :#o :#b :r2..:r36 (quick: the prefixed options and a third of the bases; the other bases with digit strings at the limit only, with 1 symbolic digit): texts of 0..2 arbitrary bytes and 3 ASCII characters; digit strings of len-1..len+1 digits for the number of digits of the limit of the type, with every sign and prefix and a window of 2 symbolic digits or characters (thorough: every window position, longer texts)',
)


PROG = 'texts: every UTF-8 text of up to the number of bytes and every ASCII text of up to the number of characters given with each program in harness/rt/src/{f} (0..6, one more in the quick tier, two more in the thorough tier), and for every template of a program (a text of the documented form of up to 60 bytes) every replacement of a run of 2..4 characters, every insertion of one character (thorough: also 1 by 2) and every deletion of one character at every position'


def progs(pid, n, extra=(), heavy=(), deep={}, quick={}, f=None):
    """tasks of a module that consists of programs"""
    e = f'{pid.lower()}_prog'

    def tasks(tier):
        out = []
        for i in range(n):
            d = deep.get(i, 2) if tier == 'thorough' else quick.get(i, 1)
            k = f'{e}:{i},{d}'
            out.append(k + '/8' if tier == 'thorough' and i in heavy else k)
        return out + list(extra(tier) if callable(extra) else extra)
    return [rt(pid.lower(), tasks)]


PROPS['C03'] = dict(modules=progs('C03', 19, ['c03_again'], heavy=[8], quick={18: 0}, deep={18: 1}), reach=['value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c03.rs') + '; 19 formats with 1..40 placeholders; three calls of one call site with two texts of 3 characters out of 4')
PROPS['C04'] = dict(modules=progs('C04', 33, heavy=[23], deep={23: 1}, quick={23: 0}), reach=['value', 'no match'],
    bounds=PROG.format(f='c04.rs') + '; 33 formats (one of 600 characters) that have every ASCII punctuation character, escape sequences, Unicode, doubled braces and raw strings in their literal text')
PROPS['C05'] = dict(modules=progs('C05', 34, heavy=[22], quick={33: 0}), reach=['value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c05.rs') + '; 34 formats with derived structs (one with 260 fields)')
PROPS['C06'] = dict(modules=progs('C06', 31, heavy=[6, 7], deep={6: 1, 29: 1}, quick={29: 0}), reach=['value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c06.rs') + '; 31 formats with derived enums (one with 130 variants)')
PROPS['C07'] = dict(modules=progs('C07', 17, heavy=[3, 6], extra=[f'c07_manual:{i},1' for i in range(4)]), reach=['value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c07.rs') + '; 17 formats with nested derived types, 4 with hand-written implementations')
PROPS['C08'] = dict(modules=progs('C08', 18, ['c08_calls']), reach=['value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c08.rs') + '; 18 formats with attributes on fields')
PROPS['C09'] = dict(modules=progs('C09', 8, [f'c09_chain:{i}' for i in range(4)] + [f'c09_chain:4,{i}' for i in range(5)] + [f'c09_chain:5,{i}' for i in range(4)] + [f'c09_chain:6,{i}' for i in range(3)] + [f'c09_chain:7,{i}' for i in range(13)]), reach=['value', 'no match', 'failed conversion', 'own type', 'filter_map', 'pair', 'number'],
    bounds=PROG.format(f='c09.rs') + '; 8 formats; error values of 4 more, the whole chain of errors of a type with four levels, and of structs whose field fails in each way; numbers with 13 radix options that do not fit')
PROPS['C10'] = dict(modules=progs('C10', 10, quick={9: 0}, deep={9: 1}, extra=lambda t: [f'c10_manual:{1 if t == "quick" else 2}'] + [f'c10_std:{i},{3 if t == "quick" else 5}' for i in range(12)] + [f'c10_again:{i},{2 if t == "quick" else 3}' for i in range(5)]),
    reach=['value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c10.rs') + '; 10 derived types, one of them with a regex that needs 1 to 2 MB when compiled; hand-written implementations; from_str of 13 types with FromStr for texts of up to 5 bytes and 7 ASCII characters (thorough: 7 and 9); two (thorough: three) from_str calls of 5 types, one after the other, on texts of up to 2 characters of 3')
# a release build has no debug assertions: the programs of these properties are executed that way too
for pid, n in [('C03', 19), ('C05', 34), ('C06', 31), ('C07', 17), ('C08', 18)]:
    e = pid.lower() + '_prog'
    PROPS[pid]['modules'].append(plain(pid.lower(), dict(quick=[f'{e}:{i},0' for i in range(n)], thorough=[f'{e}:{i},1' for i in range(n)])))
    PROPS[pid]['bounds'] += '; the programs also without debug assertions, as a release build has them, with the lengths given with each program (thorough: one more)'
PROPS['C11'] = dict(modules=progs('C11', 15, ['c11_alone']), reach=['groups', 'value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c11.rs') + '; 15 formats')
PROPS['C12'] = dict(modules=progs('C12', 14), reach=['value', 'no match'],
    bounds=PROG.format(f='c12.rs') + '; 14 formats')
PROPS['C13'] = dict(modules=progs('C13', 17), reach=['value', 'no match'],
    bounds=PROG.format(f='c13.rs') + '; 17 formats with custom regexes')
PROPS['C14'] = dict(modules=progs('C14', 21), reach=['value', 'no match'],
    bounds=PROG.format(f='c14.rs') + '; 21 enums')
PROPS['C15'] = dict(modules=progs('C15', 16, lambda t: [f'c15_kinds:0,{i}' for i in range(20)] + ['c15_kinds:1', 'c15_once', 'c15_long:2', 'c15_long:300', 'c15_long:7000'] + (['c15_long:40000'] if t == 'thorough' else []), heavy=[13, 11, 10], deep={13: 1}, quick={13: 0}),
    reach=['value', 'no match', 'failed conversion'],
    bounds=PROG.format(f='c15.rs') + '; 16 formats; 20 kinds of input expression; texts of 10, 600, 14000 (thorough: 80000) characters of which one at 4 places is any ASCII character')
PROPS['C16'] = dict(modules=progs('C16', 11, lambda t: ['c16_wrappers'] + [f'c16_near:{i}' for i in range(20)] + ['c16_parse:0,3,0', 'c16_parse:0,4,1', 'c16_parse:1,2,1', 'c16_parse:2,2,1', 'c16_parse:0,5,1', 'c16_prefixes:5', 'c16_prefixes:6'] + (['c16_parse:0,4,0', 'c16_parse:0,6,1', 'c16_parse:1,3,1', 'c16_parse:2,3,1', 'c16_prefixes:8'] if t == 'thorough' else []), heavy=[0, 1, 8]), reach=['value', 'no match', 'failed conversion', 'wrappers'],
    bounds=PROG.format(f='c16.rs') + '; 11 formats; 20 numbers next to limits and halfway points or of hundreds of digits, with any digit at one place, by every route; parse() of the wrappers: texts of 3 bytes or of 4 and 5 ASCII characters, 5 and 6 characters of 0xX1aF_ and space (thorough: 4 bytes, 6 characters, 8 characters)')

# the macro: any format string, name and attribute within windows
R = range


def t(entry, *ranges):
    """all combinations of the parameters"""
    out = ['']
    for r in ranges:
        out = [o + (',' if o else '') + str(x) for o in out for x in (r if not isinstance(r, int) else [r])]
    return [f'{entry}:{o}' for o in out]


MAC = {
    'C03': (t('c03_binding', 3, 1, R(1, 5), 0), t('c03_binding', 2, 2, [2, 3], 0)),
    'C04': (t('c04_text', 2, 0, [0, 1], 0) + t('c04_text', 3, 2, [0, 1], 0) + t('c04_text', 2, 1, 1, [1, 2]) + t('c04_escapes', [0, 2, 3], 4, 0, 0) + t('c04_escapes', 1, 2, 0, 0) + t('c04_between', 1, 0),
            t('c04_text', 3, [0, 1], [0, 1], 0)),
    'C06': (t('c06_variants', 2, [0, 1], R(23)) + t('c06_variants', 3, 0, [2, 7, 10, 16]), t('c06_variants', 3, [0, 1], R(23)) + t('c06_variants', 4, 1, [2, 7, 10])),
    'C08': (t('c08_values', R(4), R(5)), []),
    'C11': (t('c11_formats', R(4), 3) + t('c11_windows', R(3), 1), t('c11_formats', R(4), 4)),
    'C12': (t('c12_formats', R(3), 3, R(3), 1) + t('c12_windows', R(4), 1, [0, 1]), t('c12_formats', R(3), 4, R(3), 1)),
    'C13': (t('c13_formats', R(3), 3, [0, 2], 0) + t('c13_formats', R(3), 4, 0, 1) + t('c13_formats', 0, 5, 0, 1) + t('c13_windows', R(5), 1, R(4)) + t('c13_nested', 2, R(4)), t('c13_formats', R(3), 5, 0, 1) + t('c13_nested', 3, R(4))),
    'C14': (t('c14_words', 2, 2, R(10)) + t('c14_words', 3, 1, 6) + t('c14_words', 2, 1, R(10), [1, 2]) + t('c14_flat', 2, [0, 1]) + t('c14_names', 2, R(3)), t('c14_words', 3, 2, R(10)) + t('c14_words', 3, 1, R(10), [1, 2]) + t('c14_flat', 4, [0, 1]) + t('c14_names', 4, R(3))),
    'C17': (t('c17_types', 3, 1, R(3)) + t('c17_types', 2, 2, 0) + t('c17_structs', 2, 1) + t('c17_structs', 3, 0) + t('c17_enums', 1, 2) + t('c17_windows', R(4), 1, 4, R(4)), t('c17_windows', R(4), 2, 8, R(8)) + t('c17_structs', 3, 1) + t('c17_types', 2, 2, [1, 2]) + t('c17_enums', 2, 2)),
    'C18': (t('c18_formats', 0, 3, R(3)) + t('c18_formats', 1, 4, R(3)) + t('c18_formats', 2, 4, R(3)) + t('c18_formats', 3, 3, 0) + t('c18_formats', 4, 3, R(3)) + t('c18_formats', 5, 3, R(3)) + t('c18_formats', 6, 3, R(3)) + t('c18_formats', 7, 2, R(3)) + t('c18_formats', 8, 1, R(3)) + t('c18_windows', R(5), 1, 0) + t('c18_formats', R(7), 3, [3, 4]) + t('c18_formats', [7, 8], 1, [3, 4]) + t('c18_windows', R(5), 1, [3, 4]) + t('c18_nested', 2, 0, R(5)),
            t('c18_formats', 1, 5, R(3)) + t('c18_formats', 2, 5, R(3)) + t('c18_formats', 4, 4, R(3)) + t('c18_formats', 5, 4, R(3)) + t('c18_formats', 7, 3, R(3)) + t('c18_windows', R(5), 1, [1, 2]) + t('c18_nested', 3, 0, R(5))),
    'C19': (t('c19_pairs', R(4)) + t('c19_others', R(4), 1, 2) + t('c19_others', R(4), 0, 1, 1) + t('c19_two', R(4)) + ['c19_fields'] + t('c19_cases', [0, 3, 6, 9], 1, 0, 0) + t('c19_cases', [0, 3, 6, 9], 0, 0, 1),
            t('c19_cases', [0, 3, 6, 9], 2, 0, 0) + t('c19_others', R(4), 2, 3) + t('c19_others', R(4), 1, 2, 1)),
    'C20': (t('c20_windows', R(7), 1, 4, R(4)) + t('c20_short', R(3), 5) + t('c20_lists', R(4), 1, 4, R(4)), t('c20_lists', R(4), 2, 16, R(16)) + t('c20_windows', [0, 4, 6], 2, 8, R(8)) + t('c20_short', R(3), 6)),
}
MAC_BOUNDS = {
    'C03': 'sscanf! with 3 types and all ways to write 3 placeholders of up to 1 character each (thorough: 2 of 2 characters)',
    'C04': 'literal text of format strings: all of up to 2 (raw: 3) characters, all escape sequences of string literals of up to 4 characters, between 2 placeholders',
    'C06': 'enums of 2 variants of 23 shapes each, and of 3 (thorough: all of 3, some of 4), with and without autogen',
    'C08': 'fields of 4 structs and enums with 52 expressions as default, 32 closures for map and filter_map (12 of a form that is not accepted), 9 types for from and try_from',
    'C11': 'sscanf_get_regex!: formats with up to 3 characters of syntax, and windows of 1 character in longer ones',
    'C12': 'sscanf_unescaped! and format_unescaped: formats with up to 3 characters of regex syntax, windows of 1 character in longer ones',
    'C13': 'custom regexes of up to 5 characters of regex syntax, windows of 1 character in longer ones, and 405 (thorough: 3645) with nested groups, repetitions and alternations',
    'C14': 'variant names of up to 2 (thorough: 3) words of up to 3 letters for each case, as SomeName, some_name and SOME_NAME, all identifiers of up to 3 (thorough: 5) characters',
}
for p, (q, th) in MAC.items():
    m = mac(p.lower(), q, th)
    if p in PROPS:
        PROPS[p]['modules'] = PROPS[p]['modules'] + [m]
        PROPS[p]['bounds'] += '; the macro as a function: ' + MAC_BOUNDS[p]
        PROPS[p]['mac_reach'] = ['accepted'] + ([] if p in ('C04', 'C14') else ['rejected'])


def few(feature, tasks):
    return [rt(feature, dict(quick=tasks, thorough=tasks))]


PROPS['C17'] = dict(modules=[mac('c17', *MAC['C17'])], reach=['value'], mac_reach=['accepted', 'rejected'], fallback=few('c05', [f'c05_prog:{i},0' for i in range(22)]),
    bounds='sscanf!: 0..3 types and 0..3 placeholders with names of up to 1 character (2 of up to 2), structs with 0..3 fields (named or not, each with or without a default) and 0..3 placeholders, enums with 1..2 variants with 0..2 fields and up to 1 placeholder; 4 formats whose fields have names that differ in one character, with every window of 1 character (thorough: 2) replaced')
PROPS['C18'] = dict(modules=[mac('c18', *MAC['C18'])], reach=['value'], mac_reach=['accepted', 'rejected'], fallback=few('c04', [f'c04_prog:{i},0' for i in range(20)]),
    bounds='format strings: every UTF-8 text of up to 2 bytes, every text of up to 3 ASCII characters, up to 4 (thorough: 5) characters of the syntax of placeholders, options, types, escape sequences and regexes; 5 longer format strings with every window of 1 character; for the three macros and for derived structs; 405 (thorough: 3645) custom regexes with nested groups, repetitions and alternations')
PROPS['C19'] = dict(modules=[mac('c19', *MAC['C19'])], reach=['value'], mac_reach=['accepted', 'rejected'], fallback=few('c14', [f'c14_prog:{i},0' for i in range(20)]),
    bounds='structs, variants, enums and fields: all 11 names with 15 kinds of values, with and without a comma; names that differ from these in one character (thorough: two), and all of up to 2 letters; all pairs of attributes of a context in one list and in two; values of autogen that differ from the documented ones in up to one character (thorough: two)')
PROPS['C20'] = dict(modules=[mac('c20', *MAC['C20'])], reach=['value'], mac_reach=['accepted', 'rejected'], fallback=few('c15', [f'c15_kinds:0,{i}' for i in range(20)]),
    bounds='7 macro calls (all three macros, inputs of several forms, raw and plain literals, paths and &str as types) with every window of 1 character (thorough: 2) replaced by 0 up to w+1 characters of 33; 4 calls in which one token (thorough: two) of 62 is inserted anywhere or takes the place of one or two; for each macro all argument texts of up to 5 characters (thorough: 6) of , \" s & r space { } 8')
