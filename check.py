#!/usr/bin/env python3
"""Decides one property: check.py C01 [quick|thorough]

1. builds symx (the symbolic executor) and the harness of the property against /repo's working tree,
   and lowers the harness with all of sscanf, regex-automata and std linked in to LLVM IR;
2. symx executes the entry points on symbolic inputs; z3 decides every branch and every check;
3. finished paths (a sample) and all counterexamples are replayed on a native build;
4. writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines.

exit 0: holds within the bounds; 1: violated, reproduced natively; anything else: no answer.
"""
import json, os, re, subprocess, sys, threading, time, shutil, hashlib, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SSCANF_REPO', '/repo')
B = os.path.join(V, '.build')
T0 = time.time()
TOOLCHAIN = '1.90.0'
sys.path.insert(0, V)
import props


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


class CompileError(Exception):
    def __init__(self, what, out):
        self.what, self.out = what, out


def run(cmd, timeout=800, env=None, cwd=None, check=True):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=e, cwd=cwd)
    if check and r.returncode != 0:
        raise NoAnswer(f'{" ".join(cmd)[:200]} failed ({r.returncode}):\n{r.stdout[-3000:]}')
    return r


def build_symx():
    run(['cargo', '+stable', 'build', '--release', '--offline', '--manifest-path', f'{V}/symx/Cargo.toml', '--target-dir', f'{B}/symx'])
    log('symx built')
    return f'{B}/symx/release/symx'


def llvm_bin():
    return run(['rustc', '+stable', '--print', 'sysroot']).stdout.strip() + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'


def entries_of(src, feature):
    """the entry points of a harness module: `fn cNN_name()` inside harness! { }"""
    text = open(f'{src}/src/{feature}.rs').read()
    return sorted(set(re.findall(rf'\b{feature[:3]}_[a-z0-9_]+\b', text)))


def harness_dir(m):
    if m['kind'] == 'mac':
        import mac
        return mac.prepare(V, REPO, B)
    return f'{V}/harness/rt'


def compile_failed(what, out):
    """The harness holds programs of the documented form. If /repo itself builds and they do not,
    that is a violation; if /repo does not build, there is no answer."""
    r = run(['cargo', 'build', '--offline', '--manifest-path', f'{REPO}/Cargo.toml', '--target-dir', f'{B}/repo'],
            env={'RUSTUP_TOOLCHAIN': TOOLCHAIN}, check=False)
    if r.returncode != 0:
        raise NoAnswer(f'{REPO} does not build:\n{r.stdout[-2000:]}')
    raise CompileError(what, out)


def cargo_env(target):
    return {'RUSTUP_TOOLCHAIN': TOOLCHAIN, 'CARGO_TARGET_DIR': target, 'CARGO_NET_OFFLINE': 'true'}


def name_of(m):
    return '-'.join([m['kind'], m['feature']] + ([m['profile']] if 'profile' in m else []))


def build_ir(m):
    d, f = m['dir'], m['feature']
    profile = m.get('profile', 'release')
    target = f'{B}/ir-{name_of(m)}'
    env = cargo_env(target)
    env['RUSTFLAGS'] = '-C no-vectorize-loops -C no-vectorize-slp'
    crate = m['kind']
    for x in (os.listdir(f'{target}/{profile}/deps') if os.path.isdir(f'{target}/{profile}/deps') else []):
        if x.startswith(crate + '-') and x.endswith('.bc'):
            os.remove(f'{target}/{profile}/deps/{x}')
    # a changed flag forces the final crate to be rebuilt even if cargo thinks it is fresh
    os.utime(f'{d}/src/lib.rs')
    r = run(['cargo', 'rustc', '--offline', '--profile', profile, '--lib', '--crate-type', 'staticlib', '--features', f, '--', '--emit=llvm-bc'],
            env=env, cwd=d, check=False)
    if r.returncode != 0:
        compile_failed(f'{crate} {f}', r.stdout)
    bcs = [x for x in os.listdir(f'{target}/{profile}/deps') if x.startswith(crate + '-') and x.endswith('.bc')]
    if len(bcs) != 1:
        raise NoAnswer(f'expected one bitcode file, found {bcs}')
    out = f'{B}/{name_of(m)}.ll'
    run([f'{llvm_bin()}/opt', '-passes=internalize,globaldce,strip-dead-prototypes', '-strip-debug',
         '-internalize-public-api-list=' + ','.join(entries_of(d, f)), f'{target}/{profile}/deps/{bcs[0]}', '-S', '-o', out])
    log(f'IR of {name_of(m)}: {os.path.getsize(out) >> 20} MB')
    return out


def build_native(d, kind, feats, profile):
    target = f'{B}/native-{kind}'
    r = run(['cargo', 'build', '--offline', '--profile', profile, '--bin', 'replay', '--features', ','.join(['native'] + feats)],
            env=cargo_env(target), cwd=d, check=False)
    if r.returncode != 0:
        compile_failed(f'{kind} {feats} natively', r.stdout)
    log(f'native {kind} {profile} built')
    return f'{target}/{"debug" if profile == "dev" else profile}/replay'


def replay(binary, cases):
    """cases: (entry, params, hexbytes); returns (verdict, reached labels) for each"""
    if not cases:
        return []
    f = f'{B}/replay-{os.getpid()}-{threading.get_ident()}.in'
    with open(f, 'w') as h:
        for e, p, b in cases:
            h.write(f'{e} {",".join(map(str, p))} {b}\n')
    r = run([binary, f], timeout=300, check=False)
    os.remove(f)
    lines = [l for l in r.stdout.splitlines() if '\t' in l]
    res = []
    for i in range(len(cases)):
        if i < len(lines):
            v, l = lines[i].split('\t', 1)
            res.append((v, l))
        else:
            res.append((f'abort:{r.returncode}', ''))
    if len(lines) < len(cases) and len(cases) > 1:
        # the process died: one process for each case
        return [replay(binary, [c])[0] for c in cases]
    return res


def symx(binary, ll, out, tasks, time_limit, xcheck, jobs):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [binary, ll, out, '--time', str(int(time_limit)), '--jobs', str(jobs)]
    if xcheck:
        cmd.append('--xcheck')
    try:
        r = run(cmd + tasks, timeout=time_limit + 60, check=False)
    except subprocess.TimeoutExpired:
        raise NoAnswer('symx did not end in time')
    res = []
    for x in os.listdir(out):
        if x.startswith('task'):
            res.append(json.load(open(f'{out}/{x}')))
    mod = json.load(open(f'{out}/module.json')) if os.path.exists(f'{out}/module.json') else {}
    want = sum(int(t.rsplit('/', 1)[1]) if '/' in t else 1 for t in tasks)
    if not res or not mod:
        raise NoAnswer(f'symx failed ({r.returncode}):\n{r.stdout[-2500:]}')
    if r.returncode != 0 or len(res) != want:
        # some workers were ended; what the others found still counts
        z = {k: type(v)() for k, v in res[0].items()}
        res.append(dict(z, task='?', entry='?', parts=2, incomplete=[f'symx failed ({r.returncode}), {len(res)} of {want} tasks:\n{r.stdout[-1500:]}']))
    return res, mod


def known_findings(pid):
    k = []
    for l in open(f'{V}/known_findings.txt'):
        m = re.match(r'known: property=(\S+) entry=(\S+) label="([^"]*)" (.*)', l)
        if m and m[1] == pid:
            k.append(dict(entry=m[2], label=m[3], what=m[4], seen=0))
    return k


class Skipped(Exception):
    """the harness of the macro does not fit the way in which the macro is written now"""


def execute(modules, tier, limit, notes):
    """builds and executes the modules; returns those that were executed, the native builds, and the kinds"""
    mods = [dict(m) for m in modules]
    for m in mods:
        m['dir'] = harness_dir(m)
        m['run'] = m['tasks'](tier) if callable(m['tasks']) else m['tasks'][tier]
    kinds = {}
    for m in mods:
        feats = kinds.setdefault(m['kind'], (m['dir'], []))[1]
        if m['feature'] not in feats:
            feats.append(m['feature'])
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(8) as pool:
        sx = pool.submit(build_symx)
        nat = {k: pool.submit(build_native, d, k, f, 'dev') for k, (d, f) in kinds.items()}

        def one(m):
            try:
                ll = build_ir(m)
                if m['kind'] == 'mac':
                    v = replay(nat['mac'].result(), [(m['feature'] + '_readable', [], '')])[0][0]
                    if v != 'ok':
                        raise Skipped(v)
            except CompileError as e:
                if m['kind'] == 'mac':
                    raise Skipped(e.out[-1500:])
                raise
            binary = sx.result()
            with lock:
                left = limit - (time.time() - T0) - 60
                if left < 30:
                    raise NoAnswer('out of time before ' + m['feature'])
                r, mod = symx(binary, ll, f'{B}/out-{name_of(m)}', m['run'], left, tier == 'thorough', 8)
                log(f'{name_of(m)}: {len(r)} tasks, {sum(x["paths"] for x in r)} paths')
                m['res'], m['mod'] = r, mod
            os.remove(ll)
        todo = [(m, pool.submit(one, m)) for m in mods]
        errs, skipped = [], []
        for m, f in todo:
            try:
                f.result()
            except Skipped as e:
                skipped.append(m)
                notes.append(f'{m["kind"]} {m["feature"]} was not executed: the source of the macro, or the code it generates, has a form that this harness does not know: {e}')
            except Exception as e:
                errs.append(e)
        gone = {k for k in kinds if all(m in skipped for m in mods if m['kind'] == k)}
        for k in gone:
            del nat[k], kinds[k]
        for f in list(nat.values()) + [sx]:
            try:
                f.result()
            except Exception as e:
                errs.append(e)
    for e in errs:
        if isinstance(e, CompileError):
            raise e
    if errs:
        raise errs[0]
    return [m for m in mods if m not in skipped], {k: f.result() for k, f in nat.items()}, kinds


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    P = props.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(B, exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    ev_path = f'{V}/evidence/{pid}.json'
    if os.path.exists(ev_path):
        os.remove(ev_path)
    limit = 830 if tier == 'quick' else 6 * 3600
    notes = []
    mods, nat, kinds = [], {}, {}
    for stage in (P['modules'], P.get('fallback', [])):
        if mods:
            break
        try:
            mods, nat, kinds = execute(stage, tier, limit, notes)
        except CompileError as e:
            path = f'{B}/violation-{pid}-compile.txt'
            open(path, 'w').write(f'{REPO} builds, but these programs of the documented form do not ({e.what}):\n\n{e.out[-20000:]}')
            evidence(pid, tier, seed, P, [], 0, 1, [], notes + ['not executed: the harness programs were rejected by the compiler'])
            print(f'VIOLATION property={pid} replay={path}')
            return 1
    for n in notes:
        log(n)

    res = [(m, t) for m in mods for t in m['res']]
    # sample paths: the native build has to agree with the symbolic execution
    validated = 0
    mismatches = []
    strays = []
    for k, binary in nat.items():
        cases = [(t, s) for m, t in res if m['kind'] == k for s in t['samples'] if not any(v['bytes'] == s['bytes'] for v in t['violations'])]
        out = replay(binary, [(t['entry'], t['params'], s['bytes']) for t, s in cases])
        for (t, s), (v, l) in zip(cases, out):
            if v == 'ok' and l == s['reach']:
                validated += 1
            elif v.startswith('check:') and t['violations']:
                pass  # the same path also has a reported counterexample
            elif v.startswith(('check:', 'panic:')):
                # the real code fails this check: alone, or after the cases before it in this process
                alone = replay(binary, [(t['entry'], t['params'], s['bytes'])])[0][0]
                strays.append(dict(entry=t['entry'], params=t['params'], bytes=s['bytes'], text=s['text'], kind='replay', msg=v.split(':', 1)[1], stack=[], dev=v,
                                   release='not run; alone: ' + alone + (' (it depends on the calls before it in this process)' if alone == 'ok' else '')))
            else:
                mismatches.append((t['entry'], t['params'], s, v, l))
    log(f'{validated} sample paths agree with the native build')
    found = []
    not_reproduced = []
    cand = [(m, t, v) for m, t in res for v in t['violations']]
    if cand:
        natu = {}
        for k in set(m['kind'] for m, _, _ in cand):
            d, f = kinds[k]
            natu[k] = build_native(d, k, f, 'user')
        for k in natu:
            cs = [(m, t, v) for m, t, v in cand if m['kind'] == k][:60]
            inp = [(t['entry'], t['params'], v['bytes']) for _, t, v in cs]
            for (m, t, v), a, b in zip(cs, replay(nat[k], inp), replay(natu[k], inp)):
                bad = [x[0] for x in (a, b) if x[0] != 'ok' and x[0] != 'assumed']
                if bad:
                    found.append(dict(entry=t['entry'], params=t['params'], bytes=v['bytes'], text=v['text'], kind=v['kind'], msg=v['msg'], stack=v['stack'], dev=a[0], release=b[0]))
                else:
                    not_reproduced.append((t['entry'], t['params'], v['kind'], v['msg'], v['text'], a[0], b[0]))
    found += strays[:20]
    known = known_findings(pid)
    new = []
    for f in found:
        k = next((k for k in known if k['entry'] == f['entry'] and k['label'] in (f['msg'], f['dev'], f['release'])), None)
        if k:
            k['seen'] += 1
        else:
            new.append(f)
    inc = [f'{t["task"]}: {i}' for _, t in res for i in t['incomplete']]
    reach = {}
    for _, t in res:
        for l, n in t['reach'].items():
            reach[l] = reach.get(l, 0) + n
    vac = [l for k in kinds for l in P.get('mac_reach' if k == 'mac' else 'reach', []) if not reach.get(l)]
    vac += [f'{t["task"]}: no path finished' for _, t in res if t['paths'] == 0 and t['parts'] == 1]
    per = {}
    for _, t in res:
        for l, n in t['reach'].items():
            per.setdefault(t['entry'], {}).setdefault(l, 0)
            per[t['entry']][l] += n
    evidence(pid, tier, seed, P, mods, validated, len(new), inc, notes)
    for k in known:
        if k['seen']:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if new:
        path = f'{B}/violation-{pid}.txt'
        with open(path, 'w') as h:
            h.write(f'Counterexamples to {pid}, reproduced on a native build of {REPO}.\n'
                    f'Each: entry of the harness, task parameters, symbolic bytes; "replay FILE" of the harness runs a line "entry params hex".\n\n')
            for f in new:
                h.write(f'{f["entry"]} {",".join(map(str, f["params"]))} {f["bytes"]}\n  input bytes: {f["text"]}\n  {f["kind"]}: {f["msg"]}\n'
                        f'  native dev: {f["dev"]}\n  native release: {f["release"]}\n  stack: {" < ".join(f["stack"][:12])}\n\n')
        for f in new[:3]:
            log('counterexample', f['entry'], f['params'], f['text'][:200], f['msg'][:200], '| native:', f['dev'][:200])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if not_reproduced:
        raise NoAnswer(f'counterexamples that the native build does not confirm: {not_reproduced[:3]}')
    if mismatches:
        raise NoAnswer(f'{len(mismatches)} paths differ natively: {mismatches[:3]}')
    if inc:
        raise NoAnswer(f'not complete: {inc[:5]}')
    if vac:
        raise NoAnswer(f'vacuous: {vac[:10]}')
    log(f'{pid} holds within the bounds')
    return 0


def evidence(pid, tier, seed, P, mods, validated, nviol, inc, notes):
    ts = [t for m in mods for t in m.get('res', [])]
    S = lambda k: sum(t[k] for t in ts)
    fns = sorted({f for t in ts for f in t['functions']})
    own = [f for f in fns if 'sscanf' in f]
    samples = [dict(entry=t['entry'], params=t['params'], input=s['text'], reached=s['reach']) for t in ts for s in t['samples'][:2]][:30]
    reach, labels = {}, {}
    for t in ts:
        for l, n in t['reach'].items():
            reach[l] = reach.get(l, 0) + n
        for l, n in t['check_labels'].items():
            labels[l] = labels.get(l, 0) + n
    d = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=S('paths') + S('forks'), transitions=S('instrs'), traces_validated_against_impl=validated,
            samples=samples,
            paths=S('paths'), paths_outside_the_assumptions=S('assumed_away'),
            tasks=len(ts), entries=sorted({t['entry'] for t in ts}),
            branch_decisions=dict(by_domains=S('fast'), by_rewriting=S('rewritten'), cached=S('cached'), syntactic=S('syntactic'), by_z3=S('z3')),
            z3=dict(queries=S('z3'), sat=S('z3_sat'), unsat=S('z3_unsat'), seconds=round(S('z3_s'), 2), longest_s=max([t['z3_max_s'] for t in ts] or [0]), rewrites_cross_checked=S('xchecks')),
            checks=dict(executed=S('checks'), decided_by_solver=S('checks_solver'), constant_after_simplification=S('checks_const'), labels=labels),
            vacuity_witnesses=reach,
            bounds=P['bounds'], complete=not inc, incomplete=inc[:20],
            functions_encoded=len(fns), functions_of_sscanf_and_harness=own[:150],
            ir=[m.get('mod', {}) for m in mods],
            max_symbolic_bytes_on_a_path=max([t['max_vars'] for t in ts] or [0]),
            notes=notes,
        ),
        assumptions=props.COMMON + P.get('assumptions', []),
        wall_s=round(time.time() - T0, 1), violations=nviol)
    json.dump(d, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)


if __name__ == '__main__':
    try:
        code = main()
    except NoAnswer as e:
        print(f'no answer: {str(e)[:4000]}', file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
