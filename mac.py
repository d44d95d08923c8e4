"""The harness of the macro: a copy of the current source of sscanf_macro, built as a normal library."""
import os, re, shutil, tomllib


def dep(name, d):
    d = dict(version=d) if isinstance(d, str) else dict(d)
    d.pop('path', None)
    if name in ('proc-macro2', 'quote', 'syn'):
        # without the connection to the compiler
        d['features'] = [f for f in d.get('features', []) if f != 'proc-macro'] + (['parsing', 'printing', 'derive', 'full', 'clone-impls'] if name == 'syn' else [])
        d['default-features'] = False
    return d


def toml(d):
    f = lambda v: ('true' if v else 'false') if isinstance(v, bool) else '[' + ', '.join(map(f, v)) + ']' if isinstance(v, list) else '"' + v + '"'
    return '{ ' + ', '.join(f'{k} = {f(v)}' for k, v in d.items()) + ' }'


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)


def prepare(V, REPO, B):
    d = f'{B}/mac'
    src = f'{REPO}/sscanf_macro'
    m = tomllib.load(open(f'{src}/Cargo.toml', 'rb'))
    deps = {k: dep(k, v) for k, v in m['dependencies'].items()}
    syn = deps.pop('syn')
    if 'strsim' in deps:
        deps['strsim'] = dict(path='../strsim')
    feats = m.get('features', {})
    write(f'{d}/syn_facade/Cargo.toml', f"""[package]
name = "syn_facade"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
[dependencies]
real_syn = {toml(dict(syn, package='syn'))}
proc-macro2 = {{ version = "1", default-features = false }}
fake_proc_macro = {{ path = "../proc_macro" }}
""")
    write(f'{d}/core/Cargo.toml', f"""[package]
name = "sscanf_macro"
version = "{m['package']['version']}"
edition = "{m['package'].get('edition', '2015')}"
[features]
""" + ''.join(f'{k} = []\n' for k in feats) + """[dependencies]
syn = { path = "../syn_facade", package = "syn_facade" }
proc_macro = { path = "../proc_macro", package = "fake_proc_macro" }
""" + ''.join(f'{k} = {toml(v)}\n' for k, v in deps.items()))
    keep = set()
    for root, _, files in os.walk(f'{src}/src'):
        for f in files:
            p = os.path.join(root, f)
            q = f'{d}/core/src/' + os.path.relpath(p, f'{src}/src')
            keep.add(q)
            t = open(p).read()
            t = re.sub(r'(?m)^[ \t]*#\[proc_macro(_derive|_attribute)?(\([^\n]*\))?\][ \t]*$', '', t)
            write(q, t)
    for root, _, files in os.walk(f'{d}/core/src'):
        for f in files:
            if os.path.join(root, f) not in keep:
                os.remove(os.path.join(root, f))
    h = f'{V}/harness/mac'
    for root, _, files in os.walk(h):
        for f in files:
            p = os.path.join(root, f)
            if '/target/' not in p:
                write(f'{d}/' + os.path.relpath(p, h), open(p).read())
    write(f'{d}/src/sym.rs', open(f'{V}/harness/rt/src/sym.rs').read())
    return d


if __name__ == '__main__':
    V = os.path.dirname(os.path.abspath(__file__))
    import sys
    print(prepare(V, '/repo', sys.argv[1] if len(sys.argv) > 1 else f'{V}/.build'))
