#!/usr/bin/env python3
"""plant.py ID...: (re)create /verif/seeded/ID from tools/plants/ID.py and try it out.

A definition sets PROP, NEEDS, BREAKS, EDITS = [(file, old, new)] and either MAIN (Rust source of
a program on top of tools/demo) or SH (a shell script). Nothing here is read by any check."""
import json, os, shutil, subprocess, sys, tempfile
V, R = '/verif', '/repo'

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def make(i):
    d = {}
    exec(open(f'{V}/tools/plants/{i}.py').read(), d)
    out = f'{V}/seeded/{i}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    assert sh(f'git -C {R} status --porcelain').stdout == '', 'repo not clean'
    for f, a, b in d['EDITS']:
        p = f'{R}/{f}'
        s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    open(f'{out}/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
    sh(f'git -C {R} checkout -- .')
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']},
              open(f'{out}/meta.json', 'w'), indent=1)
    if 'MAIN' in d:
        t = f'{V}/tools/demo'
        for f in ['Cargo.toml', 'Cargo.lock', 'demo.sh']:
            shutil.copy(f'{t}/{f}', out)
        shutil.copytree(f'{t}/src', f'{out}/src')
        open(f'{out}/src/main.rs', 'w').write('mod common;\nmod crypto;\nmod wire;\nuse common::*;\n\n' + d['MAIN'].lstrip('\n'))
    else:
        open(f'{out}/demo.sh', 'w').write('#!/bin/bash\n' + d['SH'].lstrip('\n'))
        for n, t in d.get('FILES', {}).items():
            open(f'{out}/{n}', 'w').write(t)
    return d, out

def demo(out):
    # as it is run: in a folder elsewhere, without patch and meta
    with tempfile.TemporaryDirectory() as t:
        shutil.copytree(out, f'{t}/d', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = sh(f'bash {t}/d/demo.sh', cwd=R, timeout=300)
        return r.returncode, (r.stdout + r.stderr).strip()[-400:]

def tests():
    sh('bash /opt/vp/build.sh')
    r = sh('bash /opt/vp/test.sh /tmp/plant_test.json')
    want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
    got = json.load(open('/tmp/plant_test.json'))
    return sorted(want - set(got['passed']))

for i in sys.argv[1:]:
    check = True
    if i.startswith('-'):
        continue
    d, out = make(i)
    if '--dry' in sys.argv: continue
    c, o = demo(out)
    print(i, 'unchanged demo', c, o if c else '', flush=True)
    try:
        r = sh(f'git -C {R} apply {out}/patch.diff'); assert r.returncode == 0, r.stderr
        b = sh('bash /opt/vp/build.sh')
        print(i, 'build', b.returncode, (b.stdout + b.stderr)[-600:] if b.returncode else '', flush=True)
        print(i, 'tests lost', tests(), flush=True)
        c, o = demo(out)
        print(i, 'patched demo', c, o if not c else o[-150:], flush=True)
        if '--nocheck' not in sys.argv:
            r = sh(f'SIM_ROOT=/tmp/plantv bash {V}/check.sh {d["PROP"]}')
            print(i, 'check', d['PROP'], r.returncode, '\n'.join(l[:220] for l in r.stdout.split('\n') if l.startswith(('run ', 'VIOL', 'minimised:', 'HARN', 'BUILD', '(seen'))), flush=True)
    finally:
        sh(f'git -C {R} checkout -- .')
