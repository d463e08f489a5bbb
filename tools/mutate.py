#!/usr/bin/env python3
"""mutate.py OUT [--files REGEX] [--workers N] [--sample K --seed S]: a mutation campaign in scratch copies under /tmp/mut.

For every mutant of /repo that compiles and keeps the stable tests: the first check (with few
runs) that reports a violation, or SURVIVED. Not used by any check."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
args = sys.argv[1:]
def opt(n, d):
    return args[args.index(n) + 1] if n in args else d
OUT, WORKERS = args[0], int(opt('--workers', 4))
FILES = re.compile(opt('--files', '.'))
SSH = 'C12 C11 C13 C08 C09 C10 C15 C02 C03 C05 C07 C06 C01 C04 C14 C23'.split()
def sh(c, t=600, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, (e.stdout or b'').decode('utf8', 'replace'), 'timeout')

OPS = [(r'<=', '<'), (r'>=', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+= ', '-= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'if !', 'if '), (r'\bif (?!let|!)', 'if !'), (r'\.is_empty\(\)', '.len() > 1'),
       (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'), (r'wrapping_add\(1\)', 'wrapping_add(2)'),
       (r'saturating_add', 'wrapping_add'), (r'\bOk\(\(\)\)', 'Err(())'),
       (r'\.\.=', '..'), (r'checked_sub', 'checked_add'), (r'\^=', '|='), (r'\^', '|'), (r'&mut \*', '&mut *'), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'),
       (r'filter\(', 'skip_while('), (r'\bany\(', 'all('), (r'to_be_bytes', 'to_le_bytes'), (r'from_be_bytes', 'from_le_bytes')]

def mutants(f, text):
    lines = text.split('\n')
    end = next((i for i, l in enumerate(lines) if '#[cfg(test)]' in l), len(lines))
    for i in range(end):
        l = lines[i]
        t = l.strip()
        if not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'where', 'pub struct', 'pub enum', 'struct', 'enum', 'fn ', 'pub fn', 'async fn', 'pub trait', 'type ', '+ ')):
            if not (t.startswith(('fn', 'pub')) and '{' in t and False): continue
        if re.match(r'[\w:<>]+: [\w:<>, =]+( [+-] [\w:<>, ]+)*,?$', t) or t.startswith(') ->') or ': Cell<' in t: continue
        seen = set()
        def y(new, what):
            if new != l and new not in seen:
                seen.add(new)
                return (f, i, what, '\n'.join(lines[:i] + [new] + lines[i + 1:]), l.strip() + '  =>  ' + new.strip())
        for a, b in OPS:
            for m in re.finditer(a, l):
                if '//' in l[:m.start()]: continue
                r = y(l[:m.start()] + b + l[m.end():], a)
                if r: yield r
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.]*\d)', l):
            n = int(m.group(1))
            for k in {n + 1, n - 1} - {-1}:
                r = y(l[:m.start()] + str(k) + l[m.end():], 'const')
                if r: yield r
        if t.endswith(';') and not t.startswith(('let ', 'return', '}', 'type', 'pub', ')', '.')) and t.count('(') == t.count(')'):
            r = y('', 'delete')
            if r: yield r
        if t.endswith('?;') and t.startswith('.'):
            pass

def files():
    o = sh("git -C /repo ls-files '*.rs'").stdout.split()
    return [f for f in o if FILES.search(f) and '/tests/' not in f and 'build.rs' not in f]

jobs = []
for f in files():
    jobs += list(mutants(f, open(f'/repo/{f}').read()))
random.seed(int(opt('--seed', 1)))
random.shuffle(jobs)
jobs = jobs[:int(opt('--sample', len(jobs)))]
done = set()
if os.path.exists(OUT):
    L = [l for l in open(OUT) if not ('--retry' in args and '\tcaught' not in l and '\tno-build' not in l and '\ttests' not in l)]
    open(OUT, 'w').writelines(L)
    done = {l.split('\t')[0] for l in L}
print(len(jobs), 'mutants', len(done), 'done', flush=True)
if '--list' in args:
    sys.exit()
q = queue.Queue()
for j in jobs:
    if f'{j[0]}:{j[1]+1} {j[4]}' not in done: q.put(j)
lock = threading.Lock()
want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])

def work(n):
    d = f'/tmp/mut/w{n}'
    sh(f'rm -rf {d}/repo')
    if os.path.exists(d):
        sh(f'git -C /repo archive HEAD --prefix=repo/ | tar -x -C {d}')
        sh(f"cd /verif/sim && for i in */; do case $i in target/) ;; *) cp -a $i {d}/sim/;; esac; done; sed -i 's#/repo/#{d}/repo/#' {d}/sim/*/Cargo.toml")
    else:
        os.makedirs(d)
        sh(f'git -C /repo archive HEAD --prefix=repo/ | tar -x -C {d}')
        sh(f'cp -a /verif/sim {d}/sim; mkdir -p {d}/root; cp /verif/known_findings.txt {d}/root')
        sh(f"sed -i 's#/repo/#{d}/repo/#' {d}/sim/*/Cargo.toml")
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', SIM_ROOT=f'{d}/root', CARGO_BUILD_JOBS='3')
    while True:
        try: f, i, what, text, desc = q.get_nowait()
        except queue.Empty: return
        p = f'{d}/repo/{f}'
        old = open(f'/repo/{f}').read()
        open(p, 'w').write(text)
        pkg, props = ('sim_scp', 'C16 C17 C18 C19'.split()) if 'scp' in f else ('sim_sshd', 'C20 C21 C22'.split()) if 'sshd' in f else ('sim_ssh', SSH)
        res = None
        b = sh(f'cargo build --offline --release -p {pkg}', cwd=f'{d}/sim', env=env)
        if b.returncode: res = 'no-build'
        elif pkg == 'sim_ssh':
            t = sh('cargo test --offline --workspace --lib 2>&1', cwd=f'{d}/repo', env=env, t=120)
            if t.returncode: res = 'tests'
        if not res:
            for c in props:
                r = sh(f'./target/release/{pkg} check {c} --runs {3000 if pkg != "sim_ssh" else 500 if c in ("C02", "C08", "C09", "C13", "C15") else 1500} --wall 20 --shrink 0 --workers 2', cwd=f'{d}/sim', env=env, t=300)
                if r.returncode == 1:
                    res = 'caught ' + c
                    v = re.search(r'run \d+ .*', r.stdout)
                    res += ' ' + (v.group(0)[:160] if v else '')
                    break
                if r.returncode:
                    res = f'ODD {c} {r.returncode} {r.stdout[-200:]!r}'
                    break
                o = re.search(r'\(seen of other.*', r.stdout)
                if o: res = None; seen = o.group(0)[:150]
            else:
                res = 'SURVIVED'
        open(p, 'w').write(old)
        with lock:
            with open(OUT, 'a') as o: o.write(f'{f}:{i+1} {desc}\t{res}\n')
ts = [threading.Thread(target=work, args=(n,)) for n in range(WORKERS)]
[t.start() for t in ts]
[t.join() for t in ts]
