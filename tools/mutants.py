#!/usr/bin/env python3
"""Small systematic mistakes, to find out what the checks do not notice.

tools/mutants.py WORKDIR [N [SEED [FILE-SUBSTRING]]]

Draws N mutants of /repo, keeps those that compile and pass the stable tests, and runs the checks on them in a copy of
/repo and /verif below WORKDIR until one reports a violation. Results: WORKDIR/results.jsonl."""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
W = os.path.abspath(sys.argv[1]); N = int(sys.argv[2]) if len(sys.argv) > 2 else 40
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1; ONLY = sys.argv[4] if len(sys.argv) > 4 else ''
V = '/verif'; R = '/repo'
LEX = ['C12', 'C13', 'C14', 'C15', 'C18', 'C20', 'C21']
ENG = ['C16', 'C17', 'C18', 'C19', 'C20', 'C21']
LIB = ['C10', 'C11', 'C20', 'C21', 'C08', 'C04', 'C09', 'C01', 'C05', 'C06']
GEN = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']
FILES = {}
for d in ('lexan', 'lalr1', 'alalr1', 'lalr1_lib', 'alalr1_lib', 'lalr1_gen', 'alalr1_gen'):
    for base, _, fs in os.walk(f'{R}/{d}/src'):
        for f in fs:
            p = os.path.relpath(os.path.join(base, f), R)
            if not f.endswith('.rs') or f in ('tests.rs', 'bootstrap.rs', 'parser_bu.rs'): continue
            FILES[p] = {'lexan': LEX, 'lalr1': ENG, 'alalr1': ENG, 'lalr1_lib': LIB, 'alalr1_lib': LIB, 'lalr1_gen': GEN, 'alalr1_gen': GEN}[d]
RULES = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= 1;', ' += 2;'), (r' \+= ', ' = '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'if !', 'if '), (r'\bif (?!let)([^{]+) \{$', r'if true || \1 {'), (r'\bif (?!let)([^{]+) \{$', r'if false && \1 {'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '1'),
         (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.iter\(\)', '.iter().rev()'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
         (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'is_empty\(\)', 'len() == 1'), (r'Left', 'Right'), (r'Right', 'NonAssoc'),
         (r'^(\s+)(?!let |return |use |pub |//|\}|panic!)([^ ].*;)$', r'\1{}'), (r'\)\?;$', ').ok();'), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'^(\s+)return .*;$', r'\1{}'),
         (r'\.union\(', '.intersection('), (r'\.difference\(', '.intersection('), (r'\|= ', '&= '), (r'\.chain\(.*\)', ''), (r'filter\(\|(\w+)\| ', r'filter(|\1| !'), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'==', '>=')]
def sh(c, cwd, t, env=None):
    try: return subprocess.run(c, shell=True, cwd=cwd, timeout=t, capture_output=True, text=True, env=env, executable='/bin/bash')
    except subprocess.TimeoutExpired: return None
def mutants():
    out = []
    for p in sorted(FILES):
        if ONLY not in p: continue
        lines = open(f'{R}/{p}').read().split('\n')
        end = next((i for i, l in enumerate(lines) if '#[cfg(test)]' in l), len(lines))
        if p.endswith('parser.rs'):
            start = next(i for i, l in enumerate(lines) if 'fn do_semantic_action' in l)
        else: start = 0
        for i in range(start, end):
            l = lines[i]
            if 'debug_assert' in l or l.strip().startswith(('//', 'use ', '#[', 'pub use', 'write!(f')): continue
            for a, b in RULES:
                if b == r'\1{}' and 'wtr.' in l: continue  # (always shows: the code does not compile)
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n != l: out.append((p, i, l, n))
    return sorted(set(out))
def place(slot):
    d = f'{W}/pre{slot}'
    if not os.path.exists(d):
        subprocess.run(['git', 'clone', '-q', R, d]); shutil.copy(f'{R}/Cargo.lock', d) if os.path.exists(f'{R}/Cargo.lock') else None
    return d
def mutate(d, m):
    p, i, old, new = m
    s = open(f'{d}/{p}').read().split('\n'); assert s[i] == old; s[i] = new; open(f'{d}/{p}', 'w').write('\n'.join(s))
def env(slot): e = dict(os.environ); e['CARGO_TARGET_DIR'] = f'{W}/t{slot}'; e['CARGO_NET_OFFLINE'] = 'true'; return e
def pre(slot, ms):
    good = []
    d = place(slot)
    for m in ms:
        sh('git checkout -q -- .', d, 60); mutate(d, m)
        r = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/t%s; timeout 200 cargo test --offline --workspace -q 2>&1 | tail -5; exit ${PIPESTATUS[0]}' % (W, slot), d, 300)
        if r and r.returncode == 0: good.append(m)
    sh('git checkout -q -- .', d, 60)
    return good
def main():
    global N
    os.makedirs(W, exist_ok=True)
    if os.environ.get('ONLY_OF'): N = 0
    ms = mutants(); rnd = random.Random(SEED); rnd.shuffle(ms); print(len(ms), 'mutants,', N, 'drawn', flush=True); ms = ms[:N]
    with ThreadPoolExecutor(4) as ex: good = sum(ex.map(lambda k: pre(k, ms[k::4]), range(4)), [])
    print(len(good), 'compile and pass the tests', flush=True)
    repo = f'{W}/repo'; verif = f'{W}/verif'
    for d, src in ((repo, R), (verif, V)):
        if not os.path.exists(d): subprocess.run(['git', 'clone', '-q', src, d])
        else: sh(f'git fetch -q {src} HEAD && git reset -q --hard FETCH_HEAD', d, 60)
    if os.path.exists(f'{R}/Cargo.lock'): shutil.copy(f'{R}/Cargo.lock', repo)
    e = dict(os.environ); e['SIM_REPO'] = repo; e['VERIF_SEED'] = str(SEED)
    if os.environ.get('ONLY_OF'):  # only the mutants (old => new) that results of an earlier campaign call unnoticed
        old = [json.loads(l) for l in open(os.environ['ONLY_OF'])]; old = {(o['file'], o['old'], o['new']) for o in old if not o['caught']}
        good = [m for m in mutants() if (m[0], m[2].strip(), m[3].strip()) in old]; print(len(good), 'again', flush=True)
    for m in good:
        sh('git checkout -q -- .', repo, 60); mutate(repo, m)
        caught, odd = None, []
        for c in FILES[m[0]]:
            r = sh(f'timeout 900 ./check.sh {c} --no-evidence', verif, 950, e)
            rc = r.returncode if r else 'timeout'
            if rc == 1: caught = c; break
            if rc != 0: odd.append((c, rc))
        with open(f'{W}/results.jsonl', 'a') as f: f.write(json.dumps({'file': m[0], 'line': m[1] + 1, 'old': m[2].strip(), 'new': m[3].strip(), 'caught': caught, 'odd': odd}) + '\n')
        print(caught, odd, m[0], m[1] + 1, m[2].strip(), '=>', m[3].strip(), flush=True)
main()
