#!/usr/bin/env python3
"""mutate.py <workdir> <worker> <workers> [--seed N] [--files a,b] [--limit N]
Systematic changes of the library in a scratch copy, to find what no check notices.
For every change that compiles and passes the repository's own tests, runs the checks (a tenth of
the quick number of cases) that the changed file concerns, then the others, until one fails.
Results go to <workdir>/results-<worker>.jsonl. A tool for development; no check uses it."""
import json, os, random, re, shutil, subprocess, sys, argparse, hashlib

ap = argparse.ArgumentParser()
ap.add_argument('work'); ap.add_argument('worker', type=int); ap.add_argument('workers', type=int)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--files', default=''); ap.add_argument('--limit', type=int, default=10**9)
ap.add_argument('--scale', default='0.1')
a = ap.parse_args()
W = os.path.join(a.work, 'w%d' % a.worker)
REPO, VER = W + '/repo', W + '/verif'
ORIG = a.work + '/orig/'

FIRST = {
 'core/dedup': ['C08', 'C30', 'C07'], 'core/factories': ['C07', 'C08', 'C09'], 'core/qm': ['C09', 'C10'],
 'data/bump': ['C03', 'C04', 'C05', 'C01'], 'data/curves': ['C16', 'C03', 'C20', 'C07'], 'data/divstream': ['C15', 'C03', 'C07'],
 'data/fixings': ['C14', 'C13', 'C07'], 'data/forward': ['C15'], 'data/voldecorators': ['C20', 'C03', 'C05', 'C07'],
 'data/volsmile': ['C19', 'C18'], 'data/volsurface': ['C18', 'C20', 'C07'], 'dates/calendar': ['C25', 'C27', 'C26', 'C07'],
 'dates/datetime': ['C24', 'C07'], 'dates/mod': ['C24'], 'dates/rules': ['C26', 'C07'], 'facade/': ['C10', 'C09'],
 'instruments/assets': ['C12', 'C29', 'C15', 'C07'], 'instruments/basket': ['C12', 'C29'], 'instruments/bonds': ['C12', 'C29', 'C13'],
 'instruments/mod': ['C12', 'C08', 'C13'], 'instruments/options': ['C11', 'C13', 'C29', 'C06', 'C02'], 'math/brent': ['C23', 'C22'],
 'math/interpolation': ['C17'], 'math/optionpricing': ['C21', 'C11'], 'math/numerics': ['C17', 'C16', 'C28', 'C27'], 'models/': ['C06', 'C01', 'C05'],
 'pricers/montecarlo': ['C06', 'C05', 'C01', 'C04'], 'pricers/selfpricer': ['C02', 'C05', 'C01'], 'risk/bumptime': ['C05', 'C06'],
 'risk/cache': ['C02', 'C01', 'C03'], 'risk/deltagamma': ['C04', 'C28'], 'risk/dependencies': ['C29', 'C12'],
 'risk/marketdata': ['C03', 'C01', 'C02', 'C05'], 'risk/mod': ['C04', 'C05', 'C28', 'C07'], 'risk/timebumped': ['C05', 'C28'],
 'risk/vegavolga': ['C04', 'C28'], 'solvers/': ['C22'],
}
ALL = ['C%02d' % i for i in range(1, 31)]

def mutants(text):
    """(line number, old line, new line, what) for code outside tests and comments"""
    out = []
    lines = text.split('\n')
    stop = next((i for i, l in enumerate(lines) if 'cfg(test)' in l), len(lines))
    comment = False
    for i, l in enumerate(lines[:stop]):
        s = l.strip()
        if s.startswith('/*'): comment = True
        if comment:
            if '*/' in s: comment = False
            continue
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('assert') or s.startswith('mod ') or s.startswith('pub mod'):
            continue
        code = l.split('//')[0]
        def put(m, rep, what):
            new = l[:m.start()] + rep + l[m.end():]
            if new != l: out.append((i, l, new, what))
        decl = bool(re.match(r'\s*(pub )?(fn|struct|enum|trait|impl|type|where)\b', code))
        for pat, reps in [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ', ' >= ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ', ' <= ']), (r' == ', [' != ']), (r' != ', [' == ']),
                          (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
                          (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.max\(', ['.min(']), (r'\.min\(', ['.max(']), (r'\.ceil\(\)', ['.floor()']), (r'\.floor\(\)', ['.ceil()']),
                          (r'\.round\(\)', ['.floor()']), (r'\b0\.0\b', ['1.0']), (r'\b1\.0\b', ['2.0']), (r'\b365\.0\b', ['360.0']), (r'(?<=[+-] )1\b(?!\.)', ['2', '0']), (r'\b0(?=\.\.)', ['1']),
                          (r'\bSome\(saved\)|\bSome\(saveable\)', ['None']), (r'\bif !', ['if ']), (r'\.sqrt\(\)', ['']), (r'\.exp\(\)', ['']), (r'\.abs\(\)', ['']),
                          (r'\bstart\b', ['end']), (r'\bend\b', ['start']), (r'\bfrom\b', ['to']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\bpay_date\b', ['expiry_date']),
                          (r'\bfirst\b', ['second']), (r'\blower\b', ['upper']), (r'\bold_', ['new_']), (r'\bnew_', ['old_'])]:
            if decl: continue
            for m in re.finditer(pat, code):
                for r in reps: put(m, r, '%s -> %s' % (pat, r))
        # a statement left out
        if re.match(r'\s*(self\.|[a-z_]+\.)?[a-z_.]+\(.*\)\??;\s*$', code) and not decl and 'let ' not in code and 'return' not in code:
            out.append((i, l, re.match(r'\s*', l).group(0) + '// left out', 'statement left out'))
        if re.match(r'\s*(self\.)?[a-z_.\[\]*]+ [+-]?= .*;\s*$', code) and 'let ' not in code:
            out.append((i, l, re.match(r'\s*', l).group(0) + '// left out', 'assignment left out'))
        # a condition fixed
        m = re.match(r'(\s*(?:\} else )?if )(?!let )(.*)( \{\s*)$', code)
        if m:
            out.append((i, l, m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3), 'condition never'))
            out.append((i, l, m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3), 'condition always'))
    return out

def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def setup():
    if os.path.exists(W): return
    os.makedirs(W)
    shutil.copytree('/repo', REPO, ignore=shutil.ignore_patterns('.git'))
    os.makedirs(VER)
    shutil.copytree('/verif/harness', VER + '/harness', ignore=shutil.ignore_patterns('target'))
    shutil.copytree('/verif/corpus', VER + '/corpus')
    for f in ['known-findings.txt', 'properties.jsonl']: shutil.copy('/verif/' + f, VER)
    for f in ['evidence', 'replays']: os.makedirs(VER + '/' + f)
    c = VER + '/harness/Cargo.toml'
    t = open(c).read().replace('"/repo"', '"%s"' % REPO).replace('"../../repo"', '"%s"' % REPO)
    open(c, 'w').write(t)
    assert REPO in t

BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = {'RUSTUP_TOOLCHAIN': 'stable', 'CARGO_NET_OFFLINE': 'true', 'PATH': '/root/.cargo/bin:' + os.environ['PATH']}
HENV = dict(ENV, RUSTFLAGS='--cfg quantmath_verif -Awarnings', CARGO_INCREMENTAL='0', VERIF_TIER='quick', VERIF_SEED='7', VH_SCALE=a.scale)

def tests():
    rc, o = run(['nice', '-n', '5', 'cargo', 'test', '--offline', '--lib', '--quiet', '--', '--test-threads', '4', '--skip', 'pricers::montecarlo::tests::', '--skip', 'problem_of_the_day', '--format', 'pretty'], REPO, dict(ENV, RUSTFLAGS='-Awarnings'), 240)
    if rc == 124: return 'timeout'
    if 'could not compile' in o: return 'no build'
    if rc != 0: return 'tests'
    return None

def checks(f):
    order = []
    for k, v in FIRST.items():
        if f.startswith('src/' + k): order += v
    order += [c for c in ALL if c not in order]
    errors = []
    for c in order:
        b = c.lower()
        rc, o = run(['nice', '-n', '5', 'cargo', 'build', '--offline', '--quiet', '--bin', b], VER + '/harness', HENV)
        if rc != 0: return None, ['harness does not build: ' + o[-300:]]
        rc, o = run(['nice', '-n', '5', VER + '/harness/target/debug/' + b], VER, HENV, 300)
        if rc == 1:
            m = re.search(r'^property .*\[.*', o, re.M)
            return c, errors + [m.group(0)[:200] if m else '']
        if rc != 0: errors.append('%s exit %d' % (c, rc))
    return None, errors

if not os.path.exists(ORIG):
    os.makedirs(ORIG)
    shutil.copytree('/repo/src', ORIG + 'src')
setup()
res = open(os.path.join(a.work, 'results-%d.jsonl' % a.worker), 'a')
done = set()
for i in range(64):
    p = os.path.join(a.work, 'results-%d.jsonl' % i)
    if os.path.exists(p):
        for l in open(p): done.add(json.loads(l)['key'])
todo = []
for root, _, fs in os.walk(ORIG + 'src'):
    for x in fs:
        if not x.endswith('.rs'): continue
        rel = os.path.relpath(os.path.join(root, x), ORIG)
        if a.files and not any(k in rel for k in a.files.split(',')): continue
        t = open(ORIG + rel).read()
        for m in mutants(t):
            key = hashlib.md5(('%s:%d:%s' % (rel, m[0], m[2])).encode()).hexdigest()[:12]
            todo.append((key, rel) + m)
todo.sort()
random.Random(a.seed).shuffle(todo)
todo = [t for n, t in enumerate(todo) if n % a.workers == a.worker]
print(len(todo), 'changes', flush=True)
for n, (key, rel, i, old, new, what) in enumerate(todo[:a.limit]):
    if key in done: continue
    src = open(ORIG + rel).read().split('\n')
    assert src[i] == old
    src[i] = new
    open(REPO + '/' + rel, 'w').write('\n'.join(src))
    try:
        r = tests()
        by, notes = (None, []) if r else checks(rel)
    finally:
        shutil.copy(ORIG + rel, REPO + '/' + rel)
        os.utime(REPO + '/' + rel)
    rec = {'key': key, 'file': rel, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'what': what, 'stopped': r, 'by': by, 'notes': notes}
    res.write(json.dumps(rec) + '\n'); res.flush()
