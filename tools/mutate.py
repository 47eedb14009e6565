"""mutate.py COUNT SEED [FILE...]: automatic small changes of redrock against the checks.

Each change (statement left out, condition or constant or comparison changed, copy or keyword
argument dropped) is made in a copy of /repo; those which the stable tests notice are passed over;
the rest go through the checks for which the file matters until one of them reports a violation.
Survivors are listed with their diffs in OUT (default /tmp/mutants) to be judged by hand.
"""
import ast
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('OUT', '/tmp/mutants')
CHECKS = {
    'bin/wrap-redrock': 'C11 C12',
    'bin/install_redrock_templates': 'C17',
    'py/redrock/external/desi.py': 'C02 C13 C18 C03 C16 C05 C06 C07',
    'py/redrock/external/boss.py': 'C02 C13 C18 C03 C06 C07',
    'py/redrock/zfind.py': 'C01 C15 C16 C09 C10 C03 C04 C13 C05',
    'py/redrock/targets.py': 'C02 C01 C13 C10 C03',
    'py/redrock/templates.py': 'C14 C01 C16 C17 C13 C10',
    'py/redrock/results.py': 'C08 C07 C06 C09 C13',
    'py/redrock/utils.py': 'C01 C02 C16 C04 C17 C03',
    'py/redrock/zscan.py': 'C01 C16 C15 C10',
    'py/redrock/fitz.py': 'C01 C16 C15 C10 C09',
    'py/redrock/archetypes.py': 'C01 C13 C16 C10 C09',
    'py/redrock/priors.py': 'C01 C10',
    'py/redrock/igm.py': 'C01 C16',
    'py/redrock/rebin.py': 'C01 C16',
}
CASES = {'C11': 250, 'C12': 250, 'C17': 400, 'C14': 250, 'C02': 300, 'C08': 250}
SKIP = ('print', 'add_argument', 'flush', 'parser', 'elapsed', 'help', 'warnings', 'log')


def mutants(src):
    """[(line, what, new source)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, e = span(n)
        return b[a:e].decode()

    out = []

    def put(n, new, what):
        a, e = span(n)
        out.append((n.lineno, what, (b[:a] + new.encode() + b[e:]).decode()))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n)
    skipped = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                any(s in text(n.value.func) for s in SKIP):
            skipped |= set(ast.walk(n))
        if isinstance(n, ast.Raise):
            skipped |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skipped or n in docs:
            continue
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            put(n, 'pass', 'left out')
        elif isinstance(n, ast.AugAssign) or (isinstance(n, ast.Assign) and not isinstance(
                n.targets[0], (ast.Name, ast.Tuple))):
            put(n, 'pass', 'left out')
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = text(n.test)
            for new, w in ((f'not ({t})', 'negated'), ('True', 'always'), ('False', 'never')):
                put(n.test, new, 'condition ' + w)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
            o = sw.get(type(n.ops[0]))
            if o:
                put(n, f'{text(n.left)} {o} {text(n.comparators[0])}', 'comparison ' + o)
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o = 'or' if isinstance(n.op, ast.And) else 'and'
            put(n, f'({text(n.values[0])} {o} {text(n.values[1])})', o)
        elif isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 1000:
            put(n, str(n.value + 1), 'constant + 1')
            if n.value > 0:
                put(n, str(n.value - 1), 'constant - 1')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), 'constant')
        elif isinstance(n, ast.Continue):
            put(n, 'break', 'break')
        elif isinstance(n, ast.Break):
            put(n, 'pass', 'no break')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            put(n, text(n.left), 'operand dropped')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                put(n, text(n.func.value), 'not copied')
            for k in n.keywords:
                if k.arg is None:
                    continue
                rest = [text(a) for a in n.args] + [f'{q.arg}={text(q.value)}' if q.arg else
                                                   f'**{text(q.value)}' for q in n.keywords if q is not k]
                put(n, f'{text(n.func)}({", ".join(rest)})', f'without {k.arg}=')
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and \
                    n.func.id in ('list', 'sorted', 'reversed', 'set', 'abs'):
                put(n, text(n.args[0]), f'without {n.func.id}()')
    good = []
    for line, what, new in out:
        if lines[line - 1].lstrip().startswith(('parser', 'print', 'help')):
            continue
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append((line, what, new))
    return good


def sh(cmd, **k):
    try:
        return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
    except subprocess.TimeoutExpired:
        return None


def prepare(job):
    """Copy with the change if the stable tests pass with it."""
    i, f, line, what, new = job
    d = f'{OUT}/c{i}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    p = os.path.join(d, f)
    old = open(p).read()
    open(p, 'w').write(new)
    diff = ''.join(difflib.unified_diff(old.splitlines(1), new.splitlines(1), f, f, n=4))
    env = open('/opt/vp/env.sh').read().replace('/repo', d)
    test = open('/opt/vp/test.sh').read().replace('/repo', d).replace('. /opt/vp/env.sh', f'. {d}.env')
    open(f'{d}.env', 'w').write(env)
    open(f'{d}.test', 'w').write(test)
    r = sh(f'timeout 120 bash {d}.test {d}.json')
    try:
        got = json.load(open(f'{d}.json'))
        passed = set(got['passed'] if 'passed' in got else [k for k, v in got.items() if v == 'passed'])
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [s for s in stable if s not in passed]
    except Exception:
        bad = ['no result']
    for x in ('env', 'test', 'json'):
        if os.path.exists(f'{d}.{x}'):
            os.remove(f'{d}.{x}')
    if bad:
        shutil.rmtree(d, ignore_errors=True)
        return None
    return i, f, line, what, d, diff


def main(count, seed, files):
    os.makedirs(OUT, exist_ok=True)
    rng = random.Random(seed)
    pool = []
    for f in files or CHECKS:
        src = open(os.path.join('/repo', f)).read()
        ms = [(f, *m) for m in mutants(src)]
        pool.append(ms)
        print(f, len(ms), 'changes')
    jobs = []
    flat = [m for ms in pool for m in ms]
    rng.shuffle(flat)
    for i, m in enumerate(flat[:count]):
        jobs.append((f'{seed}-{i}', *m))
    todo = []
    n = dict(tests=0, caught=0, missed=0)
    with ThreadPoolExecutor(2) as ex:
        pending = [ex.submit(prepare, j) for j in jobs[:6]]
        k = 6
        while pending:
            x = pending.pop(0).result()
            if k < len(jobs):
                pending.append(ex.submit(prepare, jobs[k]))
                k += 1
            if x is None:
                n['tests'] += 1
                continue
            i, f, line, what, d, diff = x
            by = None
            for c in CHECKS[f].split():
                r = sh(f'DST_REPO={d} timeout 300 ./check {c} quick --cases {CASES.get(c, 100)}', cwd=V)
                if r is not None and r.returncode == 1 and 'VIOLATION' in r.stdout:
                    by = c
                    break
                if r is None or r.returncode != 0:
                    by = f'{c}: rc {r and r.returncode}'
                    break
            if by is None:
                n['missed'] += 1
                open(f'{OUT}/{i}.diff', 'w').write(diff)
                print(f'{i} {f}:{line} {what}: MISSED\n{diff}', flush=True)
            else:
                n['caught'] += 1
                print(f'{i} {f}:{line} {what}: {by}', flush=True)
            shutil.rmtree(d, ignore_errors=True)
    print(n)


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:])
