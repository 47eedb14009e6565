"""plant.py FILE: make /verif/seeded/<id>/ from a description of a change and try it.

FILE is Python and sets ID, PROP, NEEDS, WHAT, EDITS [(path, old, new)], DEMO (source of demo.py)
and optionally LIB (names of files of tools/demolib to copy beside the demo).
plant.py --try ID...: run the checks of their properties against existing plants.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
LIBDIR = os.path.join(V, 'tools', 'demolib')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def copy(ident):
    d = f'/tmp/wt/{ident}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/wt', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    sh('git checkout -q -- . && git clean -fdq', cwd=d)
    return d


def tests(d):
    """stable tests in copy d: names that fail"""
    t = open('/opt/vp/test.sh').read().replace('/repo', d).replace('. /opt/vp/env.sh', f'. {d}.env')
    open(f'{d}.env', 'w').write(open('/opt/vp/env.sh').read().replace('/repo', d))
    open(f'{d}.test', 'w').write(t)
    sh(f'bash {d}.test {d}.json')
    r = json.load(open(f'{d}.json'))
    os.remove(f'{d}.env'), os.remove(f'{d}.test'), os.remove(f'{d}.json')
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(r['passed'] if 'passed' in r else [k for k, v in r.items() if v == 'passed'])
    return [s for s in stable if s not in passed]


def check(ident, d, prop, tier='quick', extra=''):
    r = sh(f'DST_REPO={d} ./check {prop} {tier} {extra}', cwd=V)
    line = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    ok = r.returncode == 1 and line
    print(f'{ident}: check {prop} exit {r.returncode}', 'CAUGHT' if ok else 'MISSED')
    if ok:
        i = r.stdout.find('VIOLATION')
        print('   ', r.stdout[max(0, i - 600):i + 900].replace('\n', '\n    '))
    else:
        print(r.stdout[-600:], r.stderr[-1500:])
    return bool(ok)


def main(path):
    g = {}
    exec(compile(open(path).read(), path, 'exec'), g)
    ident, prop = g['ID'], g['PROP']
    out = os.path.join(S, ident)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = copy(ident)
    for f, old, new in g['EDITS']:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(f'{ident}: {s.count(old)} matches of {old!r} in {f}')
            return 1
        open(p, 'w').write(s.replace(old, new))
    r = sh('git diff', cwd=d)
    open(os.path.join(out, 'patch.diff'), 'w').write(r.stdout)
    shutil.copy(os.path.join(LIBDIR, 'demo.sh'), out)
    for f in g.get('LIB', ['fakempi.py']):
        shutil.copy(os.path.join(LIBDIR, f), out)
    open(os.path.join(out, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
    json.dump(dict(property=prop, needs=g['NEEDS'], what_it_breaks=g['WHAT']),
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    a = sh(f'bash {out}/demo.sh', cwd='/repo')
    b = sh(f'bash {out}/demo.sh', cwd=d)
    bad = tests(d)
    print(f'{ident}: demo unchanged {a.returncode}, changed {b.returncode}, stable tests failing {bad}')
    if a.returncode != 0 or b.returncode == 0:
        print(a.stdout[-1500:], a.stderr[-2500:], '\n-- changed\n', b.stdout[-1500:], b.stderr[-1500:])
        return 1
    print('   ', b.stdout.strip()[-300:])
    check(ident, d, prop)
    shutil.rmtree(d)
    return 0


def attempt(ident, tier='quick', extra=''):
    d = copy(ident + '.try')
    out = os.path.join(S, ident)
    r = sh(f'git apply {out}/patch.diff', cwd=d)
    if r.returncode:
        print(ident, 'does not apply', r.stderr)
        return False
    prop = json.load(open(os.path.join(out, 'meta.json')))['property']
    ok = check(ident, d, prop, tier, extra)
    shutil.rmtree(d)
    return ok


if __name__ == '__main__':
    if sys.argv[1] == '--try':
        ids = sys.argv[2:] or sorted(os.listdir(S))
        res = {i: attempt(i) for i in ids}
        print(sum(res.values()), 'of', len(res), 'caught; missed:', [i for i in res if not res[i]])
    else:
        for p in sys.argv[1:]:
            main(p)
