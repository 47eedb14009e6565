"""determinism.py [CASES [SEED...]]: every check three times, with other numbers of workers and another hash seed;
prints the cases whose executions differ."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cases = sys.argv[1] if len(sys.argv) > 1 else '120'
seeds = sys.argv[2:] or ['5']
ids = os.environ.get('IDS', '').split() or [f'C{i:02d}' for i in range(1, 18)]
total = 0
for c in ids:
    for s in seeds:
        got = []
        for w, h in ((7, '0'), (3, '0'), (5, '4711')):
            p = f'/tmp/digests.{os.getpid()}'
            e = dict(os.environ, DST_HASHSEED=h, DST_ENV='0')
            r = subprocess.run(['./check', c, 'quick', '--cases', cases, '--seed', s, '--workers', str(w),
                                '--digests', p], cwd=V, env=e, capture_output=True, text=True)
            if r.returncode:
                print(c, s, 'exit', r.returncode, r.stdout[-300:], r.stderr[-300:])
            got.append(json.load(open(p)) if os.path.exists(p) else {})
            if os.path.exists(p):
                os.remove(p)
        bad = [k for k in got[0] if any(g.get(k) != got[0][k] for g in got)]
        total += len(got[0])
        print(c, 'seed', s, len(got[0]), 'cases, differing:', [(k, [g.get(k) for g in got]) for k in bad[:3]],
              len(bad), flush=True)
print(total, 'cases three times')
