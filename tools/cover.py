#!/usr/bin/env python3
"""Lines of redrock that no case of the checks executes: tools/cover.py CASES [CHECK ...]"""
import os
import subprocess
import sys
import tempfile
import glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('DST_REPO', '/repo')
n = sys.argv[1]
ids = sys.argv[2:] or [f'C{i:02d}' for i in range(1, 18)]
d = tempfile.mkdtemp()
seen = {}
for c in ids:
    subprocess.run([f'{V}/check', c, 'quick', '--cases', n, '--all', '--workers', '5'], env=dict(os.environ, DST_COVER=d),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in os.listdir(d):
        with open(os.path.join(d, f)) as fx:
            for l in fx:
                a, b = l.split()
                seen.setdefault(a, set()).add(int(b))
        os.remove(os.path.join(d, f))
os.rmdir(d)


def lines(code, out):
    for _, _, l in code.co_lines():
        if l:
            out.add(l)
    for k in code.co_consts:
        if hasattr(k, 'co_lines'):
            lines(k, out)


files = glob.glob(f'{R}/py/redrock/*.py') + glob.glob(f'{R}/py/redrock/external/*.py') + \
    [f'{R}/bin/wrap-redrock', f'{R}/bin/install_redrock_templates', f'{R}/bin/rrdesi_mpi']
for f in sorted(files):
    rel = f[len(R) + 1:]
    s = open(f).read()
    al = set()
    lines(compile(s, f, 'exec'), al)
    got = seen.get(rel, set())
    # lines that run on import do so before a case starts
    import ast
    body = set()
    for x in ast.walk(ast.parse(s)):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            body.update(range((x.body[0] if isinstance(x.body, list) else x.body).lineno, x.end_lineno + 1))
    miss = sorted((al & body) - got)
    print(f'{rel}: {len(al & body) - len(miss)} of {len(al & body)}')
    src = s.split('\n')
    for l in miss:
        print(f'   {l:5d} {src[l - 1][:110]}')
