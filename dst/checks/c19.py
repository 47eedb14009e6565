"""C19: however the main process of a multiprocessing run ends, its workers end too."""
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from . import c01, c04

ID = 'C19'
N = {'quick': 330, 'thorough': 20000}
RULE = ('seeded workload on 2 to 9 worker processes, run without faults to count the operations of '
        'the main process, then again with one seeded fault in the main process: killed (at an '
        'operation, a call, or any scheduler step, so also with a worker half-way through a message), '
        'interrupted, exception, out of memory, abnormal exit, sometimes with a stalled worker; for '
        'rrdesi and rrboss followed by a run without faults in the same place; non-trivial: the fault '
        'took place while a worker was there')
REAL = c04.REAL
STUB = c04.STUB
ASSUME = ['a killed process closes its ends of all pipes; processes forked from it live on (as on Linux)',
          'pipes are scaled down with the messages (60 to 65536 bytes)']

ACTS = ['kill', 'kill', 'kill', 'step', 'step', 'step', 'interrupt', 'interrupt', 'raise', 'memory', 'exit']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    x = r.random()
    c = dict(mode='zfind' if x < 0.5 else 'desi' if x < 0.87 else 'boss')
    if c['mode'] == 'zfind':
        c.update(targets=W.gen_targets(r, 6), templates=W.gen_templates(r, nzmax=15),
                 opts=Z.gen_opts(r))
        if c['opts'].get('priors') and c['targets']['ids'] in ('str',):
            c['targets']['ids'] = 'rand'
    elif c['mode'] == 'desi':
        c.update(E.gen_case(r, nmax=6))
        for t in c['templates']:
            t['nz'] = min(t['nz'], 13)
    else:
        c.update(boss=D.gen_boss(r), templates=W.gen_templates(r, n=1, nzmax=13),
                 opts=E.gen_boss_opts(r))
    c['mp'] = int(r.choice([2, 2, 3, 4, 6, 9]))
    c['old'] = bool(r.random() < 0.5)
    f = dict(act=str(r.choice(ACTS)), frac=float(r.random()))
    if f['act'] != 'step':
        f['op'] = str(r.choice(['call', 'mp', 'mp', '*']))
    if f['act'] == 'exit':
        f['code'] = int(r.choice([1, 143]))
    c['faults'] = [f]
    if r.random() < 0.3:
        c['faults'].append(dict(act='stall', sel=float(r.random()), frac=float(r.random()),
                                dt=float(r.choice([30.0, 4000.0, 1e6]))))
    return c


def resolve(case, o):
    """Concrete faults: chosen among the operations counted in the fault-free run."""
    inj, out = o.sim.injector, []
    ws = sorted((p.name for p in o.sim.procs if '.w' in p.name), key=lambda n: int(n.split('.w')[1]))
    if not ws:
        return out
    marks = [m[0] for m in inj.marks.get('main', ())]
    idx = [k for k, x in enumerate(marks) if x.startswith('mp')]
    first, last = idx[0], idx[-1]
    # where the workers live: from the first to the last operation on them
    mk = inj.marks['main']
    for f in case['faults']:
        if f['act'] == 'stall':
            w = ws[int(f['sel'] * len(ws))]
            n = sum(v for (p, op), v in inj.counts.items() if p == w)
            if n:
                out.append(dict(proc=w, op='*', n=1 + int(f['frac'] * n), act='stall', dt=f['dt']))
        elif f['act'] == 'step':
            a, b = mk[first][2], mk[last][2]
            out.append(dict(proc='main', op='step', n=a + 1 + int(f['frac'] * (b - a)), act='kill'))
        elif f['op'] == 'call':
            a, b = mk[first][1], mk[last][1]
            out.append(dict(proc='main', op='call', n=a + 1 + int(f['frac'] * (b - a + 1)), act=f['act']))
        else:
            idx = [k for k in range(first, last + 1) if f['op'] == '*' or marks[k].startswith('mp')]
            k = idx[int(f['frac'] * len(idx))]
            out.append(dict(proc='main', op='*' if f['op'] == '*' else 'mp',
                            n=1 + (k if f['op'] == '*' else sum(x.startswith('mp') for x in marks[:k])),
                            act=f['act']))
        if 'code' in f and out:
            out[-1]['code'] = f['code']
    return out


def run(case, ctx):
    d = ctx.scratch()
    mode, mp = case['mode'], case['mp']
    dirs = [ctx.scratch(), ctx.scratch()]
    if mode == 'zfind':
        kw = Z.prepare(case, d)
        templates = W.make_templates(case['templates'])
        spec = case['targets']
        what = f'{spec["n"]} targets nspec={spec["nspec"]} opts={case["opts"]}'

        def body(k):
            import copy
            return lambda comm, n: Z.fit(W.make_targets(spec), copy.deepcopy(templates), comm, n, kw)
    else:
        desi = mode == 'desi'
        argv = E.prepare(case, d) if desi else E.boss_prepare(case, d)
        outs = [(E.outargs if desi else E.boss_outargs)(case, x) for x in dirs]
        mk = E.desi_body if desi else E.boss_body
        what = E.describe(case) if desi else f'rrboss {case["boss"]} opts={case["opts"]}'

        def body(k):
            return mk(argv + outs[k][0])
    o = Z.run_body(ctx, 'pilot', ['mp', mp], body(0), count_calls=True)
    if not o.ok:
        ctx.bad('run failed', f'{mp} workers, no fault ({what}): {o.describe()}')
        return
    if mode != 'zfind':
        ref = {k: E.load(p) for k, p in outs[0][1].items()}
        paths = outs[1][1]
        if case['old']:
            for p in paths.values():
                with open(p, 'wb') as f:
                    f.write(b'earlier ' + os.path.basename(p).encode())
    faults = resolve(case, o)
    o = Z.run_body(ctx, 'fault', ['mp', mp], body(1), faults=faults)
    fired = [f for f in o.sim.injector.fired if f['proc'] == 'main']
    w = f'{mp} workers, {[{k: v for k, v in f.items() if k not in ("left", "fired")} for f in fired]} ({what})'
    ctx.sample = w
    ctx.nontrivial = bool(fired)
    if o.hang:
        left = [p.name for p in o.sim.procs if p.name != 'main']
        ctx.bad('processes left behind', f'{w}: {o.describe()}: {o.hang["waiting"][:6]}')
        return
    left = [p.name for p in o.sim.procs if not p.done]
    if left:
        ctx.bad('processes left behind', f'{w}: {left}')
    workers = [p for p in o.sim.procs if '.w' in p.name]
    ctx.probes['worker ended because of the broken pipe'] += any(
        p.exc and 'Broken pipe' in str(p.exc) for p in workers)
    ctx.probes['worker terminated by the parent'] += any(p.kill_reason == 'terminate' for p in workers)
    ctx.probes['worker outlived the main process'] += bool(o.killed) and any(
        p.kill_reason is None for p in workers)
    if o.ok and o.exitcodes[0] in (0, None):
        # only right if nothing is missing
        ctx.probes['fault without consequence'] += bool(fired)
        if mode != 'zfind':
            E.check_outputs(ctx, f'{w}: reported as success', paths, ref, 'partial result')
    if ctx.viol:
        return
    if mode == 'zfind':
        return
    for k, p in paths.items():
        c04.intact(ctx, w, k, p, case['old'], ref[k])
    if ctx.viol:
        return
    # the same run again in the same place
    o = Z.run_body(ctx, 'again', ['mp', mp], body(1))
    if not o.ok:
        ctx.bad('run failed', f'{w}: run after it: {o.describe()}')
        return
    E.check_outputs(ctx, w + ': run after it', paths, ref)


shrink = c04.shrink
