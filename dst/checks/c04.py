"""C04: a failed worker process becomes an error, never a hang or a partial result."""
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from . import c01

ID = 'C04'
N = {'quick': 420, 'thorough': 20000}
RULE = ('seeded workload on 2 to 9 worker processes, run without faults to count the operations of '
        'each worker, then again with seeded faults in workers: killed (at an operation, a call, or '
        'any scheduler step), exception, out of memory, abnormal exit, failure to start, stall; '
        'non-trivial: the fault took place')
REAL = ['redrock.zscan', 'redrock.zfind', 'redrock.fitz', 'redrock.utils', 'redrock.templates',
        'redrock.targets', 'redrock.external.desi', 'redrock.external.boss', 'redrock.results']
STUB = ['multiprocessing process/queue/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']

ACTS = ['kill', 'kill', 'raise', 'memory', 'exit', 'start', 'stall', 'step', 'step']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    x = r.random()
    c = dict(mode='zfind' if x < 0.5 else 'desi' if x < 0.87 else 'boss')
    if c['mode'] == 'zfind':
        c.update(targets=W.gen_targets(r, 6), templates=W.gen_templates(r, nzmax=15),
                 opts=Z.gen_opts(r))
        if c['opts'].get('priors') and c['targets']['ids'] in ('str',):
            c['targets']['ids'] = 'rand'
    elif c['mode'] == 'desi':
        c.update(E.gen_case(r, nmax=6))
        for t in c['templates']:
            t['nz'] = min(t['nz'], 13)
    else:
        c.update(boss=D.gen_boss(r), templates=W.gen_templates(r, n=1, nzmax=13),
                 opts=E.gen_boss_opts(r))
    c['mp'] = int(r.choice([2, 2, 3, 4, 6, 9]))
    c['old'] = bool(r.random() < 0.5)           # outputs of an earlier run exist
    c['faults'] = [gen_fault(r) for _ in range(int(r.choice([1, 1, 1, 2])))]
    return c


def gen_fault(r):
    act = str(r.choice(ACTS))
    f = dict(act=act, sel=float(r.random()), frac=float(r.random()))
    if act in ('kill', 'raise', 'memory', 'exit', 'stall'):
        f['op'] = str(r.choice(['call', 'call', 'mpq', '*']))
    if act == 'exit':
        f['code'] = int(r.choice([1, 137]))
    if act == 'stall':
        f['op'] = 'mpq' if f['op'] == 'call' else f['op']
        f['dt'] = float(r.choice([30.0, 4000.0, 1e6]))
    return f


def resolve(case, o):
    """Concrete faults: chosen among the operations counted in the fault-free run."""
    inj, out = o.sim.injector, []
    ws = sorted((p.name for p in o.sim.procs if '.w' in p.name), key=lambda n: int(n.split('.w')[1]))
    if not ws:
        return out
    for f in case['faults']:
        w = ws[int(f['sel'] * len(ws))]
        if f['act'] == 'start':
            out.append(dict(proc='main', op='fork', n=1 + int(f['sel'] * len(ws)), act='errno:EAGAIN'))
            continue
        if f['act'] == 'step':
            out.append(dict(proc=w, op='step', n=1 + int(f['frac'] * o.sim.steps), act='kill'))
            continue
        if f['op'] == 'call':
            n = inj.calls.get(w, 0)
        elif f['op'] == '*':
            n = sum(v for (p, _), v in inj.counts.items() if p == w)
        else:
            n = sum(v for (p, op), v in inj.counts.items() if p == w and op.startswith(f['op']))
        if n:
            g = dict(proc=w, op=f['op'], n=1 + int(f['frac'] * n), act=f['act'])
            g.update({k: f[k] for k in ('dt', 'code') if k in f})
            out.append(g)
    return out


def run(case, ctx):
    d = ctx.scratch()
    mode, mp = case['mode'], case['mp']
    dirs = [ctx.scratch(), ctx.scratch()]
    if mode == 'zfind':
        kw = Z.prepare(case, d)
        ids, scan, rows = Z.reference(case, kw)
        templates = W.make_templates(case['templates'])
        spec = case['targets']
        what = f'{spec["n"]} targets nspec={spec["nspec"]} opts={case["opts"]}'

        def body(k):
            import copy
            return lambda comm, n: Z.fit(W.make_targets(spec), copy.deepcopy(templates), comm, n, kw)

        def good(o, w):
            Z.check_result(ctx, o, w, ids, scan, rows,
                           kinds=('run failed', 'partial result', 'partial result'))
    else:
        desi = mode == 'desi'
        argv = E.prepare(case, d) if desi else E.boss_prepare(case, d)
        outs = [(E.outargs if desi else E.boss_outargs)(case, x) for x in dirs]
        mk = E.desi_body if desi else E.boss_body
        what = E.describe(case) if desi else f'rrboss {case["boss"]} opts={case["opts"]}'

        def body(k):
            return mk(argv + outs[k][0])
    o = Z.run_body(ctx, 'pilot', ['mp', mp], body(0), count_calls=True)
    if not o.ok:
        ctx.bad('run failed', f'{mp} workers, no fault ({what}): {o.describe()}')
        return
    if mode == 'zfind':
        good(o, f'{mp} workers, no fault')
        if ctx.viol:
            return
    else:
        ref = {k: E.load(p) for k, p in outs[0][1].items()}
        paths = outs[1][1]
        if case['old']:
            for p in paths.values():
                with open(p, 'wb') as f:
                    f.write(b'earlier ' + os.path.basename(p).encode())
    faults = resolve(case, o)
    o = Z.run_body(ctx, 'fault', ['mp', mp], body(1), faults=faults)
    fired = [f for f in o.sim.injector.fired]
    w = f'{mp} workers, {[{k: v for k, v in f.items() if k not in ("left", "fired")} for f in fired]} ({what})'
    ctx.sample = w
    ctx.nontrivial = bool(fired)
    hard = [f for f in fired if f['act'] != 'stall']
    ctx.probes['fault ended the run'] += bool(hard) and not o.ok
    ctx.probes['run ended well after the fault'] += bool(hard) and o.ok
    if o.hang:
        ctx.bad('hang', f'{w}: {o.describe()}')
        return
    if not hard and not o.ok:
        ctx.bad('run failed', f'{w}: {o.describe()}')
        return
    if o.killed and any(k == 'main' for k in o.killed):
        raise AssertionError('the parent was killed')
    if o.ok or o.exitcodes[0] in (0, None):
        # only right if nothing is missing
        if mode == 'zfind':
            good(o, w)
        else:
            E.check_outputs(ctx, w, paths, ref, 'partial result')
        if any(f['act'] in ('raise', 'memory', 'errno:EAGAIN') for f in hard) and not ctx.viol:
            ctx.probes['exception without consequence'] += 1
    else:
        left = [p.name for p in o.sim.procs if not p.done]
        if left:
            ctx.bad('hang', f'{w}: processes left running: {left}')
        if mode != 'zfind':
            for k, p in paths.items():
                intact(ctx, w, k, p, case['old'], ref[k])


def intact(ctx, what, k, p, keep, ref, old=None):
    """After a failed run: the earlier output, no output, or the complete new one."""
    old = keep if old is None else old
    if not os.path.exists(p):
        if keep:
            ctx.bad('output damaged', f'{what}: the earlier {k} is gone')
        return
    with open(p, 'rb') as f:
        b = f.read(100)
    if old and b == b'earlier ' + os.path.basename(p).encode():
        return
    got = E.try_load(p)
    x = got if isinstance(got, str) else E.diff(got, ref)
    if x:
        ctx.bad('output damaged', f'{what}: {k} of the failed run: {x}')


def shrink(case):
    yield from Z.drop_faults(case)
    for n in (2, case['mp'] // 2, case['mp'] - 1):
        if 1 < n < case['mp']:
            yield dict(case, mp=n)
    if case['mode'] == 'zfind':
        yield from c01.shrink_workload(case)
    elif case['mode'] == 'desi':
        yield from E.shrink(case)
    else:
        b = case['boss']
        if b['n'] > 1:
            yield dict(case, boss=dict(b, n=b['n'] - 1))
        for k in ('ntargets', 'targetids', 'allspec', 'nminima', 'usemask', 'priors'):
            if case['opts'].get(k):
                yield dict(case, opts={a: b for a, b in case['opts'].items() if a != k})
    if case['old']:
        yield dict(case, old=False)
