"""C12: the driver retries once, isolates failures, keeps logs and never hangs."""
import collections

import numpy as np

from .. import wengine as X
from . import c11
from .c11 import history, shrink          # noqa: F401

ID = 'C12'
N = {'quick': 650, 'thorough': 60000}
RULE = ('seeded tree of spectra files (some unreadable, some with logs of earlier runs) and a seeded '
        'history of wrap-redrock runs whose commands fail, cannot be launched or are killed, with disk '
        'errors on logs, failures of ranks before and during processing and killed jobs; '
        'non-trivial: something failed')
REAL = ['bin/wrap-redrock']
STUB = ['MPI library and launcher', 'clock', 'rrdesi and rrboss',
        'file system calls (real files below a scratch directory)']
ASSUME = ['a command that fails leaves its log file readable',
          'the launcher ends a job of which one process was killed by a signal']


def setup():
    X.module()


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    t = X.gen_tree(r, 6)
    for f in t['files']:
        if f['have'] == 'both' and r.random() < 0.6:
            f['have'] = 'none'
        if r.random() < 0.12 and t['kind'] == 'desi':
            f['corrupt'] = str(r.choice(['empty', 'garbage', 'cut', 'nohdu', 'nocol']))
    c = dict(tree=t, runs=[])
    for k in range(int(r.choice([1, 2, 2, 3, 4]))):
        s = c11.gen_run(r, t, k)
        for a in ('--dryrun', '--plan'):
            s['opts'].pop(a, None)
        s['faults'] = [f for f in s['faults'] if f['act'] != 'scan']
        p = float(r.choice([0.1, 0.4, 0.8]))
        for f in t['files']:
            for a in range(3):
                if r.random() < p:
                    s['plan'][f'{f["i"]}.{a}'] = str(r.choice(X.OUTCOMES))
        if r.random() < 0.35:
            s['faults'].append(dict(act='log', sel=float(r.random()), frac=float(r.random()),
                                    op=str(r.choice(['fs:create', 'fs:rename', 'fs:list', 'fs:close'])),
                                    e=str(r.choice(['EIO', 'EACCES', 'ENOSPC', 'EMFILE']))))
        if r.random() < 0.1:
            s['faults'].append(dict(act='read', sel=float(r.random()), frac=float(r.random()),
                                    op=str(r.choice(['fs:open', 'fs:read']))))
        c['runs'].append(s)
    return c


def resolve(spec, o):
    inj, out = o.sim.injector, c11.resolve(dict(spec, faults=[
        f for f in spec['faults'] if f['act'] not in ('log', 'read')]), o)
    names = [p.name for p in o.procs]
    for f in spec['faults']:
        if f['act'] not in ('log', 'read'):
            continue
        path = '.log' if f['act'] == 'log' else '.fits'
        cand = []
        for p in names:
            m = inj.marks.get(p, ())
            if f['op'] == 'fs:list':
                # listings made to back up a log, as opposed to those of the plan
                at, j = [], 0
                for a, b in zip([None] + list(m), m):
                    if b[0] == 'fs:list':
                        j += 1
                        if a and '.log' in a[3]:
                            at.append(j)
                path = None
            else:
                at = list(range(1, 1 + sum(1 for x in m if x[0] == f['op'] and path in x[3])))
            if at:
                cand.append((p, at))
        if cand:
            p, at = cand[int(f['sel'] * len(cand))]
            out.append(dict(proc=p, op=f['op'], path=path, n=at[int(f['frac'] * len(at))],
                            act='errno:' + f.get('e', 'EIO'), role=f['act']))
    return out


def run(case, ctx):
    ctx.sample = f'{case["tree"]["kind"]} {len(case["tree"]["files"])} files, ' + \
        ', '.join(f'{s["ranks"]} ranks {s["plan"]} {len(s["faults"])} faults' for s in case['runs'])
    history(case, ctx, lambda R: judge(R, ctx), resolve=resolve)


FAILED = ('fail', 'late', 'signal', 'partial')


def judge(R, ctx):
    o, w = R.o, R.what
    ctx.nontrivial |= bool(R.fired) or any(x['what'] != 'ok' for x in R.cmd.launches)
    if o.hang:
        return ctx.bad('hang', f'{w}: {o.describe()}')
    if o.bad:
        return ctx.bad('mismatch', f'{w}: {o.describe()}')
    logfaults = [f for f in R.fired if f.get('role') == 'log']
    rankfaults = [f for f in R.fired if not f.get('role') and f['act'] != 'stall']
    ctx.probes['log faults'] += len(logfaults)
    ctx.probes['ranks or jobs failed'] += len(rankfaults)
    # attempts
    short = []
    for f in R.pending:
        ls = R.launched.get(f.i, [])
        if len(ls) > 2:
            return ctx.bad('too many attempts', f'{w}: file {f.i} tried {len(ls)} times')
        if len(ls) == 2 and ls[0]['what'] not in FAILED + ('launch',):
            return ctx.bad('success repeated', f'{w}: file {f.i} was processed again after a success')
        if not ls or (len(ls) == 1 and ls[0]['what'] in FAILED):
            short.append(f.i)
        ctx.probes['failed once, then tried again'] += len(ls) == 2
    # isolation
    if not rankfaults:
        if not X.clean(o):
            return ctx.bad('not isolated', f'{w}: {o.describe()} exit codes {o.exitcodes}: {o.out[-600:]}')
        if len(short) > len(logfaults):
            none = [i for i in short if not R.launched.get(i)]
            return ctx.bad('not processed' if none else 'no second attempt',
                           f'{w}: files {none or short} were not {"processed" if none else "tried again"}')
    elif not o.ok and not o.status:
        return ctx.bad('failure not reported', f'{w}: {o.describe()}: exit status 0')
    # logs
    for f in R.fs:
        old, new = R.logs[f.i], R.logs2[f.i]
        lost = collections.Counter(old.values()) - collections.Counter(new.values())
        if any(t for t in lost):
            return ctx.bad('log lost', f'{w}: file {f.i}: logs {sorted(old.items())} became {sorted(new.items())}')
        ls = R.launched.get(f.i, [])
        for x in ls:
            n = sum(t.count(x['token'] + '\n') for t in new.values())
            if x['warned'] and sum(t.count(x['errtoken'] + '\n') for t in new.values()) != 1:
                return ctx.bad('log lost', f'{w}: file {f.i}: the errors of attempt {x["att"]} are '
                               f'not found once in {sorted(new)}')
            if x['said'] and n != 1:
                return ctx.bad('log lost', f'{w}: file {f.i}: the log of attempt {x["att"]} is '
                               f'found {n} times in {sorted(new)}')
        if ls and ls[-1]['said'] and not R.fired and not new.get(f.log, '').startswith(ls[-1]['token']):
            return ctx.bad('wrong log', f'{w}: file {f.i}: {f.log} is not the log of the last attempt')
