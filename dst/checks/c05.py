"""C05: failure of one MPI rank stops the whole job and leaves no misleading output."""
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from .c04 import intact, shrink as shrink04

ID = 'C05'
N = {'quick': 230, 'thorough': 15000}
RULE = ('seeded rrdesi or rrboss job on 1 to 7 ranks, run without faults to count the operations of '
        'each rank, then with a seeded fault in one or two ranks (exception, out of memory, killed, '
        'unreadable input, full disk), then again without; non-trivial: the fault took place')
REAL = ['redrock.external.desi', 'redrock.external.boss', 'redrock.targets', 'redrock.templates',
        'redrock.zscan', 'redrock.zfind', 'redrock.results', 'redrock.utils', 'redrock.archetypes']
STUB = ['MPI library and launcher', 'clock', 'file system calls (real files below a scratch directory)']
ASSUME = ['the launcher ends a job of which one process was killed by a signal']

ACTS = ['raise', 'raise', 'memory', 'kill', 'step', 'read', 'read', 'write', 'full']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    c = dict(mode='desi' if r.random() < 0.8 else 'boss', batch=int(r.choice([0, 1, 2, 3])))
    if c['mode'] == 'desi':
        c.update(E.gen_case(r, nmax=6, arch=0.2, priors=0.2))
        c['scan'] = bool(r.random() < 0.2 and not c['opts'].get('priors'))
        if len(c['opts']['outs']) == 1 and r.random() < 0.7:
            c['opts']['outs'] = ['details', 'outfile', 'model']
        for t in c['templates']:
            t['nz'] = min(t['nz'], 13)
    else:
        c.update(boss=D.gen_boss(r), templates=W.gen_templates(r, n=1, nzmax=13),
                 opts=E.gen_boss_opts(r))
    c['mp'] = int(r.choice([1, 2, 2, 3, 4, 5, 7]))
    c['old'] = bool(r.random() < 0.6)
    if r.random() < 0.15:
        c['wrong'] = str(r.choice(WRONG if c['mode'] == 'desi' else BOSS_WRONG))
        c['layout'] = str(r.choice(['mpi', 'mpi', 'mpi', 'mp', 'serial']))
    c['faults'] = [gen_fault(r) for _ in range(int(r.choice([1, 1, 1, 2])))]
    return c


# inputs that cannot be used, and arguments that make no sense
WRONG = ['no input', 'cut input', 'no template', 'bad template', 'no prior', 'no archetypes', 'bad outdir',
         'no output', 'no archetype in directory', 'bad archetype', 'ids and range', 'beyond range',
         'beyond last', 'no scan', 'bad scan']

BOSS_WRONG = ['no input', 'no template', 'bad template', 'no prior', 'bad archetype', 'bad outdir',
              'no output', 'ids and range', 'no archetypes', 'no archetype in directory']


def spoil(case, argv, d, paths):
    """Arguments of a run that must fail; the inputs of it are in d."""
    w, argv = case['wrong'], list(argv)
    key = '-i' if case['mode'] == 'desi' else '--spplate'
    garbage = os.path.join(d, 'garbage.fits')
    with open(garbage, 'wb') as f:
        f.write(b'no such thing ' * 500)

    def drop(*opts):
        argv[:] = [x for x in argv if not x.startswith('--targetids=') or '--targetids' not in opts]
        for o in opts:
            while o in argv:
                k = argv.index(o)
                del argv[k]
                while k < len(argv) and not argv[k].startswith('--') and argv[k] not in ('-i', '-t', '-n'):
                    del argv[k]
    first = argv[argv.index(key) + 1]
    if w == 'no input':
        argv.insert(argv.index(key) + 2, os.path.join(d, 'absent.fits'))
    elif w == 'cut input':
        with open(first, 'r+b') as f:
            f.truncate(int((0.1 + 0.6 * case['faults'][0]['frac']) * os.path.getsize(first)))
    elif w in ('no template', 'bad template'):
        drop('-t', '--templates')
        argv += ['--templates', os.path.join(d, 'absent') if w == 'no template' else garbage]
    elif w == 'no prior':
        drop('--priors')
        argv += ['--priors', os.path.join(d, 'absent.fits')]
    elif w in ('no archetypes', 'no archetype in directory', 'bad archetype'):
        drop('--archetypes')
        argv += ['--archetypes', os.path.join(d, 'absent') if w == 'no archetypes' else garbage]
        if w == 'no archetype in directory':
            argv[-1] = os.path.join(d, 'empty')
            os.makedirs(argv[-1])
            if case['faults'][0]['sel'] < 0.5:
                open(os.path.join(argv[-1], 'README'), 'w').close()
    elif w == 'bad outdir':
        return argv + [x for k, p in paths.items()
                       for x in ('--' + k, os.path.join(garbage, os.path.basename(p)))]
    elif w == 'no output':
        return argv
    elif w == 'ids and range':
        drop('--targetids', '-n', '--mintarget')
        argv += ['--targetids', '1,2', '-n', '1']
    elif w in ('beyond range', 'beyond last'):
        drop('--targetids', '-n', '--mintarget')
        argv += ['-n', '1000'] if w == 'beyond last' else ['--mintarget', '1000', '-n', '1']
    elif w in ('no scan', 'bad scan'):
        drop('--chi2-scan')
        argv += ['--chi2-scan', os.path.join(d, 'absent.h5') if w == 'no scan' else garbage]
    return argv + [x for k, p in paths.items() for x in ('--' + k, p)]


def wrong(case, ctx, d, argv, mk, outs, ref, what):
    paths = outs[1][1]
    bad = spoil(case, argv, d, paths)
    lay = {'mpi': ['mpi', case['mp']], 'mp': ['mp', max(2, case['mp'])], 'serial': ['serial']}[case['layout']]
    o = Z.run_body(ctx, 'fault', lay, mk(bad))
    w = f'{lay}, {case["wrong"]} ({what})'
    ctx.sample = w
    ctx.nontrivial = True
    ctx.probes['unusable inputs and arguments'] += 1
    if o.hang:
        ctx.bad('hang', f'{w}: {o.describe()}')
    elif o.bad:
        ctx.bad('mismatch', f'{w}: {o.describe()}')
    elif not o.status:
        ctx.bad('failure not reported', f'{w}: the run ended with exit status 0')
    else:
        for k, p in paths.items():
            intact(ctx, w, k, p, case['old'] and not p.endswith('.h5'), ref[k], case['old'])


def gen_fault(r):
    act = str(r.choice(ACTS))
    f = dict(act=act, sel=float(r.random()), frac=float(r.random()))
    if r.random() < 0.25:
        f['frac'] = 0.9 + 0.1 * f['frac']       # late: while results are written
    if act in ('raise', 'memory', 'kill'):
        f['op'] = str(r.choice(['call', 'call', 'mpi', '*'])) if act == 'kill' else 'call'
    return f


def window(inj, rank):
    """Range of calls of a rank while data are read, processed and written.

    It starts with the first message after input has been read, and ends with the last message
    before, or operation of, the last change of an output file.  Parsing of arguments and the
    report of the run time lie outside.
    """
    every = [m for v in inj.marks.values() for m in v]
    first = min((m[2] for m in every if m[0] == 'fs:read'), default=0)
    last = max((m[2] for m in every if m[0] in ('fs:rename', 'fs:close')), default=0)
    mine = [m for m in inj.marks.get(f'rank{rank}', ()) if m[0] == 'mpi' or m[0].startswith('fs:')]
    a = [m[1] for m in mine if m[2] >= first and m[0] == 'mpi']
    b = [m[1] for m in mine if m[2] <= last]
    return (min(a), max(b)) if a and b else (0, 0)


def resolve(case, o):
    inj, out = o.sim.injector, []
    n = case['mp']

    def count(rank, ops):
        return sum(v for (p, op), v in inj.counts.items() if p == f'rank{rank}' and op.startswith(ops))
    for f in case['faults']:
        rank, act = int(f['sel'] * n), f['act']
        if act == 'step':
            out.append(dict(proc=f'rank{rank}', op='step', n=1 + int(f['frac'] * o.sim.steps), act='kill'))
            continue
        if act in ('read', 'write', 'full'):
            ops = 'fs:read' if act == 'read' and f['sel'] * 7 % 1 < 0.6 else \
                'fs:open' if act == 'read' else \
                ('fs:create', 'fs:write', 'fs:close', 'fs:rename', 'fs:remove')[int(f['sel'] * 97 % 1 * 5)]
            who = [k for k in range(n) if count(k, ops)]
            if not who:
                continue
            rank = who[int(f['sel'] * len(who))]
            a = {'read': 'errno:EIO', 'write': 'errno:EIO', 'full': 'sticky:ENOSPC'}[act]
            out.append(dict(proc=f'rank{rank}', op=ops, n=1 + int(f['frac'] * count(rank, ops)), act=a))
            continue
        if f['op'] == 'call':
            a, b = window(inj, rank) if act != 'kill' else (0, inj.calls.get(f'rank{rank}', 0))
        else:
            a, b = 0, count(rank, '' if f['op'] == '*' else f['op'])
        if b > a:
            out.append(dict(proc=f'rank{rank}', op=f['op'], n=a + 1 + int(f['frac'] * (b - a)), act=act))
    return out


def run(case, ctx):
    d = ctx.scratch()
    n = case['mp']
    desi = case['mode'] == 'desi'
    argv = E.prepare(case, d) if desi else E.boss_prepare(case, d)
    if case.get('scan'):
        p = os.path.join(d, 'scan.h5')
        with W.quiet():
            E.desi_body(argv + ['--details', p])(None, 1)
        argv += ['--chi2-scan', p]
    dirs = [ctx.scratch(), ctx.scratch()]
    outs = [(E.outargs if desi else E.boss_outargs)(case, x) for x in dirs]
    mk = E.desi_body if desi else E.boss_body
    what = E.describe(case) if desi else f'rrboss {case["boss"]} opts={case["opts"]}'
    o = Z.run_body(ctx, 'pilot', ['mpi', n], mk(argv + outs[0][0]), count_calls=True)
    if not o.ok:
        ctx.bad('run failed', f'{n} ranks, no fault ({what}): {o.describe()}')
        return
    ref = {k: E.load(p) for k, p in outs[0][1].items()}
    paths = outs[1][1]
    if case['old']:
        for p in paths.values():
            with open(p, 'wb') as f:
                f.write(b'earlier ' + os.path.basename(p).encode())
    if case.get('wrong'):
        return wrong(case, ctx, d, argv, mk, outs, ref, what)
    o = Z.run_body(ctx, 'fault', ['mpi', n], mk(argv + outs[1][0]), faults=resolve(case, o))
    fired = o.sim.injector.fired
    w = f'{n} ranks, {[{k: v for k, v in f.items() if k not in ("left", "fired")} for f in fired]} ({what})'
    ctx.sample = w
    ctx.nontrivial = bool(fired)
    if o.hang:
        ctx.bad('hang', f'{w}: {o.describe()}')
        return
    if o.bad:
        ctx.bad('mismatch', f'{w}: {o.describe()}')
        return
    ctx.probes['job failed'] += not o.ok
    if o.ok:
        E.check_outputs(ctx, w, paths, ref, 'failure not reported')
        if not fired:
            return
    elif not fired:
        ctx.bad('run failed', f'{w}: {o.describe()}')
        return
    elif not o.status:
        ctx.bad('failure not reported', f'{w}: the job was aborted with exit status 0')
        return
    else:
        for k, p in paths.items():
            intact(ctx, w, k, p, case['old'] and not p.endswith('.h5'), ref[k], case['old'])
            ctx.probes['killed with temporary files'] += bool(E.stray(dirs[1], paths))
    if ctx.viol:
        return
    # the same command again
    o = Z.run_body(ctx, 'again', ['mpi', n], mk(argv + outs[1][0]))
    if not o.ok:
        ctx.bad('run after failure', f'{w}: the next run: {o.describe()}')
        return
    E.check_outputs(ctx, f'{w}: the next run', paths, ref, 'run after failure')


def shrink(case):
    if case.get('wrong') and case['layout'] != 'serial':
        yield dict(case, layout='serial')
    if case.get('scan'):
        yield dict(case, scan=False)
    yield from shrink04(case)
    if case.get('batch'):
        yield dict(case, batch=0)
