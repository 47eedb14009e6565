"""Histories of the production driver (bin/wrap-redrock): trees, commands, runs."""
import errno
import glob as _glob
import importlib.machinery
import importlib.util
import os
import sys

import numpy as np

from . import desifiles as D, dengine as E, env, workloads as W, zengine as Z
from .core import SimKill, cur

_mod = None


def module():
    global _mod
    if _mod is None:
        path = os.path.join(env.REPO, 'bin', 'wrap-redrock')
        ld = importlib.machinery.SourceFileLoader('wrap_redrock', path)
        _mod = importlib.util.module_from_spec(importlib.util.spec_from_loader('wrap_redrock', ld))
        ld.exec_module(_mod)
    return _mod


# -- the tree ----------------------------------------------------------------------------

PREFIX = {'desi': 'spectra', 'boss': 'spPlate'}


def gen_logs(r):
    """Suffixes of log files of earlier runs: some, or many in sequence."""
    if r.random() < 0.25:
        n = int(r.choice([2, 9, 10, 11, 12]))
        return [''] + ['.%d' % k for k in range(n) if r.random() < 0.95]
    return [str(x) for x in r.choice(['', '.0', '.1', '.2', '.abc', '.0.gz', '.10', '.9', '.09', '.1~'],
                                     size=int(r.integers(0, 6)), replace=False)]


def gen_tree(r, nmax=7):
    kind = 'desi' if r.random() < 0.7 else 'boss'
    n = int(r.integers(1, nmax + 1))
    t = dict(kind=kind, key=int(r.integers(1, 10**6)), outdir=bool(r.random() < 0.4),
             newdir=bool(r.random() < 0.5), prefix='coadd' if r.random() < 0.15 else None,
             link=bool(r.random() < 0.2), files=[])
    for i in range(n):
        t['files'].append(dict(
            i=i, depth=int(r.integers(0, 3)), pix=int(r.integers(1, 99999)), 
            nt=int(r.choice([0, 1, 3, 20, 500, 5000], p=[.05, .2, .3, .2, .15, .1])),
            have=str(r.choice(['none', 'both', 'zb', 'det'], p=[.55, .2, .12, .13])),
            logs=gen_logs(r) if r.random() < 0.4 else [],
            tmp=bool(r.random() < 0.1), late=0))
        if (kind == 'desi' or i) and r.random() < 0.12:     # left alone in BOSS data only
            t['files'][i]['depth'] = 3
        if i and r.random() < 0.2:              # in the same directory as the one before
            t['files'][i].update(depth=t['files'][i - 1]['depth'], pix=t['files'][i - 1]['pix'], twin=i - 1)
    return t


class File:
    pass


def prefix(tree):
    return tree['prefix'] or PREFIX[tree['kind']]


def paths(tree, d):
    """The files of a tree with the names their outputs have to get."""
    out = []
    pre = prefix(tree)
    for s in tree['files']:
        f = File()
        f.i, f.spec = s['i'], s
        k = s.get('twin', s['i'])
        sub = [[], ['a%d' % (k % 2)], ['b', 'c%d' % (k % 3)], ['spectra', 'd%d' % (k % 2)]][s['depth']]
        f.dir = os.path.join(d, 'redux', *sub, str(s['pix']))
        f.avoided = tree['kind'] == 'boss' and s['depth'] == 3
        base = f'-{s["pix"]}-{s["i"]}'
        f.path = os.path.join(f.dir, pre + base + '.fits')
        od = os.path.join(d, 'out') if tree['outdir'] else f.dir
        f.zb = os.path.join(od, 'redrock' + base + '.fits')
        f.det = os.path.join(od, 'rrdetails' + base + '.h5')
        f.log = os.path.join(od, 'redrock' + base + '.log')
        out.append(f)
    return out


def write_input(tree, f):
    os.makedirs(f.dir, exist_ok=True)
    if f.spec.get('real'):
        if tree['kind'] == 'desi':
            D.write_one(f.spec['real'], 0, f.path)
        else:
            p, = D.write_boss(f.spec['real'], f.dir)
            os.rename(p, f.path)
        return
    if tree['kind'] == 'boss':
        with open(f.path, 'wb') as o:
            o.write(b'spPlate')
        return
    from astropy.io import fits
    nt = f.spec['nt']
    bad = f.spec.get('corrupt')
    if bad in ('empty', 'garbage'):
        with open(f.path, 'wb') as o:
            o.write(b'' if bad == 'empty' else b'garbage ' * 700)
        return
    col = fits.Column('TARGETID', 'K', array=np.arange(nt) // (1 + f.spec['pix'] % 2))
    if bad == 'nocol':
        col.name = 'TARGET'
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(
        [col], name='FIBERMAP' if bad != 'nohdu' else 'OTHER')]).writeto(f.path, overwrite=True)
    if bad == 'cut':
        with open(f.path, 'r+b') as o:
            o.truncate(2880 + 2880 // 2)


def build(tree, d):
    fs = paths(tree, d)
    os.makedirs(os.path.join(d, 'redux'))
    if tree['outdir'] and not (tree['newdir'] and not any(
            f.spec['have'] != 'none' or f.spec['logs'] or f.spec['tmp'] for f in fs)):
        os.makedirs(os.path.join(d, 'out'))
    if tree['link']:                  # part of the tree lives elsewhere
        os.makedirs(os.path.join(d, 'elsewhere'))
        os.symlink(os.path.join(d, 'elsewhere'), os.path.join(d, 'redux', 'a1'))
    for f in fs:
        if f.spec['late']:
            continue
        place(tree, f)
    # things that are not spectra files
    pre = prefix(tree)
    for k, nm in enumerate((f'{pre}-1-1.fits.gz', f'{pre}-2-2.fits.tmp', f'old-{pre}-3-3.fits', 'zbest-1-1.fits',
                            f'{pre}-notes.txt', 'redrock-9-9.fits')):
        if (tree['key'] >> k) & 1:
            with open(os.path.join(fs[0].dir if fs[0].spec['late'] == 0 else
                                   os.path.join(d, 'redux'), nm), 'w') as o:
                o.write('x')
    return fs


def place(tree, f):
    write_input(tree, f)
    s = f.spec
    for key, p in (('zb', f.zb), ('det', f.det)):
        if s['have'] in ('both', key):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as o:
                o.write(f'earlier {f.i}')
    for k, x in enumerate(s['logs']):
        os.makedirs(os.path.dirname(f.log), exist_ok=True)
        with open(f.log + x, 'w') as o:
            o.write(f'earlier log {f.i} {k}\n')
    if s['tmp']:
        os.makedirs(os.path.dirname(f.zb), exist_ok=True)
        with open(f.zb + '.tmp', 'w') as o:
            o.write('left behind')


def set_ages(fs, key):
    """Modification times as after clock jumps or copying of files."""
    now = 1.6e9
    for f in fs:
        for p in [f.path, f.zb, f.det, *sorted(_glob.glob(_glob.escape(f.log) + '*'))]:
            if os.path.exists(p):
                t = now + float(W.rs(91, key, f.i, len(p)).choice([-1e8, -3600, -1, 0, 1, 3600, 3e9]))
                os.utime(p, (t, t))


def pending(fs):
    return [f for f in fs if os.path.exists(f.path) and not f.avoided
            and not (os.path.exists(f.zb) and os.path.exists(f.det))]


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d, followlinks=True):
        for x in fs:
            q = os.path.join(p, x)
            with open(q, 'rb') as o:
                out[os.path.realpath(q)] = o.read()
    return out


def logs_of(f):
    """Contents of the log files of one file: {name: text}."""
    out = {}
    for p in sorted(_glob.glob(_glob.escape(f.log) + '*')):
        with open(p) as o:
            out[p] = o.read()
    return out


# -- commands ------------------------------------------------------------------------------

OUTCOMES = ['fail', 'late', 'signal', 'launch', 'nothing', 'partial', 'one']


class Commands:
    """Plays rrdesi and rrboss: each launch of a file has a scripted outcome."""

    def __init__(self, tree, fs, plan, run, key, opts):
        self.tree, self.fs, self.plan, self.run, self.key = tree, fs, plan, run, key
        self.opts = opts
        self.bypath = {f.path: f for f in fs}
        self.byreal = {os.path.realpath(f.path): f for f in fs}
        self.launches = []          # dicts
        self.bad = []

    def handler(self, proc, argv, cwd):
        kind = self.tree['kind']
        want = {'desi': ('rrdesi', ('-i', '--infiles'), '--outfile', '--details'),
                'boss': ('rrboss', ('--spplate',), '--zbest', '--output')}[kind]
        if argv[0] != want[0]:
            self.bad.append(f'{argv[0]} launched for {kind} data')
        opt, k = {}, 1
        while k < len(argv):
            if argv[k].startswith('-') and k + 1 < len(argv) and not argv[k + 1].startswith('-'):
                opt[argv[k]] = argv[k + 1]
                k += 2
            else:
                opt[argv[k]] = None
                k += 1
        src = next((opt[x] for x in want[1] if x in opt), None)
        f = self.bypath.get(src) or self.byreal.get(os.path.realpath(src or ''))
        if f is None:
            self.bad.append(f'command without a known input: {argv}')
            return lambda: sys.exit(2)
        if (opt.get('-o') or opt.get(want[2])) != f.zb and opt.get(want[2]) != f.zb:
            self.bad.append(f'{os.path.basename(f.path)}: redshifts written to {opt.get(want[2])}')
        if (opt.get(want[3]) or opt.get('-d')) != f.det:
            self.bad.append(f'{os.path.basename(f.path)}: details written to {opt.get(want[3])}')
        for a in ('--mp', '--nminima', '--archetypes'):
            if self.opts.get(a) is not None and opt.get(a) != str(self.opts[a]):
                self.bad.append(f'{a} {opt.get(a)} instead of {self.opts[a]}')
        att = sum(1 for x in self.launches if x['f'] is f)
        what = self.plan.get(f'{f.i}.{att}', 'ok')
        rec = dict(f=f, proc=proc.name, att=att, what=what, token=f'<{self.key}.{self.run}.{f.i}.{att}>',
                   errtoken=f'[{self.key}.{self.run}.{f.i}.{att}]',
                   said=False, warned=False, started=False, ok=False)
        self.launches.append(rec)
        if what == 'launch':
            e = (errno.EAGAIN, errno.ENOMEM, errno.ENOENT, errno.EMFILE)[(f.i + att + self.key) % 4]
            raise OSError(e, os.strerror(e), argv[0])
        rec['started'] = True
        return lambda: self.body(rec)

    def body(self, rec):
        import time
        f, what, tok = rec['f'], rec['what'], rec['token']
        x = (self.key * 31 + f.i * 7 + rec['att']) % 13
        print(tok)
        rec['said'] = True
        print(rec['errtoken'], file=sys.stderr)
        rec['warned'] = True
        if what == 'fail':
            time.sleep(0.1 + x)
            sys.exit(1 + x % 3)
        if what == 'signal':
            time.sleep(x)
            cur().sim.kill(cur().proc, 'killed by a signal')
            raise SimKill()
        if what == 'nothing':
            return
        time.sleep(60.0 * x)
        order = [f.det, f.zb] if x % 2 else [f.zb, f.det]
        for k, p in enumerate(order):
            with open(p + '.tmp', 'w') as o:
                o.write(tok)
            if what == 'partial' or (what == 'late' and k == 1):
                print('failed')
                sys.exit(3)
            os.rename(p + '.tmp', p)
            if what == 'one':
                break
        rec['ok'] = what == 'ok'
        print('done')


# -- one run of the driver --------------------------------------------------------------------

class Run:
    pass


def run_driver(ctx, name, tree, d, fs, spec, k, faults=(), real=None, count_calls=True):
    """One run of wrap-redrock.  spec: ranks (0: without MPI), opts, plan."""
    R = Run()
    opts = dict(spec.get('opts', {}))
    argv = ['wrap-redrock', '--reduxdir', os.path.join(d, 'redux'), '--datatype', tree['kind']]
    if tree['outdir']:
        argv += ['--outdir', os.path.join(d, 'out')]
    if tree['prefix']:
        argv += ['--prefix', tree['prefix']]
    for a, v in sorted(opts.items()):
        argv += [a] if v is True else [a, str(v)]
    if not spec['ranks']:
        argv += ['--nompi']
    R.argv = argv
    R.pending = pending(fs)
    R.before = snapshot(d)
    R.logs = {f.i: logs_of(f) for f in fs}
    R.cmd = Commands(tree, fs, spec.get('plan', {}), k, ctx.case['tree']['key'] % 1000, opts)
    handler = R.cmd.handler if real is None else real(R.cmd)
    main = module().main

    def body(comm, mp):
        cur().sim.exec_handler = handler
        main()
    old = sys.argv
    sys.argv = argv
    try:
        R.o = Z.run_body(ctx, name, ['mpi', spec['ranks']] if spec['ranks'] else ['serial'], body,
                         faults=faults, count_calls=count_calls)
    finally:
        sys.argv = old
    R.after = snapshot(d)
    R.left = pending(fs)
    R.logs2 = {f.i: logs_of(f) for f in fs}
    R.launched = {}
    for x in R.cmd.launches:
        R.launched.setdefault(x['f'].i, []).append(x)
    R.fired = o_fired(R.o)
    R.rankfaults = [f for f in R.fired if f['act'] in ('kill', 'raise', 'memory')
                    and not f['proc'].endswith('.x*')]
    R.what = f'run {k} ({" ".join(argv[5:])}, {spec["ranks"] or "no"} ranks' + \
        (f', commands {spec["plan"]}' if spec.get('plan') else '') + \
        (f', faults {[{a: b for a, b in f.items() if a not in ("left", "fired")} for f in R.fired]}'
         if R.fired else '') + ')'
    ctx.note((name, sorted((i, len(v)) for i, v in R.launched.items()), R.o.exitcodes))
    return R


def o_fired(o):
    return o.sim.injector.fired


def clean(o):
    """Every rank ended by itself and successfully."""
    return o.ok and all(c == 0 for c in o.exitcodes)


# -- the real commands ---------------------------------------------------------------------------

def gen_real(r, t):
    """Real spectra for the files of a tree."""
    for f in t['files']:
        if t['kind'] == 'desi':
            f['real'] = D.gen(r, 2, multi=0.0)
        else:
            f['real'] = dict(D.gen_boss(r, 2), multi=False)
        f['have'] = 'none' if r.random() < 0.8 else f['have']
    t['templates'] = W.gen_templates(r, n=1, nzmax=9)


def real_commands(cmd):
    """Commands with the outcome 'ok' are the real programs."""
    def handler(proc, argv, cwd):
        body = cmd.handler(proc, argv, cwd)
        rec = cmd.launches[-1]
        if rec['what'] != 'ok':
            return body

        def run():
            print(rec['token'])
            rec['said'] = True
            if argv[0] == 'rrdesi':
                from redrock.external.desi import rrdesi as main
            else:
                from redrock.external.boss import rrboss as main
            main(argv[1:] if '--mp' in argv else argv[1:] + ['--mp', '1'])
            rec['ok'] = True
        return run
    return handler


def real_reference(tree, f, d, opts):
    """What the command gives when run by hand."""
    zb, det = os.path.join(d, 'zb.fits'), os.path.join(d, 'det.h5')
    n = ['--nminima', str(opts.get('--nminima', 3))]
    with W.quiet():
        if tree['kind'] == 'desi':
            E.desi_body(['-i', f.path, '-o', zb, '-d', det] + n)(None, 1)
        else:
            E.boss_body(['--spplate', f.path, '--zbest', zb, '--output', det] + n)(None, 1)
    return E.load(zb), E.load(det)
