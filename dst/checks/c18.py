"""C18: a run uses one version of each of its inputs, and its outputs say which."""
import itertools
import os
import shutil

import numpy as np

from .. import core, dengine as E, desifiles as D, workloads as W, zengine as Z

ID = 'C18'
N = {'quick': 260, 'thorough': 15000}
RULE = ('rrdesi and rrboss on generated files in a seeded layout, alone and together with a process that '
        'replaces one or two of the spectra, template, archetype and prior files by other versions at '
        'seeded points of the run (atomically, as redrock and its installer do); '
        'non-trivial: a file is replaced after its first and before its last use or in a parallel run')
REAL = ['redrock.external.desi', 'redrock.external.boss', 'redrock.zfind', 'redrock.templates',
        'redrock.archetypes', 'redrock.priors', 'redrock.targets', 'astropy.io.fits', 'h5py / HDF5']
STUB = ['MPI library', 'multiprocessing process/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']
ASSUME = ['files are replaced by renaming complete ones; every file by itself']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    if r.random() < 0.2:
        b = D.gen_boss(r, 4)
        c = dict(kind='boss', boss=b, opts=E.gen_boss_opts(r, priors=0.4),
                 templates=W.gen_templates(r, n=int(r.integers(1, 4)), nzmax=13))
        if r.random() < 0.4:
            c['opts']['akey'] = int(r.integers(1, 10**6))
        if c['opts'].get('zbest') is None and 'zbest' not in c['opts']['outs']:
            c['opts']['outs'] = c['opts']['outs'] + ['zbest']
        n = b['n']
    else:
        c = E.gen_case(r, nmax=5, multi=0.5, select=0.3, arch=0.5, priors=0.4, model=0.7, few=r.random() < 0.3)
        c['kind'] = 'desi'
        n = c['files']['n']
        if c['opts']['outs'] == ['details']:
            c['opts']['outs'] = ['details', 'outfile']
    c['batch'] = int(r.choice([0, 2]))
    c['layout'] = Z.gen_layout(r, n) if r.random() < 0.8 else ['serial']
    ks = ['spectra', 'spectra', 'template']
    if c['opts'].get('arch') or c['opts'].get('akey'):
        ks += ['arch', 'arch', 'arch']
    if c['opts'].get('priors'):
        ks += ['priors', 'priors']
    c['replace'] = [dict(kind=str(r.choice(ks)), sel=float(r.random()), at=float(r.random()),
                         key=int(r.integers(1, 10**6)))
                    for _ in range(int(r.choice([1, 1, 1, 2])))]
    return c


# -- versions of the inputs -----------------------------------------------------------------

def files(case, d, argv):
    """{kind: paths} of the inputs"""
    out = {'template': sorted(os.path.join(d, 'tpl', x) for x in os.listdir(os.path.join(d, 'tpl'))
                              if x.endswith('.fits'))}
    if case['kind'] == 'desi':
        k = argv.index('-i') + 1
        out['spectra'] = argv[k:k + len(case['files']['files'])]
    else:
        out['spectra'] = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.startswith(('spPlate', 'spCFrame'))]
    if '--archetypes' in argv:
        a = argv[argv.index('--archetypes') + 1]
        out['arch'] = [a] if os.path.isfile(a) else sorted(os.path.join(a, x) for x in os.listdir(a))
    if '--priors' in argv:
        out['priors'] = [argv[argv.index('--priors') + 1]]
    return out


def other(case, x, path, j, d, side):
    """Write another version of file number j of a kind into side; returns its path."""
    new = os.path.join(side, 'new')
    os.makedirs(new, exist_ok=True)
    dst = os.path.join(new, f'{x["kind"]}-{j}')
    if x['kind'] == 'template':
        for s in case['templates']:
            st, sub = W.TYPES[s['t']]
            if f'rrtemplate-{st}-{sub or "None"}-v1.0.fits' == os.path.basename(path):
                W.write_template_file(dst, dict(s, k=x['key'], v='2.0', nz=s['nz'] + x['key'] % 4, nb=s['nb'] + x['key'] // 4 % 2), bool(case['opts'].get('zscan')))
    elif x['kind'] == 'arch':
        types = case['arches']
        ad = os.path.join(new, 'arch')
        W.write_archetypes(ad, types, x['key'], narch=3, version='0.2')
        shutil.move(os.path.join(ad, f'rrarchetype-{types[j].lower()}.fits'), dst)
    elif x['kind'] == 'priors':
        W.write_priors(dst, case['tids'], x['key'], case['opts']['priors'])
    elif case['kind'] == 'desi':
        spec = dict(D.permuted(case['files'], x['key']), dkey=x['key'], hv=1000)
        if len(spec['files']) == 1:     # another wavelength grid as well
            spec['npix'] += x['key'] % 4
        D.write_one(spec, j, dst)
    else:
        bd = os.path.join(new, 'boss')
        os.makedirs(bd, exist_ok=True)
        D.write_boss(dict(case['boss'], dkey=x['key']), bd)
        shutil.move(os.path.join(bd, os.path.basename(path)), dst)
    return dst


def put(src, path):
    shutil.copyfile(src, path + '.part')
    os.rename(path + '.part', path)


def reference(case, argv, d):
    os.makedirs(d)
    if case['kind'] == 'desi':
        return E.reference(case, argv, d)
    oa, paths = E.boss_outargs(case, d)
    with W.quiet():
        E.boss_body(argv + oa)(None, 1)
    return {k: E.load(p) for k, p in paths.items()}


# -- what the headers have to say --------------------------------------------------------------

def provenance(case, v, out):
    """Problem of the headers of a set of outputs made from versions v {path: 0 or 1}, or None."""
    import redrock
    boss = case['kind'] == 'boss'
    tem, arc = {}, {}
    for s in case['templates']:
        st, sub = W.TYPES[s['t']]
        nm = f'rrtemplate-{st}-{sub or "None"}-v1.0.fits'
        tem[f'{st}:::{sub}' if sub else st] = ('2.0' if v.get(nm) else '1.0', nm)
    for st, p in zip(case['arches'], case['archfiles']):
        arc[st] = ('0.2' if v.get(os.path.basename(p)) else '0.1', os.path.basename(p))
    for k in ('zbest',) if boss else ('outfile', 'model'):
        if k not in out:
            continue
        for part, (h, _) in out[k].items():
            if part not in ('0:PRIMARY', '1:REDSHIFTS') or (part[0] == '1' and k == 'model'):
                continue
            if h.get('RRVER') != redrock.__version__:
                return f'{k} {part}: RRVER {h.get("RRVER")!r}'
            for pre, want in (('TEM', tem), ('ARC', arc)):
                got = {}
                n = 0
                while f'{pre}NAM{n:02d}' in h:
                    got[h[f'{pre}NAM{n:02d}']] = (str(h.get(f'{pre}VER{n:02d}')), h.get(f'{pre}FIL{n:02d}'))
                    n += 1
                if boss:
                    got = {a: b[0] for a, b in got.items()}
                    want = {a: b[0] for a, b in want.items()}
                more = [x for x in h if x[:6] == pre + 'NAM' and int(x[6:]) >= n]
                if got != want or more:
                    return f'{k} {part}: {pre}*: {got} {more} instead of {want}'
            if not boss:
                first = case['files']['files'] and 17 + (1000 if v.get('spectra0') else 0)
                for key, x in (('SPGRP', 'healpix'), ('SPGRPVAL', 17), ('HPXPIXEL', first)):
                    if h.get(key) != x:
                        return f'{k} {part}: {key} is {h.get(key)!r} instead of {x!r}'
    return None


# -- run ---------------------------------------------------------------------------------------------

def run(case, ctx):
    d, side = ctx.scratch(), ctx.scratch()
    case = dict(case)
    boss = case['kind'] == 'boss'
    argv = E.boss_prepare(case, d) if boss else E.prepare(case, d)
    F = files(case, d, argv)
    case['archfiles'] = F.get('arch', [])
    types = sorted({W.TYPES[s['t']][0] for s in case['templates']})
    case['arches'] = types[:len(case['archfiles'])]
    case['tids'] = D.boss_ids(case['boss']) if boss else D.ids(case['files'])
    rep = {}
    for x in case['replace']:
        k = x['kind'] if x['kind'] in F else 'spectra'
        j = int(x['sel'] * len(F[k]))
        p = F[k][j]
        if p not in rep:
            keep = os.path.join(side, f'old{len(rep)}')
            shutil.copyfile(p, keep)
            x = dict(x, kind=k)
            rep[p] = (x, j, keep, other(case, x, p, j, d, side))
    paths = list(rep)
    rel = [os.path.relpath(p, d) for p in paths]
    n = len(case['tids'])
    what = f'{case["kind"]} {case["layout"]}, {n} targets, ' + ', '.join(
        f'{q} replaced at {rep[p][0]["at"]:.2f}' for p, q in zip(paths, rel))
    ctx.sample = what + f' opts={case["opts"]}'

    def version(combo):
        v = {os.path.basename(p): b for p, b in zip(paths, combo) if rep[p][0]['kind'] != 'spectra'}
        v['spectra0'] = any(b for p, b in zip(paths, combo) if p == F['spectra'][0])
        return v
    refs = []
    for combo in itertools.product((0, 1), repeat=len(paths)):
        for p, b in zip(paths, combo):
            put(rep[p][3 if b else 2], p)
        out = reference(case, argv, os.path.join(side, 'ref' + ''.join(map(str, combo))))
        bad = provenance(case, version(combo), out)
        if bad:
            ctx.bad('wrong provenance', f'serial run of versions {combo} of {rel}: {bad}')
            return
        refs.append((combo, out))
    for p in paths:
        put(rep[p][2], p)
    body = E.boss_body if boss else E.desi_body

    def job(name, also=()):
        od = ctx.scratch()
        oa, outs = (E.boss_outargs if boss else E.outargs)(case, od)
        return Z.run_body(ctx, name, case['layout'], body(argv + oa), also=also, watch=rel), outs

    def matching(outs):
        got = {k: E.try_load(q) for k, q in outs.items()}
        why = []
        for combo, ref in refs:
            x = next((f'{k}: {x}' for k in ref for x in [E.diff(got[k], ref[k])] if x), None)
            if x is None:
                return combo, got, None
            why.append(f'{combo}: {x}')
        return None, got, ' / '.join(why)
    # alone: also tells how often each file is used
    o, outs = job('alone')
    if not o.ok:
        ctx.bad('run failed', f'{what}: alone: {o.describe()}')
        return
    combo, got, why = matching(outs)
    if combo is None or any(combo):
        ctx.bad('wrong provenance', f'{what}: alone: not the result of the serial run: {why or combo}')
        return
    used = dict(o.sim.injector.watched)
    when = [int(rep[p][0]['at'] * (used[q] + 1)) for p, q in zip(paths, rel)]
    ctx.nontrivial |= case['layout'][0] != 'serial' or any(0 < w < used[q] for w, q in zip(when, rel))
    ctx.probes['replaced while in use'] += sum(0 < w < used[q] for w, q in zip(when, rel))
    for p in paths:
        ctx.probes[f'replaced {rep[p][0]["kind"]}'] += 1

    def writer(p, q, w):
        def fn(sim):
            src = p + '.new'
            core.cur().wait(lambda: sim.injector.watched[q] >= w, 'wait to replace', timeout=1e6)
            os.rename(src, p)
        return fn
    also = []
    for k, (p, q, w) in enumerate(zip(paths, rel, when)):
        shutil.copyfile(rep[p][3], p + '.new')
        also.append((f'writer{k}', writer(p, q, w)))
    o, outs = job('replaced', also)
    if o.hang or o.bad:
        ctx.bad('hang', f'{what}: {o.describe()}')
        return
    if not o.ok:
        ctx.bad('run failed', f'{what}: {o.describe()}')
        return
    combo, got, why = matching(outs)
    if combo is None:
        ctx.bad('mixed versions', f'{what}: not the result of one version of each file: {why}')
        return
    ctx.note((case['layout'][0], combo))
    ctx.probes['newer version used'] += sum(combo)
    bad = provenance(case, version(combo), got)
    if bad:
        ctx.bad('wrong provenance', f'{what}: {bad}')


def shrink(case):
    if len(case['replace']) > 1:
        for k in range(len(case['replace'])):
            yield dict(case, replace=case['replace'][:k] + case['replace'][k + 1:])
    if case['layout'][0] != 'serial':
        if case['layout'][1] > 2:
            yield dict(case, layout=[case['layout'][0], 2])
        yield dict(case, layout=['serial'])
    if case['kind'] == 'desi':
        yield from E.shrink(case)
    else:
        if case['boss']['n'] > 1:
            yield dict(case, boss=dict(case['boss'], n=1))
        if len(case['templates']) > 1:
            yield dict(case, templates=case['templates'][:1])
        for k in ('priors', 'akey', 'allspec', 'ntargets', 'targetids', 'usemask'):
            if case['opts'].get(k):
                yield dict(case, opts={a: b for a, b in case['opts'].items() if a != k})
