"""rrdesi / rrboss on generated files in any layout; reading and comparing their outputs."""
import os
import sys

import numpy as np

from . import desifiles as D, env, workloads as W, zengine as Z

OUTS = {'details': 'd.h5', 'outfile': 'rr.fits', 'model': 'm.fits'}


# -- generation -----------------------------------------------------------------------

def gen_case(r, nmax=6, multi=0.5, select=0.5, arch=0.15, priors=0.15, model=0.6, few=False):
    c = dict(files=D.gen(r, nmax, multi), templates=W.gen_templates(r, n=1 if few else None,
                                                                    nzmax=29))
    o = dict(outs=['details', 'outfile'])
    if r.random() < model:
        o['outs'].append('model')
    if r.random() < 0.25:
        o['outs'] = [str(r.choice(['details', 'outfile']))]
        if r.random() < model:
            o['outs'].append('model')
    sp = c['files']
    x = r.random()
    if x < select * 0.5:
        k = int(r.integers(1, (sp['n'] if r.random() < 0.6 else min(sp['n'], 2)) + 1))
        o['targetids'] = [int(i) for i in r.permutation(sp['n'])[:k]]
    elif x < select:
        m = min(len(set(f['rows'])) for f in sp['files'])
        a = int(r.integers(0, m))
        o['mintarget'] = a
        o['ntargets'] = int(r.integers(1, m - a + 1))
        if r.random() < 0.3:
            o['mintarget'] = None
        if a == 0 and r.random() < 0.3:
            o['ntargets'] = None
    if r.random() < 0.25:
        o['allspec'] = True
    if r.random() < 0.2:
        o['cosmics'] = float(r.choice([3.0, 5.0]))
    if r.random() < 0.2:
        o['negflux'] = float(r.choice([3.0, -4.0]))
    if r.random() < 0.2:
        o['noskymask'] = True
    if r.random() < 0.5:
        o['nminima'] = int(r.choice([1, 2, 4]))
    if r.random() < 0.2:
        o['npts'] = int(r.choice([5, 9]))
    if r.random() < priors:
        o['priors'] = str(r.choice(['gaussian', 'lorentzien']))
        o['pkey'] = int(r.integers(1, 10**6))
    if r.random() < arch:
        o['arch'] = str(r.choice(['default', 'nolegendre', 'noprior', 'nopercamera', 'nearest']))
        if o['arch'] == 'nearest' and len(sp['files'][0]['bands']) == 1:
            o['arch'] = 'default'
        o['akey'] = int(r.integers(1, 10**6))
        if o['arch'] != 'nolegendre' and r.random() < 0.4:
            o['legdeg'] = int(r.integers(0 if o['arch'] != 'nearest' else 1, 4))
        o['afile'] = [None, 'file', 'other'][int(r.integers(3))]
    if r.random() < 0.08:
        o['zscan'] = True
    if r.random() < 0.2:
        o['tform'] = str(r.choice(['txt', 'files']))
    c['opts'] = o
    return c


def selected(case):
    """Per file the selected target indices; globally the list in processing order."""
    sp, o = case['files'], case['opts']
    per, order = [], []
    for f in sp['files']:
        if o.get('targetids') is not None:
            keep = list(o['targetids'])
        else:
            u = []
            for t in f['rows']:
                if t not in u:
                    u.append(t)
            a = o.get('mintarget') or 0
            b = len(u) if o.get('ntargets') is None else a + o['ntargets']
            keep = u[a:b]
        per.append([t for t in keep if True])
        for t in keep:
            if t not in order:
                order.append(t)
    return per, order


def prepare(case, d):
    """Write the inputs into d; returns the argument list without outputs."""
    sp, o = case['files'], case['opts']
    infiles = D.write(sp, d)
    tpl = W.write_template_dir(os.path.join(d, 'tpl'), case['templates'], bool(o.get('zscan')))
    if o.get('tform') == 'txt':
        tpl = [os.path.join(tpl, 'templates-default.txt')]
    elif o.get('tform') == 'files':
        tpl = sorted((os.path.join(tpl, x) for x in os.listdir(tpl) if x.endswith('.fits')), reverse=True)
    else:
        tpl = [tpl]
    a = ['-i'] + infiles + ['-t'] + tpl
    if o.get('zscan'):
        a += W.zscan_args(case['templates'])
    tid = D.ids(sp)
    if o.get('targetids') is not None:
        a += ['--targetids=' + ','.join(str(tid[i]) for i in o['targetids'])]
    if o.get('mintarget') is not None:
        a += ['--mintarget', str(o['mintarget'])]
    if o.get('ntargets') is not None:
        a += ['-n', str(o['ntargets'])]
    if o.get('allspec'):
        a += ['--allspec']
    if o.get('cosmics') is not None:
        a += ['--cosmics-nsig', str(o['cosmics'])]
    if o.get('negflux') is not None:
        a += [f'--negflux-nsig={o["negflux"]}']
    if o.get('noskymask'):
        a += ['--no-skymask']
    if o.get('nminima') is not None:
        a += ['--nminima', str(o['nminima'])]
    if o.get('npts') is not None:
        a += ['--zminfit-npoints', str(o['npts'])]
    if o.get('priors'):
        p = os.path.join(d, 'priors.fits')
        W.write_priors(p, tid, o['pkey'], o['priors'])
        a += ['--priors', p]
    if o.get('arch'):
        types = arch_types(case)
        ad = os.path.join(d, 'arch')
        W.write_archetypes(ad, types, o['akey'])
        if len(types) == 1 and o.get('afile'):
            # one file, whatever its name
            x = os.path.join(ad, f'rrarchetype-{types[0].lower()}.fits')
            ad = x
            if o['afile'] == 'other':
                ad = os.path.join(d, 'mine.fits')
                os.rename(x, ad)
        a += ['--archetypes', ad]
        m = o['arch']
        if m == 'nolegendre':
            a += ['--archetypes-no-legendre']
        elif m == 'noprior':
            a += ['--archetype-legendre-prior', '0']
        elif m == 'nopercamera':
            a += ['--archetype-legendre-percamera', 'False']
        elif m == 'nearest':
            a += ['--archetype-nnearest', '2']
        if o.get('legdeg') is not None:
            a += ['--archetype-legendre-degree', str(o['legdeg'])]
    return a


def arch_types(case):
    """types of templates that have archetypes"""
    types = sorted({W.TYPES[s['t']][0] for s in case['templates']})
    if case['opts']['akey'] % 4 == 0 and len(types) > 1:
        types = types[:1]
    return types


def outargs(case, d, sub=''):
    a, paths = [], {}
    for k in case['opts']['outs']:
        p = os.path.join(d, sub, OUTS[k])
        paths[k] = p
        a += ['--' + k, p]
    return a, paths


_code = {}


def program(name, fn):
    """Runs of a program; some of them through its script in bin."""
    def make(argv):
        def body(comm, mp):
            args = argv if comm is not None else argv + ['--mp', str(mp)]
            if len(argv) % 3:
                return fn()(args, comm=comm)
            path = os.path.join(env.REPO, 'bin', name if comm is None else name + '_mpi')
            if path not in _code:
                with open(path) as f:
                    _code[path] = compile(f.read(), path, 'exec')
            sys.argv = [path] + args        # the same for all ranks
            exec(_code[path], {'__name__': '__main__', '__file__': path})
        return body
    return make


def _rrdesi():
    from redrock.external.desi import rrdesi
    return rrdesi


def _rrboss():
    from redrock.external.boss import rrboss
    return rrboss


desi_body, boss_body = program('rrdesi', _rrdesi), program('rrboss', _rrboss)


def reference(case, argv, d):
    """Fault-free serial run with the real system underneath; returns its outputs."""
    os.makedirs(d, exist_ok=True)
    oa, paths = outargs(case, d)
    with W.quiet():
        desi_body(argv + oa)(None, 1)
    return {k: load(p) for k, p in paths.items()}


# -- BOSS --------------------------------------------------------------------------------

BOUTS = {'output': 'd.h5', 'zbest': 'zb.fits'}


def gen_boss_opts(r, priors=0.15):
    o = dict(outs=[str(x) for x in r.choice(['output', 'zbest'], int(r.choice([1, 2, 2])),
                                            replace=False)])
    x = r.random()
    if x < 0.2:
        o['ntargets'] = int(r.integers(1, 4))
    elif x < 0.4:
        o['targetids'] = [int(r.integers(0, 5)) for _ in range(int(r.integers(1, 4)))]
    if r.random() < 0.2:
        o['allspec'] = True
    if r.random() < 0.3:
        o['nminima'] = int(r.integers(1, 5))
    if r.random() < 0.3:
        o['usemask'] = True
    if r.random() < priors:
        o['priors'] = str(r.choice(['gaussian', 'lorentzien']))
        o['pkey'] = int(r.integers(1, 10**6))
    if r.random() < 0.12:
        o['akey'] = int(r.integers(1, 10**6))
    return o


def boss_selected(case):
    sp, o = case['boss'], case['opts']
    if o.get('targetids') is not None:
        return sorted({i % sp['n'] for i in o['targetids']})
    return list(range(sp['n']))


def boss_prepare(case, d):
    sp, o = case['boss'], case['opts']
    a = ['--spplate'] + D.write_boss(sp, d)
    a += ['--templates', W.write_template_dir(os.path.join(d, 'tpl'), case['templates'])]
    tid = D.boss_ids(sp)
    if o.get('ntargets'):
        a += ['--ntargets', str(min(o['ntargets'], sp['n']))]
    if o.get('targetids') is not None:
        a += ['--targetids', ','.join(str(tid[i]) for i in boss_selected(case))]
    if o.get('allspec'):
        a += ['--allspec']
    if o.get('nminima'):
        a += ['--nminima', str(o['nminima'])]
    if o.get('usemask'):
        a += ['--use-andmask']
    if sp.get('frames'):
        a += ['--use-frames']
    if o.get('priors'):
        p = os.path.join(d, 'priors.fits')
        W.write_priors(p, tid, o['pkey'], o['priors'])
        a += ['--priors', p]
    if o.get('akey'):
        ad = os.path.join(d, 'arch')
        types = sorted({W.TYPES[s['t']][0] for s in case['templates']})
        W.write_archetypes(ad, types[:1] if o['akey'] % 4 == 0 else types, o['akey'])
        a += ['--archetypes', ad]
    return a


def boss_outargs(case, d):
    a, paths = [], {}
    for k in case['opts']['outs']:
        paths[k] = os.path.join(d, BOUTS[k])
        a += ['--' + k, paths[k]]
    return a, paths


# -- reading outputs back ----------------------------------------------------------------

VOLATILE = ('CHECKSUM', 'DATASUM', 'DATE', 'COMMENT', 'HISTORY', '')


def load_fits(path):
    from astropy.io import fits
    out = {}
    with fits.open(path, memmap=False) as hx:
        for i, h in enumerate(hx):
            hd = {k: v for k, v in h.header.items()
                  if k not in VOLATILE and not k.startswith('DEP')}
            out[f'{i}:{h.name}'] = (hd, tocols(h.data))
    return out


def tocols(data):
    if data is None:
        return None
    if getattr(data, 'names', None):
        out = {}
        for n in data.names:
            a = np.array(data[n])
            if a.dtype.kind == 'U':
                a = np.char.rstrip(a)
            out[n] = a
        return out
    return {'DATA': np.array(data)}


def load_h5(path):
    import h5py
    out = {}

    def visit(name, obj):
        if not isinstance(obj, h5py.Dataset):
            for k in obj:
                visit(f'{name}/{k}' if name else k, obj[k])
            return
        a = obj[()]
        if a.dtype.names:
            for n in a.dtype.names:
                out[f'{name}/{n}'] = np.array(a[n])
        else:
            out[name] = np.array(a)
    # not visititems: nothing may yield in it, so that another simulated process could
    # not run in between
    with h5py.File(path, 'r') as fx:
        visit('', fx)
    return {'h5': ({}, out)}


def load(path):
    """{hdu: (header, {column: array})}"""
    return load_h5(path) if path.endswith('.h5') else load_fits(path)


def try_load(path):
    """Content, or None if there is no file, or a string with the problem."""
    if not os.path.exists(path):
        return None
    try:
        return load(path)
    except Exception as e:      # noqa
        return f'unreadable: {type(e).__name__}: {e}'


def diff(a, b, exact=False):
    """Difference between two loaded files, or None."""
    if a is None or isinstance(a, str):
        return 'missing' if a is None else a
    if list(a) != list(b):
        return f'parts {list(a)} instead of {list(b)}'
    for k in b:
        (ha, ca), (hb, cb) = a[k], b[k]
        if ha != hb:
            ks = [x for x in set(ha) | set(hb) if ha.get(x) != hb.get(x)]
            return f'{k}: header {ks[0]} = {ha.get(ks[0])!r} instead of {hb.get(ks[0])!r}'
        if (ca is None) != (cb is None):
            return f'{k}: data missing'
        if ca is None:
            continue
        if set(ca) != set(cb):
            return f'{k}: contents differ: {sorted(set(ca) ^ set(cb))[:6]}'
        for n in cb:
            d = diff_array(n, ca[n], cb[n], exact)
            if d:
                return f'{k}: {d}'
    return None


def diff_array(n, x, y, exact=False):
    if x.shape != y.shape:
        return f'{n}: shape {x.shape} instead of {y.shape}'
    if x.dtype.kind in 'US':
        if not np.array_equal(x.astype(str), y.astype(str)):
            i = np.argwhere(np.atleast_1d(x.astype(str) != y.astype(str)))[0]
            return f'{n}{list(i)}: {x[tuple(i)]!r} instead of {y[tuple(i)]!r}'
        return None
    if x.dtype.kind in 'iub' or exact:
        if not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
            return f'{n}: {first(x, y)}'
        return None
    l = n.split('/')[-1].lower()
    at = rt = 0.0
    big = np.abs(y[np.isfinite(y)].astype(float))
    m = float(big.max()) if big.size else 0.0
    rt = 3e-6
    if l == 'zerr':
        rt, at = 2e-3, 1e-7
    elif 'coeff' in l or l == 'data' or l.endswith('_model'):
        at = 2e-5 * m
    elif l == 'deltachi2':
        at = 1e-6 * max(m, 1e3)
    elif l in ('z', 'zz', 'redshifts'):
        at = 2e-7
    if Z.close(x, y, rt, at):
        return None
    return f'{n}: {first(x, y, rt, at)}'


def first(x, y, rt=0.0, at=0.0):
    x1, y1 = np.atleast_1d(x), np.atleast_1d(y)
    for i in np.ndindex(*x1.shape):
        if not Z.close(x1[i], y1[i], rt, at):
            return f'element {list(map(int, i))} is {x1[i]!r} instead of {y1[i]!r}'
    return 'differs'


def check_outputs(ctx, what, paths, ref, kind='output differs'):
    ok = True
    for k, p in paths.items():
        got = try_load(p)
        d = 'missing' if got is None else got if isinstance(got, str) else diff(got, ref[k])
        if d:
            ctx.bad(kind, f'{what}: {k}: {d}')
            ok = False
    return ok


def stray(d, paths):
    """Files in the output directory that are not outputs."""
    names = {os.path.basename(p) for p in paths.values()}
    return sorted(x for x in os.listdir(d) if x not in names)


# -- shrinking ------------------------------------------------------------------------------

def shrink(case):
    sp, o = case['files'], case['opts']
    if len(sp['files']) > 1:
        for k in range(len(sp['files'])):
            nm = [x if isinstance(x, str) or x < k else x - 1
                  for x in sp.get('nomask') or [] if x != k]
            yield fixup(dict(case, files=dict(sp, files=sp['files'][:k] + sp['files'][k + 1:],
                                              nomask=nm)))
    if len(case['templates']) > 1:
        for k in range(len(case['templates'])):
            yield dict(case, templates=case['templates'][:k] + case['templates'][k + 1:])
    for k in range(sp['n']):
        fs = [{**f, 'rows': [t for t in f['rows'] if t != k], 'src': None} for f in sp['files']]
        if all(f['rows'] for f in fs) and sp['n'] > 1:
            oo = dict(o)
            if oo.get('targetids'):
                oo['targetids'] = [t for t in oo['targetids'] if t != k]
                if not oo['targetids']:
                    continue
            yield fixup(dict(case, files=dict(sp, files=fs), opts=oo))
    for k in ('targetids', 'allspec', 'cosmics', 'negflux', 'noskymask', 'nminima', 'npts',
              'priors', 'arch', 'legdeg', 'zscan', 'tform', 'afile'):
        if o.get(k) is not None:
            yield dict(case, opts={a: b for a, b in o.items() if a != k})
    if o.get('mintarget') is not None or o.get('ntargets') is not None:
        yield dict(case, opts={a: b for a, b in o.items() if a not in ('mintarget', 'ntargets')})
    if len(o['outs']) > 1:
        for k in o['outs']:
            rest = [x for x in o['outs'] if x != k]
            if rest != ['model']:
                yield dict(case, opts=dict(o, outs=rest))
    if any(x != 'ok' for x in sp['kinds']):
        yield dict(case, files=dict(sp, kinds=['ok'] * sp['n']))
    if any(x != 'ok' for x in sp['status']):
        yield dict(case, files=dict(sp, status=['ok'] * sp['n'], fstatus={}))
    if sp.get('fstatus'):
        yield dict(case, files=dict(sp, fstatus={}))
    if any(len(f['bands']) > 1 for f in sp['files']):
        yield dict(case, files=dict(sp, files=[dict(f, bands=f['bands'][0]) for f in sp['files']]))
    for fi, f in enumerate(sp['files']):
        if len(f['rows']) > len(set(f['rows'])):
            u = list(dict.fromkeys(f['rows']))
            yield dict(case, files=dict(sp, files=sp['files'][:fi] + [dict(f, rows=u)]
                                        + sp['files'][fi + 1:]))
    if sp['mask']:
        yield dict(case, files=dict(sp, mask=False))
    if sp.get('nomask'):
        yield dict(case, files=dict(sp, nomask=[]))


def fixup(case):
    """Renumber after removing targets."""
    sp, o = case['files'], dict(case['opts'])
    used = sorted({t for f in sp['files'] for t in f['rows']})
    m = {t: i for i, t in enumerate(used)}
    fs = [{**f, 'rows': [m[t] for t in f['rows']]} for f in sp['files']]
    if o.get('targetids'):
        o['targetids'] = [m[t] for t in o['targetids'] if t in m] or [0]
    mn = min(len(set(f['rows'])) for f in fs)
    if o.get('mintarget') is not None or o.get('ntargets') is not None:
        o['mintarget'] = min(o.get('mintarget') or 0, mn - 1)
        o['ntargets'] = min(o.get('ntargets') or mn, mn - o['mintarget'])
    return dict(case, opts=o, files=dict(sp, n=len(used), files=fs, fstatus={},
                                         kinds=[sp['kinds'][t] for t in used],
                                         status=[sp['status'][t] for t in used]))


def describe(case):
    sp = case['files']
    return (f'{sp["n"]} targets files={[(f["rows"], f["bands"]) for f in sp["files"]]} '
            f'coadd={sp["coadd"]} mask={sp["mask"]} nomask={sp.get("nomask")} kinds={sp["kinds"]} status={sp["status"]} {sp.get("fstatus") or ""} opts={case["opts"]}')
