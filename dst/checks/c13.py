"""C13: catalog, fibermap and model rows describe the same targets in every layout."""
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from . import c01, c02

ID = 'C13'
N = {'quick': 230, 'thorough': 8000}
RULE = ('seeded input files, selection and options; rrdesi serially, in two seeded layouts of ranks '
        'or workers under seeded schedules with stalls, and with the rows of the files permuted; '
        'non-trivial: two or more targets and a parallel layout')
REAL = ['redrock.external.desi', 'redrock.targets', 'redrock.templates', 'redrock.zscan',
        'redrock.zfind', 'redrock.fitz', 'redrock.archetypes', 'redrock.results']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']

SKY, LITTLE, UNPLUG, BADT, NODATA, POOR = 1, 2, 1 << 7, 1 << 8, 1 << 9, 1 << 11
# bits rrdesi adds for the state of the fibre
BITS = {'ok': 0, 'minor': 0, 'amp': LITTLE, 'poorsky': SKY | POOR | LITTLE, 'sky': SKY, 'poor': POOR, 'badpos': NODATA, 'broken': NODATA | UNPLUG,
        'unassigned': NODATA, 'badtype': NODATA | BADT}


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    c = dict(batch=int(r.choice([0, 0, 1, 2, 3])))
    c.update(E.gen_case(r, nmax=7 if (large := r.random()) > 0.03 else (20, 50), model=0.85,
                        few=large <= 0.03, arch=float(os.environ.get('ARCHP', 0.3))))
    if 'outfile' not in c['opts']['outs'] and r.random() < 0.7:
        c['opts']['outs'] = ['details', 'outfile', 'model']
    for t in c['templates']:
        t['nz'] = min(t['nz'], 13)
    c['layouts'] = [Z.gen_layout(r, c['files']['n']) for _ in range(2)]
    c['faults'] = [Z.gen_benign(r, x) for x in c['layouts']]
    c['perm'] = int(r.integers(1, 10**6)) if r.random() < 0.6 else None
    return c


def run(case, ctx):
    d, d0 = ctx.scratch(), ctx.scratch()
    argv = E.prepare(case, d)
    ref = E.reference(case, argv, d0)
    what = E.describe(case)
    ctx.sample = f'{what} layouts={case["layouts"]}'
    per, order = E.selected(case)
    structure(ctx, case, f'serial run ({what})', ref, per, order)
    if ctx.viol:
        return
    for li, layout in enumerate(case['layouts']):
        od = ctx.scratch()
        oa, paths = E.outargs(case, od)
        o = Z.run_body(ctx, f'l{li}', layout, E.desi_body(argv + oa), faults=case['faults'][li])
        w = f'layout {layout} ({what})'
        ctx.nontrivial |= len(order) > 1 and layout[0] != 'serial' and layout[1] > 1
        ctx.probes['ranks > targets'] += layout[0] == 'mpi' and layout[1] > len(order)
        if not o.ok:
            ctx.bad('run failed', f'{w}: {o.describe()}')
            return
        E.check_outputs(ctx, w, paths, ref)
    # other order of rows: the same result for each target
    if case.get('perm') and case['opts'].get('mintarget') is None and case['opts'].get('ntargets') is None:
        c2 = dict(case, files=D.permuted(case['files'], case['perm']))
        d2, d3 = ctx.scratch(), ctx.scratch()
        per2, order2 = E.selected(c2)
        argv2 = E.prepare(c2, d2)
        got = E.reference(c2, argv2, d3)
        w = f'rows in order {[f["rows"] for f in c2["files"]["files"]]} ({what})'
        structure(ctx, c2, w, got, per2, order2)
        ctx.probes['permuted input'] += 1
        if not ctx.viol:
            same_rows(ctx, w, got, ref)


def same_rows(ctx, what, got, ref):
    for k, part, key in (('outfile', '1:REDSHIFTS', 'TARGETID'), ('model', '1:REDSHIFTS', 'TARGETID')):
        if k not in ref:
            continue
        a, b = got[k][part][1], ref[k][part][1]
        ia, ib = np.argsort(a[key]), np.argsort(b[key])
        for c in b:
            dd = E.diff_array(c, a[c][ia], b[c][ib])
            if dd:
                ctx.bad('row order', f'{what}: {k}: {dd} (rows sorted by target)')
                return
        if k == 'model':
            for h in ref[k]:
                if h.endswith('_MODEL'):
                    dd = E.diff_array('data', got[k][h][1]['DATA'][ia], ref[k][h][1]['DATA'][ib])
                    if dd:
                        ctx.bad('row order', f'{what}: {h}: {dd} (rows sorted by target)')
                        return


def structure(ctx, case, what, out, per, order):
    """One complete set of outputs against the inputs."""
    sp = case['files']
    tid = D.ids(sp)
    want = [tid[t] for t in order]
    cat = None
    for k in ('outfile', 'model'):
        if k in out:
            rs = out[k]['1:REDSHIFTS'][1]
            if list(rs['TARGETID']) != want:
                ctx.bad('rows', f'{what}: {k} has targets {list(rs["TARGETID"])} instead of {want}')
                return
            cat = rs if cat is None else cat
    if 'details' in out:
        h = out['details']['h5'][1]
        if sorted(h['targetids']) != sorted(want):
            ctx.bad('rows', f'{what}: details have targets {sorted(h["targetids"])} instead of {sorted(want)}')
            return
    if cat is None:
        return
    allbits = bits_of(sp, order, per)
    for i, t in enumerate(order):
        bits = allbits[i]
        zw = int(cat['ZWARN'][i])
        mine = SKY | UNPLUG | BADT | POOR
        if zw & mine != bits & mine or (bits & LITTLE and not zw & LITTLE) or (bits & NODATA and not zw & NODATA):
            ctx.bad('warning bits', f'{what}: target {tid[t]} ({sp["status"][t]}) has zwarn {zw}')
            return
        if zw & LITTLE and not bits & LITTLE and cat['NPIXELS'][i] >= 10 * cat['NCOEFF'][i]:
            ctx.bad('warning bits', f'{what}: target {tid[t]} ({sp["status"][t]}) has zwarn {zw} '
                                    f'with {cat["NPIXELS"][i]} pixels')
            return
        if bits & NODATA and (cat['Z'][i] != 0 or np.any(cat['COEFF'][i]) or
                              str(cat['SPECTYPE'][i]).strip() != 'GALAXY' or
                              str(cat['FITMETHOD'][i]).strip() != 'NONE'):
            ctx.bad('warning bits', f'{what}: target {tid[t]} ({sp["status"][t]}) has a fit')
            return
        if not bits & NODATA and sp['kinds'][t] not in ('zero',) and not sp.get('dead') \
                and zw & NODATA and cat['NPIXELS'][i] > 0:
            ctx.bad('warning bits', f'{what}: target {tid[t]} has data and zwarn {zw}')
            return
        if sp['kinds'][t] == 'zero' and not zw & NODATA:
            ctx.bad('warning bits', f'{what}: target {tid[t]} has no data and zwarn {zw}')
            return
    if 'details' in out:
        best_rows(ctx, what, out['details']['h5'][1], cat, want, allbits)
        scans(ctx, case, what, out['details']['h5'][1])
    if 'outfile' in out:
        tables(ctx, case, what, out['outfile'], per, tid)
    if 'model' in out:
        models(ctx, case, what, out, cat, order)


def bits_of(sp, order, per):
    """The bits of the state of the fibre in any of the files where the target is selected."""
    out = [0] * len(order)
    for f, F in enumerate(sp['files']):
        for i, t in enumerate(order):
            if t in F['rows'] and t in per[f]:
                out[i] |= BITS[D.status(sp, f, t)]
    return out


def best_rows(ctx, what, h, cat, want, bits):
    """The row of each target is its first fit in the details, which is its best one."""
    for i, t in enumerate(want):
        p = f'zfit/{t}/zfit/'
        if p + 'z' not in h:
            ctx.bad('best fit', f'{what}: no fits of target {t} in the details')
            return
        z = np.atleast_1d(h[p + 'z'])
        zw = np.atleast_1d(h[p + 'zwarn'])
        c2 = np.atleast_1d(h[p + 'chi2'])
        k = np.flatnonzero(np.atleast_1d(h[p + 'znum']) == 0)
        if len(k) != 1:
            ctx.bad('best fit', f'{what}: target {t} has {len(k)} best fits')
            return
        k = int(k[0])
        for a, b in (('Z', z[k]), ('CHI2', np.float32(c2[k])), ('ZWARN', zw[k])):
            if not Z.close(np.asarray(cat[a][i]), np.asarray(b), 1e-6):
                ctx.bad('best fit', f'{what}: target {t}: {a} {cat[a][i]} and {b} in the details')
                return
        bad = (1 << 3) | (1 << 4) | (1 << 5) | (1 << 6) | (1 << 10)
        isbad = (zw & bad) != 0
        if isbad[k] and not isbad.all() or np.any(c2[isbad == isbad[k]] < c2[k] - 1e-6 * abs(c2[k])):
            ctx.bad('best fit', f'{what}: target {t}: chi2 {c2[k]} zwarn {zw[k]} is not the best of '
                                f'{c2.tolist()} {zw.tolist()}')
            return


def tables(ctx, case, what, out, per, tid):
    sp = case['files']
    fm, ex, ts, fst = [], [], [], []
    for f, F in enumerate(sp['files']):
        u = [t for t in dict.fromkeys(F['rows']) if t in per[f]]
        if sp['coadd']:
            fm += u
            full = [t for t in F['rows'] for _ in range(2)]
            ex += [(t, 5000 + i) for i, t in enumerate(full) if t in per[f]]
        else:
            fm += u
            ex += [(t, 1000 + i) for i, t in enumerate(F['rows']) if t in per[f]]
        ts += [(t, f) for t in u]
        fst += [D.STATUS[D.status(sp, f, t)][0] for t in u]
    F = out['2:FIBERMAP'][1]
    if list(F['TARGETID']) != [tid[t] for t in fm]:
        ctx.bad('fibermap', f'{what}: rows {list(F["TARGETID"])} instead of {[tid[t] for t in fm]}')
        return
    if not Z.close(F['TARGET_RA'], [10.0 + t for t in fm], 1e-6) or \
            list(F['COADD_FIBERSTATUS']) != fst:
        ctx.bad('fibermap', f'{what}: rows of other targets: {list(F["TARGET_RA"])}')
        return
    X = out['3:EXP_FIBERMAP'][1]
    if list(X['TARGETID']) != [tid[t] for t, _ in ex] or list(X['EXPID']) != [e for _, e in ex]:
        ctx.bad('fibermap', f'{what}: exposures {list(zip(X["TARGETID"], X["EXPID"]))} instead of '
                            f'{[(tid[t], e) for t, e in ex]}')
        return
    T = out['4:TSNR2'][1]
    if list(T['TARGETID']) != [tid[t] for t, _ in ts]:
        ctx.bad('scores', f'{what}: rows {list(T["TARGETID"])} instead of {[tid[t] for t, _ in ts]}')
        return
    if sp['coadd'] and 'TSNR2_ELG_B' in T:
        w = [1.0 + t + 0.1 * sp['files'][f]['rows'].index(t) for t, f in ts]
        if not Z.close(T['TSNR2_ELG_B'], np.array(w, dtype='f4'), 1e-6):
            ctx.bad('scores', f'{what}: {list(T["TSNR2_ELG_B"])} instead of {w}')


def scans(ctx, case, what, h):
    o = case['opts']
    if o.get('cosmics') or o.get('priors') or o.get('zscan'):
        return
    data, ids = c02.expect_desi(case)
    data = {t: [(b, w, fl, skymask(o, w, iv), R) for b, w, fl, iv, R in
                (lst if o.get('allspec') else c02.coadd(lst))] for t, lst in data.items()}
    Z.scan_check(ctx, what, h, data, W.make_templates(case['templates']), case['files']['key'])


def skymask(o, w, iv):
    if o.get('noskymask'):
        return iv
    return np.where(((w >= 5572) & (w <= 5582)) | ((w >= 9792) & (w <= 9795)), 0, iv)


def models(ctx, case, what, out, cat, order):
    """Row i of each band: the template of row i at its redshift through the target's resolution."""
    sp, o = case['files'], case['opts']
    arch = archetypes_of(case)
    tpl = {(t.template_type, t.sub_type): t for t in W.make_templates(case['templates'])}
    data, ids = c02.expect_desi(case)
    m = {h.split(':')[1][:-6].lower(): out['model'][h][1]['DATA'] for h in out['model'] if h.endswith('_MODEL')}
    wv = {h.split(':')[1][:-11].lower(): out['model'][h][1]['DATA'] for h in out['model']
          if h.endswith('_WAVELENGTH')}
    bands = {x[0] for v in data.values() for x in v}
    if set(m) != bands or set(wv) != bands:
        ctx.bad('model', f'{what}: bands {sorted(m)} instead of {sorted(bands)}')
        return
    for b in m:
        if m[b].shape != (len(order), len(wv[b])):
            ctx.bad('model', f'{what}: band {b} has shape {m[b].shape} for {len(order)} targets')
            return
    for i, t in enumerate(ids):
        lst = data[t] if o.get('allspec') else c02.coadd(data[t])
        if not chi2_of(ctx, o, what, cat, i, lst, arch):
            return
        for b in m:
            s = [x for x in lst if x[0] == b]
            got = m[b][i]
            if not s or not np.any(cat['COEFF'][i]):
                exp = np.zeros(len(wv[b]))
            elif str(cat['FITMETHOD'][i]).strip() == 'ARCH':
                order_b = sorted({x[0] for x in lst})
                exp = s[-1][4].dot(arch_model(arch, cat, i, s[-1][1], order_b.index(b)))
            else:
                tx = tpl[(str(cat['SPECTYPE'][i]).strip(), str(cat['SUBTYPE'][i]).strip())]
                exp = s[-1][4].dot(tx.eval(cat['COEFF'][i].astype(float), s[-1][1], cat['Z'][i]))
            g = np.ones(len(got), bool)
            if o.get('cosmics') and len(s):
                # rejection changes the resolution of the coadd where spectra are masked
                g[:] = False
            if not Z.close(got[g], exp[g], 1e-4, 1e-4 * max(1e-3, np.abs(exp).max())):
                # pixels without weight have no resolution
                g &= s[-1][3] != 0 if s else True
                if not Z.close(got[g], exp[g], 1e-4, 1e-4 * max(1e-3, np.abs(exp).max())):
                    ctx.bad('model', f'{what}: row {i} (target {t}) band {b}: '
                                     f'{E.first(got[g], exp[g], 1e-4, 1e-4)}')
                    return


def chi2_of(ctx, o, what, cat, i, lst, arch):
    """The chi2 of an archetype fit is that of its model and the spectra of its target.

    (That of template fits is the minimum of a parabola through the scan.)"""
    if o.get('cosmics') or str(cat['FITMETHOD'][i]).strip() != 'ARCH' or cat['ZWARN'][i] & (1 << 10) or \
            not np.any(cat['COEFF'][i]):
        return True
    c2, names, scale = 0.0, sorted({x[0] for x in lst}), 0.0
    for b, w, fl, iv, R in lst:
        m = R.dot(arch_model(arch, cat, i, w, names.index(b)))
        c2 += np.sum(skymask(o, w, iv) * (fl - m) ** 2)
        scale += np.sum(iv * (fl ** 2 + m ** 2))
    if not abs(c2 - cat['CHI2'][i]) <= 1e-4 * c2 + 1e-5 * scale:
        ctx.bad('chi2', f'{what}: row {i} (target {cat["TARGETID"][i]}) has chi2 {cat["CHI2"][i]}, '
                        f'its model {c2}')
        return False
    return True


def archetypes_of(case):
    """{spectype: (wave, {subtype: flux})} as written by the generator"""
    o = case['opts']
    if not o.get('arch'):
        return {}
    types = E.arch_types(case)
    return {st: W.archetype_arrays(st, o['akey'], j) for j, st in enumerate(types)}


def arch_model(arch, cat, i, wave, iband):
    """Archetypes plus Legendre polynomials of the band (coefficients are in order of band names)."""
    from redrock.igm import transmission_Lyman
    from redrock.rebin import trapz_rebin
    aw, fl, names = arch[str(cat['SPECTYPE'][i]).strip()]
    z = float(cat['Z'][i])
    m = np.zeros(len(wave))
    for st, c in zip(str(cat['SUBTYPE'][i]).strip().split(';'), cat['COEFF'][i].astype(float)):
        m += c * trapz_rebin((1 + z) * aw, fl[names.index(st)], wave) * \
            transmission_Lyman(z, wave, model='Inoue14')
    if 'LEGCOEFF' in cat and cat['LEGCOEFF'].size:
        leg = np.atleast_1d(cat['LEGCOEFF'][i]).astype(float)
        if leg.ndim > 1:
            leg = leg[iband]
        x = 2 * (wave - wave[0]) / (wave[-1] - wave[0]) - 1
        m += np.polynomial.legendre.legval(x, leg)
    return m


def shrink(case):
    if case.get('perm'):
        yield dict(case, perm=None)
    yield from Z.drop_faults(case)
    yield from c01.shrink_layouts(case)
    if len(case['layouts']) == 1:
        yield dict(case, layouts=[], faults=[])
    yield from E.shrink(case)
    if case.get('batch'):
        yield dict(case, batch=0)
