"""Generated DESI spectra/coadd files and BOSS spPlate files.

The description of a file set is a small JSON object; row arrays are functions
of (key, file, row), so that oracles can rebuild every stored value without
going through redrock.
"""
import os

import numpy as np
from astropy.io import fits
from astropy.table import Table

from . import workloads as W

STATUS = {          # name -> (FIBERSTATUS, OBJTYPE)
    'ok': (0, 'TGT'), 'sky': (0, 'SKY'), 'poor': (1 << 10, 'TGT'), 'badpos': (1 << 9, 'TGT'),
    'broken': (1 << 2, 'TGT'), 'unassigned': (1 << 0, 'TGT'), 'badtype': (0, 'BAD'),
    'amp': (1 << 22, 'TGT'), 'minor': (1 << 8 | 1 << 16, 'TGT'),
    'poorsky': (1 << 10 | 1 << 24, 'SKY'),
}
NDIAG = 5


def gen(r, nmax=6, multi=0.5):
    """Random description of a set of files."""
    n = W.number(r, nmax)
    coadd = bool(r.random() < 0.5)
    nf = 1 if r.random() > multi else int(r.choice([2, 2, 3]))
    key = int(r.integers(1, 10**6))
    bands = str(r.choice(['b', 'br', 'brz', 'brz']))
    order = [int(x) for x in r.permutation(n)]
    files = []
    for f in range(nf):
        if f == 0:
            rows = list(order) if nf == 1 or r.random() < 0.5 else \
                [t for t in order if r.random() < 0.7] or [order[0]]
        else:
            rows = [int(t) for t in r.permutation(n) if r.random() < 0.6] or [int(r.integers(n))]
        if not coadd:
            extra = []
            for t in rows:
                extra += [t] * int(r.choice([0, 0, 1, 2]))
            rows = rows + extra
            if r.random() < 0.6:
                rows = [rows[i] for i in r.permutation(len(rows))]
        fb = bands
        if f > 0 and len(bands) > 1 and r.random() < 0.25:
            fb = bands[:-1]
        if len(fb) > 1 and r.random() < 0.15:       # extensions in another order
            fb = ''.join(str(x) for x in r.permutation(list(fb)))
        files.append(dict(rows=[int(x) for x in rows], bands=fb))
    used = sorted({t for f in files for t in f['rows']})
    m = {t: i for i, t in enumerate(used)}
    for f in files:
        f['rows'] = [m[t] for t in f['rows']]
    n = len(used)
    nomask = []             # files or bands without a MASK extension
    if r.random() < 0.3:
        nomask = [int(f) for f in range(nf) if r.random() < 0.5]
    elif r.random() < 0.15:
        nomask = [str(r.choice(list(bands)))]
    # file names: numbered, in reverse alphabetical order, or alike in several directories
    names = str(r.choice(['num', 'num', 'rev', 'same']))
    return dict(n=n, key=key, coadd=coadd, files=files, names=names, nomask=nomask, npix=int(r.choice([30, 40, 50])),
                kinds=[str(x) for x in r.choice(['ok'] * 7 + ['zero', 'nan', 'neg', 'noise'], n)],
                status=[str(x) for x in r.choice(['ok'] * 8 + list(STATUS), n)],
                mask=bool(r.random() < 0.5),
                # the columns of a coadded fibermap depend on the number of tiles: all files alike
                onetile=bool(r.random() < 0.5) or any(len(f['rows']) < 2 for f in files),
                dead=[int(x) for x in r.integers(0, 3, n)] if r.random() < 0.3 else None,
                ids=str(r.choice(['rand', 'rand', 'seq', 'rev', 'big', 'neg'])),
                # targets with another fibre status in some of the files
                fstatus={f'{f},{t}': str(r.choice(['ok'] + list(STATUS))) for f in range(nf) for t in range(n)
                         if r.random() < 0.3} if nf > 1 and r.random() < 0.4 else {})


def status(spec, f, t):
    """Name of the fibre status of target t in file f."""
    return (spec.get('fstatus') or {}).get(f'{f},{t}', spec['status'][t])


def ids(spec):
    return W.ids_for(spec['ids'], spec['n'], spec['key'])


def appearance(spec):
    """Target indices in order of first appearance over the files."""
    out = []
    for f in spec['files']:
        for t in f['rows']:
            if t not in out:
                out.append(t)
    return out


def permuted(spec, key):
    """The same files with the rows of each in another order; the spectra of one target keep theirs."""
    r = W.rs(61, key)
    files = []
    for f in spec['files']:
        n = len(f['rows'])
        p = [int(x) for x in r.permutation(n)]
        rows = [f['rows'][x] for x in p]
        src = [None] * n
        for t in set(rows):
            for a, b in zip([k for k in range(n) if rows[k] == t],
                            [k for k in range(n) if f['rows'][k] == t]):
                src[a] = b
        files.append(dict(f, rows=rows, src=src))
    return dict(spec, files=files)


def has_mask(spec, f, band):
    nm = spec.get('nomask') or []
    return spec['mask'] and f not in nm and band not in nm


def row(spec, f, i, band):
    """Stored (wave, flux, ivar, mask, resolution) of row i of file f, float32 as written."""
    F = spec['files'][f]
    t = F['rows'][i]
    same = F['rows'][:i].count(t)       # earlier spectra of the target in this file
    if F.get('src'):
        i = F['src'][i]         # permuted rows keep their data
    w, fl, iv = W.spectrum_arrays(spec.get('dkey', spec['key']), t, band, 100 * f + i, spec['npix'])
    kind = spec['kinds'][t]
    r = W.rs(37, spec['key'], f, i, ord(band))
    if kind == 'zero':
        iv[:] = 0
    elif kind == 'nan':
        fl[r.integers(len(fl))] = np.nan
        fl[r.integers(len(fl))] = -np.inf
        iv[r.integers(len(fl))] = np.inf
    elif kind == 'neg':
        for k in r.integers(0, len(fl), 3):
            fl[k] = -abs(fl[k]) * 50
    if spec.get('dead') and same == spec['dead'][t]:
        iv[:] = 0           # one exposure without valid data
    if kind == 'noise':
        fl = r.normal(size=len(fl)) / np.sqrt(np.maximum(iv, 1e-3))
    mask = np.zeros(len(w), dtype=np.int32)
    mask[r.random(len(w)) < 0.05] = 4
    data, _ = W.res_rows(len(w), NDIAG, 0.9 + 0.05 * ((7 * t + 3 * i + f) % 9))
    return w, fl.astype('f4'), iv.astype('f4'), mask, data.astype('f4')


def read_row(spec, f, i, band, nsig=5):
    """What the reader has to make of a row: float64 wave, flux, ivar, resolution data."""
    w, fl, iv, mask, res = row(spec, f, i, band)
    bad = ~np.isfinite(fl)
    fl = np.where(bad, 0, fl).astype(np.float64)
    iv = np.where(np.isfinite(iv) & ~bad, iv, 0).astype(np.float64)
    iv[fl * np.sqrt(iv) < -nsig] = 0
    if has_mask(spec, f, band):
        iv = iv * (mask == 0)
    return w, fl, iv, res.astype(np.float64)


def fibermap(spec, f):
    tid = ids(spec)
    rows = spec['files'][f]['rows']
    t = Table()
    n = len(rows)
    t['TARGETID'] = np.array([tid[x] for x in rows], dtype='i8')
    t['FIBERSTATUS'] = np.array([STATUS[status(spec, f, x)][0] for x in rows], dtype='i4')
    t['OBJTYPE'] = np.array([STATUS[status(spec, f, x)][1] for x in rows], dtype='S3')
    t['TARGET_RA'] = np.array([10.0 + x for x in rows])
    t['TARGET_DEC'] = np.array([-5.0 + x for x in rows])
    t['FIBER'] = np.array([20 + x for x in rows], dtype='i4')
    t['TILEID'] = np.array([80 if spec['onetile'] else 80 + (i % 2) for i in range(n)], dtype='i4')
    t['EXPID'] = np.array([1000 + i for i in range(n)], dtype='i4')
    t['NIGHT'] = np.array([20210101 + (i % 3) for i in range(n)], dtype='i4')
    t['MJD'] = np.array([59000.0 + i for i in range(n)])
    t['EXPTIME'] = np.full(n, 900.0, dtype='f4')
    t['DESI_TARGET'] = np.array([1 << (x % 5) for x in rows], dtype='i8')
    return t


def scores(spec, f):
    tid = ids(spec)
    rows = spec['files'][f]['rows']
    s = Table()
    s['TARGETID'] = np.array([tid[x] for x in rows], dtype='i8')
    for b in 'BRZ':
        s['TSNR2_ELG_' + b] = np.array([1.0 + x + 0.1 * i for i, x in enumerate(rows)], dtype='f4')
    if spec['coadd']:
        s['TSNR2_ELG'] = sum(np.asarray(s['TSNR2_ELG_' + b]) for b in 'BRZ').astype('f4')
    s['SUM_RAW_COUNT_B'] = np.array([100.0 + x for x in rows])
    return s


def write(spec, d, prefix=None):
    """Write the files; returns their paths."""
    prefix = prefix or ('coadd' if spec['coadd'] else 'spectra')
    out = []
    for f in range(len(spec['files'])):
        p = os.path.join(d, filename(spec, f, prefix))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write_one(spec, f, p)
        out.append(p)
    return out


def filename(spec, f, prefix):
    nm = spec.get('names', 'num')
    if nm == 'rev':
        return f'{prefix}-{9 - f}.fits'
    if nm == 'same':
        return f'd{f}/{prefix}-0.fits'
    return f'{prefix}-{f}.fits'


def write_one(spec, f, path):
    fm = fibermap(spec, f)
    rows = spec['files'][f]['rows']
    hx = fits.HDUList([fits.PrimaryHDU()])
    hx[0].header['SPGRP'] = 'healpix'
    hx[0].header['SPGRPVAL'] = 17
    hx[0].header['HPXPIXEL'] = 17 + f + spec.get('hv', 0)
    if spec['coadd']:
        c = Table(fm)
        c.rename_column('FIBERSTATUS', 'COADD_FIBERSTATUS')
        c.remove_columns(['EXPID', 'NIGHT', 'MJD', 'EXPTIME'])
        c['COADD_NUMEXP'] = np.ones(len(c), dtype='i2')
        e = Table(fm)
        # two exposures per target in the exposure map
        e = e[np.repeat(np.arange(len(e)), 2)]
        e['EXPID'] = 5000 + np.arange(len(e), dtype='i4')
        tabs = [('FIBERMAP', c), ('EXP_FIBERMAP', e)]
    else:
        tabs = [('FIBERMAP', fm)]
    for nm, t in tabs:
        h = fits.convenience.table_to_hdu(t)
        h.name = nm
        h.header['ORIGIN_' + nm[:1]] = f
        hx.append(h)
    for b in spec['files'][f]['bands']:
        B = b.upper()
        data = [row(spec, f, i, b) for i in range(len(rows))]
        hx.append(fits.ImageHDU(data[0][0], name=f'{B}_WAVELENGTH'))
        hx.append(fits.ImageHDU(np.array([x[1] for x in data]), name=f'{B}_FLUX'))
        hx.append(fits.ImageHDU(np.array([x[2] for x in data]), name=f'{B}_IVAR'))
        if has_mask(spec, f, b):
            hx.append(fits.ImageHDU(np.array([x[3] for x in data]), name=f'{B}_MASK'))
        hx.append(fits.ImageHDU(np.array([x[4] for x in data]), name=f'{B}_RESOLUTION'))
    h = fits.convenience.table_to_hdu(scores(spec, f))
    h.name = 'SCORES'
    hx.append(h)
    hx.writeto(path, overwrite=True)


# -- BOSS -----------------------------------------------------------------------------

def gen_boss(r, nmax=5):
    c = dict(n=int(r.integers(1, nmax + 1)), key=int(r.integers(1, 10**6)),
             plate=int(r.integers(3000, 9999)), mjd=int(r.integers(55000, 58000)),
             npix=int(r.choice([40, 55])), mask=bool(r.random() < 0.5),
             multi=bool(r.random() < 0.35))
    if r.random() < 0.3:
        # individual exposures: number of them per camera (None: no such keyword), targets of the
        # second spectrograph, wavelength grids that differ between exposures
        f = dict(n2=int(r.integers(0, c['n'] + 1)), jit=bool(r.random() < 0.4),
                 nexp=[[[None, 0, 1, 1, 2][int(r.integers(5))] for _ in range(4)]
                       for _ in range(2)])
        for x in f['nexp']:
            for k in (0, 2):
                if not (x[k] or x[k + 1]):
                    x[k] = 1
        c['frames'] = f
    return c


def boss_fibers(spec):
    n2 = spec['frames']['n2'] if spec.get('frames') else 0
    n2 = min(n2, spec['n'])
    n1 = spec['n'] - n2
    return [i + 1 for i in range(n1)] + [501 + i for i in range(n2)]


def boss_ids(spec):
    if spec['multi']:
        return [int(x) for x in 100 + W.rs(41, spec['key']).permutation(10 * spec['n'])[:spec['n']]]
    return [spec['plate'] * 1000000000 + spec['mjd'] * 10000 + f for f in boss_fibers(spec)]


def boss_exposures(spec, p):
    """(camera, file name) of the exposures of plate p"""
    out = []
    for cam, k in zip(('b1', 'r1', 'b2', 'r2'), spec['frames']['nexp'][p]):
        for j in range(k or 0):
            out.append((cam, f'{cam}-{100000 * (p + 1) + len(out):08d}'))
    return out


def boss_rows(spec, p):
    """Target index of each fibre of plate p."""
    if p == 0:
        return list(range(spec['n']))
    return [int(x) for x in W.rs(43, spec['key'], p).permutation(spec['n'])]


def write_boss(spec, d):
    out = []
    for p in range(2 if spec['multi'] else 1):
        rows = boss_rows(spec, p)
        n, npix = len(rows), spec['npix']
        c0, c1 = np.log10(3300.), (np.log10(10400.) - np.log10(3300.)) / npix
        wave = 10 ** (c0 + c1 * np.arange(npix))
        fl, iv, am, wd = [], [], [], []
        for t in rows:
            r = W.rs(47, spec.get('dkey', spec['key']), t, p)
            rt = W.rs(53, spec.get('dkey', spec['key']), t)
            cont = rt.uniform(1, 4) * (1 + 0.5 * np.sin(wave / rt.uniform(300, 900)))
            for _ in range(4):
                cont = cont + rt.uniform(0, 8) * np.exp(-(wave - rt.uniform(3600, 9000)) ** 2 / 2e4)
            sg = cont.mean() * 0.2 * r.uniform(0.7, 1.3, npix)
            fl.append(cont + sg * r.normal(size=npix))
            iv.append(1 / sg ** 2)
            am.append((r.random(npix) < 0.05).astype(np.int32))
            wd.append(r.uniform(0.9, 1.2) + r.uniform(0, 0.2) * np.linspace(0, 1, npix))
        h = fits.Header()
        h['PLATEID'], h['MJD'] = spec['plate'] + p, spec['mjd'] + p
        h['COEFF0'], h['COEFF1'] = c0, c1
        if spec.get('frames'):
            for cam, k in zip(('B1', 'R1', 'B2', 'R2'), spec['frames']['nexp'][p]):
                if k is not None:
                    h[f'NEXP_{cam}'] = k
            for j, (cam, name) in enumerate(boss_exposures(spec, p)):
                h[f'EXPID{j + 1:02d}'] = f'{name}-00000000-00000000'
                write_frame(spec, p, j, cam, os.path.join(d, f'spCFrame-{name}.fits'))
        z = np.zeros((n, npix), dtype='i4')
        t = Table()
        t['FIBERID'] = np.arange(1, n + 1, dtype='i4')
        hx = fits.HDUList([fits.PrimaryHDU(np.array(fl, dtype='f4'), header=h),
                           fits.ImageHDU(np.array(iv, dtype='f4')), fits.ImageHDU(np.array(am)),
                           fits.ImageHDU(z), fits.ImageHDU(np.array(wd, dtype='f4')),
                           fits.convenience.table_to_hdu(t)])
        path = os.path.join(d, f'spPlate-{spec["plate"] + p}-{spec["mjd"] + p}.fits')
        hx.writeto(path, overwrite=True)
        out.append(path)
        if spec['multi']:
            q = Table()
            tid = boss_ids(spec)
            fib = boss_fibers(spec)
            q['THING_ID'] = np.zeros(max(fib), dtype='i4')
            for f, x in zip(fib, rows):
                q['THING_ID'][f - 1] = tid[x]
            fits.HDUList([fits.PrimaryHDU(), fits.convenience.table_to_hdu(q)]).writeto(
                path.replace('spPlate', 'photoPosPlate'), overwrite=True)
    return out


def write_frame(spec, p, j, cam, path):
    """One exposure of one camera, with its own wavelength grid and noise"""
    rows, fib, npix = boss_rows(spec, p), boss_fibers(spec), spec['npix']
    sel = [(f, t) for f, t in zip(fib, rows) if (f > 500) == (cam[1] == '2')]
    lo, hi = (3400., 6300.) if cam[0] == 'b' else (5300., 10400.)
    if spec['frames']['jit']:
        lo, hi = lo + 3 * j, hi + 2 * j
    la = np.linspace(np.log10(lo), np.log10(hi), npix)
    wave = 10 ** la
    fl, iv, am, wd = [], [], [], []
    for f, t in sel:
        r = W.rs(59, spec['key'], t, p, j)
        rt = W.rs(53, spec['key'], t)
        cont = rt.uniform(1, 4) * (1 + 0.5 * np.sin(wave / rt.uniform(300, 900)))
        for _ in range(4):
            cont = cont + rt.uniform(0, 8) * np.exp(-(wave - rt.uniform(3600, 9000)) ** 2 / 2e4)
        sg = cont.mean() * 0.2 * r.uniform(0.7, 1.3, npix)
        fl.append(cont + sg * r.normal(size=npix))
        iv.append(1 / sg ** 2)
        am.append((r.random(npix) < 0.05).astype(np.int32))
        wd.append(r.uniform(0.9, 1.2) + r.uniform(0, 0.2) * np.linspace(0, 1, npix))
    n = len(sel)
    if n == 0:          # a camera without targets of the sample: one empty fibre
        fl, iv, am, wd = [np.zeros((1, npix))] * 4
    h = fits.Header()
    h['PLATEID'], h['MJD'], h['CAMERAS'] = spec['plate'] + p, spec['mjd'] + p, cam
    t = Table()
    t['FIBERID'] = np.array([f for f, _ in sel], dtype='i4')
    fits.HDUList([fits.PrimaryHDU(np.array(fl, dtype='f4'), header=h),
                  fits.ImageHDU(np.array(iv, dtype='f4')), fits.ImageHDU(np.array(am, dtype='i4')),
                  fits.ImageHDU(np.broadcast_to(la, (max(n, 1), npix)).copy()),
                  fits.ImageHDU(np.array(wd, dtype='f4')),
                  fits.convenience.table_to_hdu(t)]).writeto(path, overwrite=True)
