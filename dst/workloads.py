"""Seeded generation of templates, targets, archetypes, priors and DESI/BOSS files.

Everything is derived from the integers in a case description, so that a case
is a small JSON object.
"""
import contextlib
import io
import os

import numpy as np
import scipy.sparse
from astropy.io import fits
from astropy.table import Table


def rs(*key):
    """Independent numpy generator for a tuple of ints."""
    return np.random.default_rng([int(k) & 0x7fffffff for k in key])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# -- resolution and wavelength grids ---------------------------------------------

def res_rows(n, ndiag, sigma):
    """DESI-style (ndiag, n) resolution data."""
    off = np.arange(ndiag // 2, -(ndiag // 2) - 1, -1)
    y = np.exp(-off ** 2 / (2.0 * sigma ** 2))
    y /= y.sum()
    return np.repeat(y[:, None], n, axis=1), off


def dia(n, sigma, ndiag=5):
    data, off = res_rows(n, ndiag, sigma)
    return scipy.sparse.dia_matrix((data, off), shape=(n, n))


GRIDS = {  # name -> (wmin, wmax)
    'b': (3600., 5800.), 'r': (5760., 7620.), 'z': (7520., 9824.),
}


def grid(band, npix):
    a, b = GRIDS[band]
    return np.linspace(a, b, npix)


# -- templates -------------------------------------------------------------------

def template_arrays(key, spectype, nbasis, nz, zlo, zhi, method='PCA'):
    r = rs(11, key)
    n = 260
    wave = np.linspace(928., 11000., n)         # one pixel in the [OII] line
    x = (wave - wave[0]) / (wave[-1] - wave[0])
    flux = np.zeros((nbasis, n))
    for i in range(nbasis):
        f = 0.4 * np.sin(2 * np.pi * (x * (1.5 + i) + r.uniform()))
        for _ in range(4):
            c, w = r.uniform(2000, 8000), r.uniform(30, 90)
            f = f + r.uniform(0.5, 3) * np.exp(-(wave - c) ** 2 / (2 * w ** 2))
        if method == 'NMF':
            f = np.abs(f)
        flux[i] = f
    flux[0] += 1.0
    if spectype == 'GALAXY' and method == 'PCA':    # penalties for negative [OII] in part of the fits
        flux[:, (3724 <= wave) & (wave <= 3733)] += rs(12, key).normal(0, 3, size=(nbasis, 1))
    z = np.linspace(zlo, zhi, nz)
    return wave, flux, z


TYPES = [('GALAXY', ''), ('QSO', 'LOZ'), ('QSO', 'HIZ'), ('STAR', 'A'), ('STAR', 'M'), ('STAR', 'WD'),
         ('GALAXY', 'X')]
ZR = {'GALAXY': (0.0, 1.0), 'QSO': (0.3, 2.4), 'STAR': (-0.002, 0.002)}


def make_templates(spec):
    """spec: list of dicts {t: index in TYPES, nb, nz, k, m}"""
    from redrock.templates import Template
    out = []
    with quiet():
        for s in spec:
            st, sub = TYPES[s['t']]
            lo, hi = ZR[st]
            wave, flux, z = template_arrays(s['k'], st, s['nb'], s['nz'], lo, hi, s.get('m', 'PCA'))
            t = Template(spectype=st, subtype=sub, redshifts=z, wave=wave, flux=flux,
                         method=s.get('m', 'PCA'), igm_model='Inoue14' if st != 'STAR' else 'None',
                         version='1.0')
            out.append(t)
    return out


def write_template_file(path, s, old=False):
    """old: without redshifts, as templates once were"""
    st, sub = TYPES[s['t']]
    lo, hi = ZR[st]
    wave, flux, z = template_arrays(s['k'], st, s['nb'], s['nz'], lo, hi, s.get('m', 'PCA'))
    h = fits.Header()
    h['CRVAL1'] = wave[0]
    h['CDELT1'] = wave[1] - wave[0]
    h['LOGLAM'] = 0
    h['RRTYPE'] = st
    h['RRSUBTYP'] = sub
    h['RRMETHOD'] = s.get('m', 'PCA')
    h['RRIGM'] = 'Inoue14' if st != 'STAR' else 'None'
    h['VERSION'] = s.get('v', '1.0')
    hx = fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(flux, header=h, name='BASIS_VECTORS')])
    if not old:
        hx.append(fits.ImageHDU(z, name='REDSHIFTS'))
    hx.writeto(path, overwrite=True)


def zscan_args(specs):
    """Options with redshift ranges for templates without redshifts"""
    a = []
    for st in sorted({TYPES[s['t']][0] for s in specs}):
        lo, hi = ZR[st]
        n = max(s['nz'] for s in specs if TYPES[s['t']][0] == st)
        if st == 'STAR':
            dz = (hi - lo) / (n - 0.5)
        else:
            dz = np.log10((1 + hi) / (1 + lo)) / (n - 0.5)
        a.append(f'--zscan-{st.lower()}={lo},{hi},{dz:.8f}')
    return a


def write_template_dir(d, specs, old=False):
    os.makedirs(d, exist_ok=True)
    names = []
    for s in specs:
        st, sub = TYPES[s['t']]
        nm = f'rrtemplate-{st}-{sub or "None"}-v1.0.fits'
        write_template_file(os.path.join(d, nm), s, old)
        names.append(nm)
    with open(os.path.join(d, 'templates-default.txt'), 'w') as f:
        f.write('# default\n' + '\n'.join(names) + '\n')
    return d


def gen_templates(r, n=None, nzmax=40):
    """Random template spec list; types unique."""
    n = n or int(r.choice([1, 2, 2, 3, 3, 4]))
    idx = [int(i) for i in r.permutation(len(TYPES) - (0 if n > 4 else 1))[:n]]
    out = []
    for i in idx:
        nz = int(r.choice([6, 9, 13, 20, 29, nzmax]))
        out.append(dict(t=i, nb=int(r.integers(1, 5)), nz=nz, k=int(r.integers(1, 10**6)),
                        m='NMF' if r.random() < 0.2 else 'PCA'))
    return out


# -- archetypes and priors ----------------------------------------------------------

ARCHNAMES = ['ELG', 'LRG', 'BGS', 'QQ', 'A', 'B']


def archetype_arrays(st, key, j, narch=4):
    """wave, flux and names (as redrock makes them) of the archetypes of one type"""
    wave, flux, _ = template_arrays(key + 77 + j, st, narch, 5, 0, 1)
    w = wave[0] + (wave[1] - wave[0]) * np.arange(len(wave))
    return w, np.abs(flux) + 0.2, [f'{x}_{i}' for i, x in enumerate(ARCHNAMES[:narch])]


def write_archetypes(d, spectypes, key, narch=4, version='0.1'):
    os.makedirs(d, exist_ok=True)
    for j, st in enumerate(spectypes):
        wave, flux, _ = archetype_arrays(st, key, j, narch)
        # archetype code requires the same grid conventions as templates
        t = Table()
        t['ARCHETYPE'] = flux
        t['SUBTYPE'] = np.array(ARCHNAMES[:narch], dtype='S5')
        t.meta['EXTNAME'] = 'ARCHETYPES'
        hdu = fits.convenience.table_to_hdu(t)
        hdu.header['RRTYPE'] = st
        hdu.header['VERSION'] = version
        hdu.header['CRVAL1'] = wave[0]
        hdu.header['CDELT1'] = wave[1] - wave[0]
        hdu.header['LOGLAM'] = 0
        fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(
            os.path.join(d, f'rrarchetype-{st.lower()}.fits'), overwrite=True)
    return d


def write_priors(path, ids, key, func):
    r = rs(17, key)
    t = Table()
    t['TARGETID'] = np.array(ids)
    t['Z'] = r.uniform(0.1, 1.0, len(ids))
    t['SIGMA'] = r.uniform(0.05, 0.4, len(ids))
    if func == 'tophat':        # wide enough to leave some redshifts of a GALAXY template
        t['Z'] = r.uniform(0.35, 0.65, len(ids))
        t['SIGMA'] = r.uniform(1.0, 1.5, len(ids))
    t['FUNCTION'] = np.array([func] * len(ids), dtype='S12')
    t.meta['EXTNAME'] = 'PRIORS'
    fits.HDUList([fits.PrimaryHDU(), fits.convenience.table_to_hdu(t)]).writeto(path, overwrite=True)


# -- in-memory targets -----------------------------------------------------------------

def spectrum_arrays(key, tidx, band, ispec, npix, sn=4.0):
    """flux and ivar of one spectrum"""
    r = rs(19, key, tidx, ord(band), ispec)
    rt = rs(23, key, tidx)
    w = grid(band, npix)
    z = rt.uniform(0, 0.9)
    cont = rt.uniform(1, 4) * (1 + 0.5 * np.sin(w / rt.uniform(300, 900)))
    for _ in range(5):
        c = rt.uniform(3000, 8000) * (1 + z)
        cont = cont + rt.uniform(0, 8) * np.exp(-(w - c) ** 2 / (2 * 40. ** 2))
    sig = r.uniform(0.6, 1.4, npix) * cont.mean() / sn
    flux = cont + r.normal(size=npix) * sig
    ivar = 1 / sig ** 2
    ivar[r.random(npix) < 0.04] = 0
    return w, flux, ivar


# targetid schemes
def ids_for(scheme, n, key):
    r = rs(29, key)
    if scheme == 'seq':
        return [int(x) for x in 1000 + np.arange(n)]
    if scheme == 'rev':
        return [int(x) for x in 1000 + np.arange(n)[::-1]]
    if scheme == 'big':
        return [int(x) for x in 39627000000000000 + r.permutation(10 * n)[:n] * 1000003]
    if scheme == 'neg':
        return [int(x) for x in (r.permutation(10 * n)[:n] - 5 * n)]
    if scheme == 'str':
        return [f'obj{int(x):03d}' for x in r.permutation(10 * n)[:n]]
    return [int(x) for x in r.permutation(100 * n)[:n] + 1]


def number(r, nmax):
    """A number up to nmax, or in the range nmax (the few large cases)."""
    lo, hi = nmax if isinstance(nmax, tuple) else (1, nmax)
    return int(r.integers(lo, hi + 1))


def gen_targets(r, nmax=7):
    n = number(r, nmax)
    bands = str(r.choice(['b', 'br', 'brz']))
    nspec = [int(x) for x in r.choice([1, 1, 2, 3, 4], n)]
    if r.random() < 0.3:
        nspec = [1] * n
    kinds = [str(x) for x in r.choice(['ok', 'ok', 'ok', 'ok', 'ok', 'zero', 'few', 'noise'], n)]
    lack, grids = {}, {}
    if n > 1 and len(bands) > 1 and r.random() < 0.2:       # some targets lack a band
        for i in range(n):
            if r.random() < 0.4:
                lack[str(i)] = str(r.choice(list(bands)))
    if n > 1 and r.random() < 0.12:         # some targets have their own wavelength grid
        for i in range(n):
            if r.random() < 0.4:
                grids[str(i)] = int(r.choice([33, 47]))
    return dict(n=n, key=int(r.integers(1, 10**6)), bands=bands, lack=lack, grids=grids,
                npix=int(r.choice([30, 40, 55])), nspec=nspec, kinds=kinds,
                ids=str(r.choice(['rand', 'rand', 'seq', 'rev', 'big', 'neg', 'str'])),
                meta=bool(r.random() < 0.3), coadd=bool(r.random() < 0.25),
                rcsr=bool(r.random() < 0.5), named=bool(r.random() < 0.7) and not grids)


def make_targets(spec, only=None):
    """List of Target objects (all, or only the given indices)."""
    from redrock.targets import Target, Spectrum
    ids = ids_for(spec['ids'], spec['n'], spec['key'])
    out = []
    for i in range(spec['n']):
        if only is not None and i not in only:
            continue
        sp = []
        npix = spec.get('grids', {}).get(str(i), spec['npix'])
        for band in spec['bands']:
            if band == spec.get('lack', {}).get(str(i)):
                continue
            for j in range(spec['nspec'][i]):
                w, f, iv = spectrum_arrays(spec['key'], i, band, j, npix)
                kind = spec['kinds'][i]
                if kind == 'zero':
                    iv[:] = 0
                elif kind == 'few':
                    iv[6:] = 0
                elif kind == 'noise':
                    f = rs(31, spec['key'], i, j).normal(size=len(f))
                R = dia(len(w), 1.0 + 0.1 * (i % 4))
                sp.append(Spectrum(w, f, iv, R, R.tocsr() if spec.get('rcsr') else None,
                                   band=band if spec.get('named', True) else None))
        meta = None
        if spec.get('meta'):
            meta = {'BRICKNAME': f'br-{ids[i]}'[-8:], 'BRICKNAME_datatype': 'S8',
                    'MAG': 15.0 + i}
        out.append(Target(ids[i], sp, coadd=spec.get('coadd', False), meta=meta))
    return out


def warm():
    """Compile numba code and import what the checks use."""
    import redrock.external.desi      # noqa
    import redrock.external.boss      # noqa
    from . import zengine as Z
    spec = dict(n=2, key=5, bands='brz', npix=40, nspec=[1, 1], kinds=['ok', 'ok'], ids='seq',
                meta=False, coadd=False, rcsr=True)
    for m in ('PCA', 'NMF'):
        t = make_templates([dict(t=0, nb=2, nz=9, k=3, m=m), dict(t=3, nb=2, nz=9, k=3, m=m)])
        Z.serial(make_targets(spec), t)
