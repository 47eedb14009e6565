"""Small DESI spectra files, templates and results for demonstrations."""
import os
import tempfile
import warnings

import numpy as np
from astropy.io import fits
from astropy.table import Table

warnings.simplefilter('ignore')
EDGES = {'b': (3600., 5800.), 'r': (5760., 7620.), 'z': (7520., 9824.)}
NPIX = 60


def scratch():
    return tempfile.mkdtemp(prefix='rrdemo')


def flux(tid, band, exp=0, npix=NPIX):
    """flux that tells target, band and exposure apart"""
    r = np.random.default_rng([abs(int(tid)) % 2**31, ord(band), exp])
    w = np.linspace(*EDGES[band], npix)
    f = 5 + np.sin(w / 200. + tid % 7) + r.normal(size=npix) * 0.3
    return w, f.astype('f4'), np.full(npix, 10. + exp, dtype='f4')


def write(path, tids, bands='brz', coadd=True, npix=NPIX, status=None, objtype=None, mask=True):
    """tids: target of each row; exposures of a target are numbered in order"""
    n = len(tids)
    t = Table()
    t['TARGETID'] = np.array(tids, dtype='i8')
    t['COADD_FIBERSTATUS' if coadd else 'FIBERSTATUS'] = np.array(status if status is not None else [0] * n, dtype='i4')
    t['OBJTYPE'] = np.array(objtype if objtype is not None else ['TGT'] * n, dtype='S3')
    t['TARGET_RA'] = np.arange(n) + 10.
    t['TARGET_DEC'] = np.arange(n) - 5.
    t['FIBER'] = np.arange(n, dtype='i4')
    t['TILEID'] = np.full(n, 80, dtype='i4')
    t['DESI_TARGET'] = np.ones(n, dtype='i8')
    e = Table(t)
    if coadd:
        e.rename_column('COADD_FIBERSTATUS', 'FIBERSTATUS')
        t['COADD_NUMEXP'] = np.ones(n, dtype='i2')
    e['EXPID'] = np.arange(n, dtype='i4')
    e['NIGHT'] = np.full(n, 20210101, dtype='i4')
    e['MJD'] = np.arange(n) + 59000.
    e['EXPTIME'] = np.full(n, 900., dtype='f4')
    hx = fits.HDUList([fits.PrimaryHDU()])
    tabs = [('FIBERMAP', t), ('EXP_FIBERMAP', e)] if coadd else [('FIBERMAP', e)]
    for nm, tab in tabs:
        h = fits.convenience.table_to_hdu(tab)
        h.name = nm
        hx.append(h)
    exp = [list(tids[:i]).count(tids[i]) for i in range(n)]
    for b in bands:
        d = [flux(tids[i], b, exp[i], npix) for i in range(n)]
        res = np.zeros((n, 5, npix), dtype='f4')
        res[:] = np.array([0.05, 0.2, 0.5, 0.2, 0.05])[None, :, None]
        B = b.upper()
        hx.append(fits.ImageHDU(d[0][0], name=B + '_WAVELENGTH'))
        hx.append(fits.ImageHDU(np.array([x[1] for x in d]), name=B + '_FLUX'))
        hx.append(fits.ImageHDU(np.array([x[2] for x in d]), name=B + '_IVAR'))
        if mask:
            hx.append(fits.ImageHDU(np.zeros((n, npix), dtype='i4'), name=B + '_MASK'))
        hx.append(fits.ImageHDU(res, name=B + '_RESOLUTION'))
    s = Table()
    s['TARGETID'] = np.array(tids, dtype='i8')
    for c in ['', '_B', '_R', '_Z'] if coadd else ['_B', '_R', '_Z']:
        s['TSNR2_ELG' + c] = np.arange(n, dtype='f4') + 1
    h = fits.convenience.table_to_hdu(s)
    h.name = 'SCORES'
    hx.append(h)
    hx.writeto(path, overwrite=True)
    return path


def template(path, spectype='GALAXY', subtype='', z=np.linspace(0, 0.5, 21), nbasis=2):
    w = np.linspace(1000., 11000., 400)
    x = (w - 1000) / 10000
    f = np.array([1 + 0.5 * np.sin(2 * np.pi * x * (2 + i) + i) + 3 * np.exp(-(w - 4000 - 800 * i) ** 2 / 5000.) for i in range(nbasis)])
    h = fits.Header()
    h['CRVAL1'], h['CDELT1'], h['LOGLAM'] = w[0], w[1] - w[0], 0
    h['RRTYPE'], h['RRSUBTYP'], h['RRMETHOD'], h['RRIGM'], h['VERSION'] = spectype, subtype, 'PCA', 'None', '1.0'
    fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(f, header=h, name='BASIS_VECTORS'),
                  fits.ImageHDU(np.asarray(z), name='REDSHIFTS')]).writeto(path, overwrite=True)
    return path


def results(tids, version=0, nz=12, types=('GALAXY', 'STAR:::A'), nminima=2):
    """(zscan, zfit) as zfind returns them; the values tell targets and versions apart"""
    zscan, rows = {}, []
    for t in tids:
        zscan[t] = {}
        for k, ft in enumerate(types):
            r = np.random.default_rng([abs(int(t)) % 2**31, k, version])
            zscan[t][ft] = dict(redshifts=np.linspace(0, 1, nz), zchi2=1000. * (version + 1) + r.random(nz),
                                penalty=r.random(nz), zcoeff=r.random((nz, 2)))
        for m in range(nminima):
            sp, sub = (types[m % len(types)].split(':::') + [''])[:2]
            rows.append(dict(targetid=t, z=0.1 * m + version, zerr=1e-3, zwarn=0, chi2=100. + m + version, zz=np.zeros(3),
                             zzchi2=np.ones(3), coeff=np.array([1., 2.]), deltachi2=5., npixels=50, znum=m, ncoeff=2,
                             spectype=sp, subtype=sub, fitmethod='PCA'))
    return zscan, Table(rows)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)
