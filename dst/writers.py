"""The four writers of output files with generated contents, and what the files must hold."""
import os
import types

import numpy as np
from astropy.io import fits
from astropy.table import Table

from . import dengine as E, workloads as W

KINDS = ('details', 'catalog', 'model', 'zbest')
EXT = {'details': '.h5', 'catalog': '.fits', 'model': '.fits', 'zbest': '.fits'}


def gen(r, kind=None):
    k = kind or str(r.choice(KINDS))
    return dict(kind=k, n=int(r.choice([1, 2, 3, 7, 20] if k == 'details' else [1, 2, 5, 40, 300])),
                nz=int(r.choice([3, 9, 40])), key=int(r.integers(1, 10**6)),
                arch=bool(r.random() < 0.3), leg=int(r.choice([0, 2])), bands=str(r.choice(['b', 'brz'])),
                prio=bool(r.random() < 0.3), ids=str(r.choice(['plain', 'neg', 'big', 'sorted'])),
                sub=str(r.choice(['own', 'own', 'archetypes', 'nogal'])))


def zfit_table(r, ids, fulltypes, nz, leg):
    """A zfit table with several fits per target."""
    rows = []
    for t in ids:
        m = int(r.integers(1, 4))
        for k in range(m):
            st, sub = fulltypes[int(r.integers(len(fulltypes)))]
            rows.append((t, k, st, sub))
    n = len(rows)
    t = Table()
    t['targetid'] = np.array([x[0] for x in rows], dtype='i8')
    t['z'] = r.uniform(0, 2, n)
    t['zerr'] = r.uniform(1e-5, 1e-3, n)
    t['zwarn'] = r.integers(0, 4096, n)
    t['chi2'] = r.uniform(1, 1e5, n)
    t['coeff'] = r.normal(size=(n, 4))
    t['fitmethod'] = np.array(['PCA', 'NMF', 'ARCH'])[r.integers(0, 3, n)]
    t['npixels'] = r.integers(0, 8000, n)
    t['spectype'] = np.array([x[2] for x in rows])
    t['subtype'] = np.array([x[3] for x in rows])
    t['ncoeff'] = r.integers(1, 5, n)
    t['znum'] = np.array([x[1] for x in rows])
    t['deltachi2'] = r.uniform(0, 1e3, n)
    t['zz'] = r.uniform(0, 2, (n, 15))
    t['zzchi2'] = r.uniform(1, 1e5, (n, 15))
    if leg:
        t['legcoeff'] = r.normal(size=(n, leg))
    return t


def scan(r, ids, fulltypes, nz):
    from redrock.templates import make_fulltype
    out = {t: {} for t in ids}
    for st, sub in fulltypes:
        z = np.sort(r.uniform(0, 2, nz))
        nb = int(r.integers(1, 5))
        for t in ids:
            out[t][make_fulltype(st, sub)] = dict(
                redshifts=z, zchi2=r.uniform(1, 1e6, nz), penalty=r.uniform(0, 3, nz),
                zcoeff=r.normal(size=(nz, nb)))
    return out


def table(r, n, ids, cols):
    t = Table()
    t['TARGETID'] = np.array(ids, dtype='i8')[:n] if len(ids) >= n else np.resize(np.array(ids, 'i8'), n)
    for c in cols:
        t[c] = {'f': r.normal(size=n), 'i': r.integers(0, 10**6, n), 's': np.array(['A', 'BCD'])[
            r.integers(0, 2, n)], '2': r.normal(size=(n, 3))}[c[0].lower()]
    return t


class Version:
    """One content of an output file: write(path) and check(loaded)."""

    def __init__(self, spec):
        self.spec = spec
        r = W.rs(71, spec['key'])
        n = spec['n']
        self.kind = spec['kind']
        ri = W.rs(73, spec['idkey']) if 'idkey' in spec else r
        self.ids = [int(x) for x in 100 + ri.permutation(50 * n)[:n]]
        self.ids = {'neg': lambda: [-x if k % 2 else x for k, x in enumerate(self.ids)],
                    'big': lambda: [(1 << 62) + 3 * x for x in self.ids],
                    'sorted': lambda: sorted(self.ids)}.get(spec.get('ids'), lambda: self.ids)()
        types_ = [('GALAXY', ''), ('QSO', 'HIZ'), ('STAR', 'A')][:int(r.integers(1, 4))]
        if spec.get('sub') == 'nogal' and len(types_) > 1:
            types_ = types_[1:]
        fits_ = list(types_)
        if spec.get('sub') == 'archetypes':     # archetypes have names of their own
            fits_ = [(t, x) for t, _ in types_ for x in ('ELG_12', 'LRG_3')] + types_
        elif spec.get('sub') == 'nogal':        # fibres without data
            fits_ = types_ + [('GALAXY', '')]
        self.zfit = zfit_table(r, self.ids, fits_, spec['nz'], spec['leg'])
        if spec.get('sub') == 'archetypes':
            self.zfit['pca_spectype'] = self.zfit['spectype']
            self.zfit['pca_subtype'] = np.array(['', 'HIZ'])[r.integers(0, 2, len(self.zfit))]
        self.scan = scan(r, self.ids, types_, spec['nz']) if self.kind == 'details' else None
        best = self.zfit[self.zfit['znum'] == 0]
        best.remove_columns(['zz', 'zzchi2', 'znum'])
        for c in best.colnames:
            best.rename_column(c, c.upper())
        self.best = best
        if spec['leg'] == 0 and spec['nz'] == 3:
            best['SUBTYPE'] = best['SUBTYPE'].astype('U3')
        def tpl(st, sub):
            from redrock.templates import make_fulltype
            return types.SimpleNamespace(template_type=st, sub_type=sub, full_type=make_fulltype(st, sub),
                                         version=f'{spec["key"] % 9}.1', _version=f'{spec["key"] % 9}.1',
                                         filename=f'/a/b/t-{st}{sub}.fits')
        self.templates = [tpl(*x) for x in types_]
        self.arch = {st: tpl(st, '') for st in dict(types_)} if spec['arch'] else None
        self.fm = table(r, n, self.ids, ['F1', 'I1', 'S1'])
        self.ex = table(r, 2 * n, self.ids, ['F1', 'I1'])
        self.ts = table(r, n, self.ids, ['F_ELG', 'F_QSO'])
        self.hdr = fits.Header()
        self.hdr['SPGRP'] = 'healpix'
        self.hdr['HPXPIXEL'] = spec['key']
        self.sec = {'FIBERMAP': fits.Header([('MYKEY', spec['key'])])}
        npix = {1: 5, 2: 50, 5: 300, 40: 100}.get(n, 60)
        self.wave = {b: np.linspace(3600, 9800, npix) for b in spec['bands']}
        self.models = {b: r.normal(size=(n, npix)) for b in spec['bands']}

    def write(self, path, **kw):
        k = self.kind
        if k == 'details':
            from redrock.results import write_zscan
            write_zscan(path, self.scan, self.zfit, **dict(dict(clobber=True), **kw))
        elif k == 'catalog':
            from redrock.external.desi import write_zbest
            write_zbest(path, self.best.copy(), self.fm.copy(), self.ex.copy(), self.ts.copy(),
                        self.templates, archetypes=self.arch, spec_header=self.hdr,
                        secondary_headers=self.sec if self.spec['prio'] else None)
        elif k == 'model':
            from redrock.external.desi import write_bestmodel
            write_bestmodel(path, self.best.copy(), self.models, self.wave, self.templates,
                            self.arch, spec_header=self.hdr)
        else:
            from redrock.external.boss import write_zbest
            write_zbest(path, self.best.copy(), {t.full_type: t.version for t in self.templates},
                        None if self.arch is None else {k: t._version for k, t in self.arch.items()})

    # -- expected content
    def check(self, c):
        """c: as returned by dengine.load; None if it is exactly this version."""
        if self.kind == 'details':
            return self._details(c['h5'][1])
        hs = {k.split(':', 1)[1]: v for k, v in c.items()}
        want = {'catalog': {'PRIMARY', 'REDSHIFTS', 'FIBERMAP', 'EXP_FIBERMAP', 'TSNR2'},
                'model': {'PRIMARY', 'REDSHIFTS'} | {f'{b.upper()}_{x}' for b in self.wave
                                                    for x in ('WAVELENGTH', 'MODEL')},
                'zbest': {'PRIMARY', 'ZBEST'}}[self.kind]
        if set(hs) != want:
            return f'parts {sorted(hs)} instead of {sorted(want)}'
        tabs = {'catalog': {'REDSHIFTS': self.best, 'FIBERMAP': self.fm, 'EXP_FIBERMAP': self.ex,
                            'TSNR2': self.ts},
                'model': {'REDSHIFTS': self.best}, 'zbest': {'ZBEST': self.best}}[self.kind]
        for nm, t in tabs.items():
            d = same_table(hs[nm][1], t)
            if d:
                return f'{nm}: {d}'
        h = hs['PRIMARY'][0]
        for i, t in enumerate(self.templates):
            if (h.get(f'TEMNAM{i:02d}'), h.get(f'TEMVER{i:02d}')) != (t.full_type, t.version):
                return f'template {i} in the header: {h.get(f"TEMNAM{i:02d}")} {h.get(f"TEMVER{i:02d}")}'
        if self.kind == 'model':
            for b in self.wave:
                if not np.array_equal(hs[f'{b.upper()}_WAVELENGTH'][1]['DATA'], self.wave[b]):
                    return f'wavelengths of {b}'
                if not np.array_equal(hs[f'{b.upper()}_MODEL'][1]['DATA'], self.models[b].astype('f4')):
                    return f'models of {b}'
        if self.kind != 'zbest' and h.get('HPXPIXEL') != self.spec['key']:
            return 'header of the spectra'
        return None

    def _details(self, h):
        ids = [int(x) for x in self.best['TARGETID']]
        if [int(x) for x in h.get('targetids', [])] != ids:
            return f'targets {list(h.get("targetids", []))} instead of {ids}'
        d = same_table({k[6:]: v for k, v in h.items() if k.startswith('zbest/')},
                       self.zfit[self.zfit['znum'] == 0], drop=('znum',))
        if d:
            return f'zbest: {d}'
        fts = sorted({k.split('/')[1] for k in h if k.startswith('zscan/')})
        if fts != sorted(self.scan[ids[0]]):
            return f'scans {fts} instead of {sorted(self.scan[ids[0]])}'
        for ft in fts:
            for k in ('zchi2', 'penalty', 'zcoeff'):
                w = np.array([self.scan[t][ft][k] for t in ids]).astype('f4')
                g = h.get(f'zscan/{ft}/{k}')
                if g is None or not np.array_equal(g, w):
                    return f'{k} of {ft}'
            if not np.array_equal(h.get(f'zscan/{ft}/redshifts'), self.scan[ids[0]][ft]['redshifts']):
                return f'redshifts of {ft}'
        got = {k.split('/')[1] for k in h if k.startswith('zfit/')}
        if got != {str(t) for t in ids}:
            return f'fits of {sorted(got)} instead of {ids}'
        for t in ids:
            d = same_table({k.split('/')[3]: v for k, v in h.items() if k.startswith(f'zfit/{t}/zfit/')},
                           self.zfit[self.zfit['targetid'] == t])
            if d:
                return f'fits of {t}: {d}'
        return None


F4 = ('zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2', 'ZERR', 'CHI2', 'COEFF', 'DELTACHI2',
      'legcoeff', 'LEGCOEFF')


def same_table(cols, t, drop=()):
    """Stored columns against a table; single precision is allowed where documented."""
    names = [c for c in t.colnames if c not in drop]
    if set(cols) != set(names):
        return f'columns {sorted(set(cols) ^ set(names))}'
    for n in names:
        a, b = np.atleast_1d(cols[n]), np.asarray(t[n])
        if a.shape != b.shape:
            return f'{n}: shape {a.shape} instead of {b.shape}'
        if a.dtype.kind in 'SU':
            a = np.char.rstrip(np.char.decode(a, 'ascii') if a.dtype.kind == 'S' else a)
            if list(a) != [str(x).rstrip() for x in b]:
                return f'{n}: {list(a)} instead of {list(b)}'
        elif a.dtype.kind in 'iub':
            if not np.array_equal(a, b):
                return f'{n}: {E.first(a, b)}'
        elif not np.array_equal(a, b) and not (n in F4 and np.array_equal(a.astype('f4'), b.astype('f4'))):
            return f'{n}: {E.first(a, b)}'
    return None


def identify(path, versions):
    """'absent', index of the version the file holds, or a string saying what is wrong."""
    if not os.path.lexists(path):
        return 'absent'
    c = E.try_load(path)
    if isinstance(c, str):
        return c
    why = []
    for i, v in enumerate(versions):
        d = v.check(c)
        if d is None:
            return i
        why.append(d)
    return 'neither version: ' + ' / '.join(why)
