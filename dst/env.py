"""Process environment for all checks: deterministic, single-threaded numerics."""
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

FIXED = {
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'NUMBA_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
    'MPLBACKEND': 'Agg', 'HDF5_USE_FILE_LOCKING': 'FALSE', 'LC_ALL': 'C.UTF-8',
    'NUMBA_DISABLE_INTEL_SVML': '1', 'TZ': 'UTC', 'DESI_LOGLEVEL': 'CRITICAL',
}
UNSET = ('RR_TEMPLATE_DIR', 'RR_ARCHETYPE_DIR', 'NERSC_HOST', 'SLURM_JOB_NAME', 'PYTHONSTARTUP',
         'SPECPROD', 'DESI_SPECTRO_REDUX')


def ensure():
    """Re-exec under the pinned interpreter and environment if needed."""
    ok = all(os.environ.get(k) == v for k, v in FIXED.items() if k != 'PYTHONHASHSEED') \
        and 'PYTHONHASHSEED' in os.environ \
        and os.path.realpath(sys.executable) == os.path.realpath(PY) \
        and os.environ.get('DST_ENV') == '1'
    if not ok:
        env = dict(os.environ)
        hs = env.get('DST_HASHSEED', '0')
        env.update(FIXED)
        env['PYTHONHASHSEED'] = hs
        env['DST_ENV'] = '1'
        for k in UNSET:
            env.pop(k, None)
        env['PYTHONPATH'] = f'{REPO}/py:{VERIF}'
        os.execve(PY, [PY, '-W', 'ignore'] + sys.argv, env)
    for p in (VERIF, f'{REPO}/py'):
        if p not in sys.path:
            sys.path.insert(0, p)
