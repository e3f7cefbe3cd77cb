"""Pins every source of nondeterminism before numpy & co. are imported, and
makes sure that the code under test is the one in /repo's working tree."""
import os
import sys
import warnings

REPO = os.environ.get('MC_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PINNED = {
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1', 'TZ': 'UTC',
    'LC_ALL': 'C.UTF-8', 'HDF5_USE_FILE_LOCKING': 'FALSE',
}


def pin():
    """Re-exec once with the pinned environment."""
    if any(os.environ.get(k) != v for k, v in PINNED.items()):
        env = dict(os.environ)
        env.update(PINNED)
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable,
                  [sys.executable, '-m', 'mc'] + sys.argv[1:], env)


def load():
    """Import the package under test from REPO and nowhere else."""
    src = os.path.join(REPO, 'src')
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import solarspatialtools
    got = os.path.dirname(os.path.abspath(solarspatialtools.__file__))
    want = os.path.join(os.path.abspath(src), 'solarspatialtools')
    if got != want:
        raise SystemExit(f'ERROR: testing {got} instead of {want}')
