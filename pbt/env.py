"""Process environment: where the code under test and Hypothesis come from.

`setup(torch)` must be called before anything imports numpy, cbx or hypothesis.
"""
import os
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get('CBX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHEELS = '/opt/veriftools/wheels'


class _NoTorch:
    """cbx treats torch as an optional extra; checks that do not study it skip its slow import."""

    def find_spec(self, name, path=None, target=None):
        if name == 'torch' or name.startswith('torch.'):
            raise ImportError(name)
        return None


def setup(torch=False):
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    scratch = tempfile.mkdtemp(prefix='cbxpbt_')
    owner = os.getpid()

    def _clean():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(_clean)
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, 'pyc')   # never read stale bytecode of /repo
    if not torch:
        sys.meta_path.insert(0, _NoTorch())
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(_HYP)
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            import glob
            for w in glob.glob(os.path.join(_WHEELS, '*.whl')):
                b = os.path.basename(w)
                if b.startswith(('hypothesis-', 'sortedcontainers-', 'attrs-')):
                    sys.path.append(w)
            import hypothesis  # noqa: F401
    import warnings
    warnings.simplefilter('ignore')
    import cbx
    where = os.path.dirname(os.path.abspath(cbx.__path__[0] + '/x'))
    if os.path.realpath(where) != os.path.realpath(os.path.join(REPO, 'cbx')):
        raise RuntimeError('cbx imported from %s, not from %s' % (where, REPO))
    return scratch
