"""Second copies of the package in the same process: the array-backend
wrapper, and the package as imported when optional accelerators are absent."""
import sys
import importlib
import contextlib
import numpy as np


class Blocker(object):
    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] in self.names:
            raise ImportError('blocked: ' + fullname)
        return None


def load(mods, block=()):
    """Import `mods` (names below the package) in a fresh copy of sporco
    with the packages in `block` not importable."""
    saved = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'sporco' or k.split('.')[0] in block}
    for k in saved:
        del sys.modules[k]
    b = Blocker(block)
    sys.meta_path.insert(0, b)
    out = {}
    try:
        for m in mods:
            out[m] = importlib.import_module('sporco.' + m)
    finally:
        sys.meta_path.remove(b)
        copy = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'sporco'}
        for k in [k for k in sys.modules if k.split('.')[0] == 'sporco' or k.split('.')[0] in block]:
            del sys.modules[k]
        sys.modules.update(saved)
    out[''] = copy
    return out


@contextlib.contextmanager
def active(mods):
    """Make the copy of the package the one sys.modules refers to (dynamic
    classes are registered and looked up there)."""
    saved = {}
    for k in [k for k in sys.modules if k.split('.')[0] == 'sporco']:
        saved[k] = sys.modules.pop(k)
    sys.modules.update(mods[''])
    try:
        yield
    finally:
        mods[''] = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split('.')[0] == 'sporco'}
        sys.modules.update(saved)


ADMM = ['bpdn', 'cbpdn', 'cbpdnin', 'cbpdntv', 'pdcsc', 'rpca', 'tvl1', 'tvl2', 'cmod', 'ccmod', 'ccmodmd', 'spline', 'ppp']
PGM = ['bpdn', 'cbpdn', 'cmod', 'ccmod', 'momentum', 'backtrack', 'stepsize']
DL = ['bpdndl', 'wbpdndl', 'cbpdndl', 'cbpdndlmd', 'onlinecdl', 'prlcnscdl']
_cache = {}


def plain():
    """The package without pyFFTW and numexpr."""
    if 'plain' not in _cache:
        _cache['plain'] = load(['fft', 'linalg', 'prox', 'signal', 'cnvrep', 'metric'] + ['admm.' + m for m in ADMM] +
                               ['pgm.' + m for m in PGM] + ['dictlrn.' + m for m in DL], ('pyfftw', 'numexpr'))
    return _cache['plain']


CUPY = ['admm.' + m for m in ('bpdn', 'cbpdn', 'cbpdnin', 'cbpdntv', 'pdcsc', 'rpca', 'tvl1', 'tvl2')] + \
       ['pgm.cbpdn', 'pgm.momentum', 'pgm.backtrack', 'pgm.stepsize', 'dictlrn.onlinecdl', 'linalg', 'fft', 'signal', 'metric', 'cnvrep', 'array', 'util']


def backend():
    """The array-backend wrapper; the host library stands in for the
    device library, which is not available here."""
    if 'cupy' not in _cache:
        import sporco.cupy
        import sporco.cupy.admm
        import sporco.cupy.pgm
        import sporco.cupy.dictlrn
        out = {}
        for m in CUPY:
            o = sporco.cupy
            for p in m.split('.'):
                o = getattr(o, p)
            out[m] = o
        out['prox'] = sporco.cupy.prox
        out[''] = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'sporco'}
        _cache['cupy'] = out
    return _cache['cupy']
