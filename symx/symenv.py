"""What the code under test sees instead of the outside world (symbolic)."""
import builtins
import logging as _logging
import math as _math
import types
import warnings as _warnings

import numpy as _np

from . import core, arr, npshim, spmd, stubs
from .core import SNum, SBool, is_sym, s_and, s_or, smin, smax


# ------------------------------------------------------------------ builtins
class _BMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SNum):
            return x.k == cls._symkind
        if isinstance(x, SBool):
            return False
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, s):
        return s is cls or issubclass(getattr(s, '_real', s), cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __repr__(cls):
        return repr(cls._real)

    def __or__(cls, o):
        return object

    __ror__ = __or__


def _int(x=0, *a):
    x = arr.unbox(x)
    if isinstance(x, np_ndarray) and x.size == 1:
        x = x.ravel()[0]
    if isinstance(x, SNum):
        return core.trunc_int(x)
    if isinstance(x, SBool):
        return core.num(x)
    if isinstance(x, core.SStr):
        x = x.concrete()
    return builtins.int(x, *a)


def _float(x=0.0):
    x = arr.unbox(x)
    if isinstance(x, np_ndarray) and x.size == 1:
        x = x.ravel()[0]
    if is_sym(x):
        if isinstance(x, core.SStr):
            return builtins.float(x.concrete())
        return arr.cast(x, 'f')
    return builtins.float(x)


np_ndarray = _np.ndarray
s_int = _BMeta('int', (), {'_symkind': 'i', '_real': builtins.int,
                           '_conv': staticmethod(_int)})
s_float = _BMeta('float', (), {'_symkind': 'f', '_real': builtins.float,
                               '_conv': staticmethod(_float)})
s_int.from_bytes = builtins.int.from_bytes
s_int.dtype = _np.dtype('i8')
s_float.dtype = _np.dtype('f8')
s_float.fromhex = builtins.float.fromhex


def _any(it):
    if isinstance(it, (list, tuple, _np.ndarray)):
        return s_or(*list(it))
    return builtins.any(it)


def _all(it):
    if isinstance(it, (list, tuple, _np.ndarray)):
        return s_and(*list(it))
    return builtins.all(it)


def _mm(f, real, np_has):
    def g(*a, key=None, **kw):
        if key is not None:
            return real(*a, key=key, **kw)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not builtins.any(is_sym(x) for x in xs) or \
                builtins.any(isinstance(x, (core.SStr, str)) for x in xs):
            return real(*a, **kw)
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


def _sum(it, start=0):
    if isinstance(it, _np.ndarray) and it.ndim == 1:
        it = list(it)
    return builtins.sum(it, start)


class ExitCalled(SystemExit):
    pass


def _exit(code=None):
    raise SystemExit(code)


def _print(*a, **k):
    pass


def _isinstance(x, c):
    return builtins.isinstance(x, c)


OVERRIDES = {
    'int': s_int, 'float': s_float, 'any': _any, 'all': _all,
    'max': _mm(smax, builtins.max, 'max'),
    'min': _mm(smin, builtins.min, 'min'),
    'sum': _sum, 'exit': _exit, 'quit': _exit, 'print': _print,
}


# ------------------------------------------------------------------- modules
class _Log(types.ModuleType):
    def __init__(self):
        super().__init__('logging')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(_logging, n)
        if n.isupper() or isinstance(v, type):
            return v
        if n == 'getLogger':
            return lambda *a: self

        def f(*a, **k):
            stubs.eng().logged.append((n, a))
        return f


def logging_module():
    return _Log()


def warnings_module():
    m = types.ModuleType('warnings')

    def warn(msg, category=UserWarning, *a, **k):
        stubs.eng().warnings.append((str(msg), category))
    m.warn = warn
    m.simplefilter = m.filterwarnings = lambda *a, **k: None
    m.catch_warnings = _warnings.catch_warnings
    return m


def math_module():
    m = types.ModuleType('math')
    for n in dir(_math):
        v = getattr(_math, n)
        if not callable(v):
            setattr(m, n, v)
            continue

        def mk(n, v):
            def f(*a):
                if not builtins.any(is_sym(x) for x in a):
                    return v(*a)
                if n == 'floor':
                    return a[0].__floor__()
                if n == 'ceil':
                    return a[0].__ceil__()
                if n == 'trunc':
                    return core.trunc_int(a[0])
                if n == 'sqrt':
                    if builtins.bool(a[0] < 0):
                        raise ValueError('math domain error')
                    return core.cur().sqrt(a[0])
                if n in ('isnan', 'isinf'):
                    return False
                if n == 'isfinite':
                    return True
                if n == 'fabs':
                    return abs(a[0])
                g = getattr(npshim, n, None)
                if g is not None:
                    return g(*a)
                return v(*[core.cur().concretise(x) for x in a])
            return f
        setattr(m, n, mk(n, v))
    return m


def shims_symbolic():
    t = dict(stubs.thirdparty())
    t['numpy'] = npshim
    t['numpy.lib.recfunctions'] = npshim.rf
    t['numpy.lib'] = npshim.lib
    t['numpy.fft'] = npshim.fft
    t['numpy.linalg'] = npshim.linalg
    t['numba'] = stubs.numba_module()
    t['fitsio'] = stubs.fitsio_module()
    mpi = spmd.mpi_module()
    t['mpi4py'] = mpi
    t['mpi4py.MPI'] = mpi.MPI
    t['logging'] = logging_module()
    t['warnings'] = warnings_module()
    t['math'] = math_module()
    t['os']._cache['makedirs'] = lambda *a, **k: None
    t['os']._cache['mkdir'] = lambda *a, **k: None
    t['os']._cache['remove'] = lambda p: core.cur().vfs.pop(p, None)
    return t


def shims_concrete():
    t = dict(stubs.thirdparty())
    t['numba'] = stubs.numba_module()
    mpi = spmd.mpi_module()
    t['mpi4py'] = mpi
    t['mpi4py.MPI'] = mpi.MPI
    t['logging'] = logging_module()
    t['warnings'] = warnings_module()
    return t


OVERRIDES_CONCRETE = {'exit': _exit, 'quit': _exit, 'print': _print}
