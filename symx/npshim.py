"""The `numpy` module seen by the code under symbolic execution."""
import builtins
import operator
import sys
import types

import numpy as _np

from . import core, arr
from .core import SNum, SBool, SStr, is_sym, cur, s_and, s_or, ite, num
from .arr import (SymArray, SymRec, SymRow, SDType, asarr, cast, full, new,
                  _wrap, promote, ufcall, reduce_, unbox, concrete_mask,
                  kind_of_dtype, to_real, from_real, UF)

ndarray = _np.ndarray
generic = _np.generic
newaxis = None
pi = _np.pi
e = _np.e
inf = _np.inf
Inf = Infinity = inf
nan = NaN = NAN = _np.nan
s_ = _np.s_
index_exp = _np.index_exp
errstate = _np.errstate
seterr = _np.seterr
ndindex = _np.ndindex
VisibleDeprecationWarning = _np.VisibleDeprecationWarning
RankWarning = getattr(_np, 'RankWarning', Warning)
set_printoptions = _np.set_printoptions
printoptions = _np.printoptions
True_, False_ = _np.True_, _np.False_
__version__ = _np.__version__


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SNum):
            return x.k == cls._symkind
        if isinstance(x, SBool):
            return cls._symkind == 'b'
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, s):
        try:
            return issubclass(s, cls._real)
        except TypeError:
            return False

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __call__(cls, x=0, *a, **k):
        x = unbox(x)
        if isinstance(x, (SymArray, list, tuple, _np.ndarray)):
            return asarr(x, cls._symkind, copy=True)
        return cast(x, cls._symkind)


def _mk(name, kind, real):
    return _TypeMeta(name, (), {'_symkind': kind, '_real': real,
                                'dtype': SDType(kind)})


float64 = double = float_ = _mk('float64', 'f', _np.float64)
float32 = single = _mk('float32', 'f', _np.floating)
longdouble = float128 = float32
int64 = int_ = intp = _mk('int64', 'i', _np.int64)
int32 = intc = _mk('int32', arr.NARROW[32, True], _np.int32)
int16 = _mk('int16', arr.NARROW[16, True], _np.int16)
int8 = _mk('int8', arr.NARROW[8, True], _np.int8)
uint32 = _mk('uint32', arr.NARROW[32, False], _np.uint32)
uint16 = _mk('uint16', arr.NARROW[16, False], _np.uint16)
uint8 = _mk('uint8', arr.NARROW[8, False], _np.uint8)
uint64 = uint = _mk('uint64', 'i', _np.integer)
bool_ = bool8 = _mk('bool_', 'b', _np.bool_)
integer = signedinteger = _mk('integer', 'i', _np.integer)
floating = inexact = _mk('floating', 'f', _np.floating)
number = _np.number
complex128 = complex64 = complex_ = _np.complex128
str_ = unicode_ = _np.str_
bytes_ = _np.bytes_
object_ = object
void = SymRow
recarray = SymRec


def dtype(t, *a, **k):
    kd = kind_of_dtype(t)
    if isinstance(kd, tuple):
        cols = {d[0]: new((0,) + tuple(
            (d[2] if isinstance(d[2], tuple) else (d[2],)) if len(d) > 2
            else ()), kind_of_dtype(d[1])) for d in kd[1]}
        return SDType('O', list(cols), cols)
    return SDType(kd)


class _FInfo:
    eps = _np.finfo(float).eps
    tiny = smallest_normal = _np.float64(0)
    resolution = _np.float64(0)
    max = _np.finfo(float).max
    min = _np.finfo(float).min


def finfo(t=None):
    return _FInfo


def iinfo(t=None):
    return _np.iinfo(_np.int64)


def _shape(s):
    if isinstance(s, (tuple, list, SymArray)):
        return tuple(operator.index(x) for x in s)
    return (operator.index(s),)


def _recof(shape, descr, fillv):
    n = _shape(shape)
    assert len(n) == 1
    cols = {}
    for d in descr:
        sub = ()
        if len(d) > 2:
            sub = d[2] if isinstance(d[2], tuple) else (d[2],)
        k = kind_of_dtype(d[1])
        v = fillv(k)
        c = new(n + tuple(sub), k)
        for i in _np.ndindex(*c.shape):
            c[i] = fillv(k)
        cols[d[0]] = c
    return SymRec(cols, n[0])


def _dk(dt):
    return kind_of_dtype(dt) if dt is not None else 'f'


def _zero(k):
    return {'f': 0., 'i': 0, 'b': False, 'S': '', 'O': 0, 'c': 0j}[k]


def zeros(shape, dtype=None, order='C', **kw):
    k = _dk(dtype)
    if isinstance(k, tuple):
        return _recof(shape, k[1], _zero)
    return full_(_shape(shape), _zero(k), k)


def full_(shape, v, k):
    return arr.full(shape, v, k)


def ones(shape, dtype=None, order='C', **kw):
    k = _dk(dtype)
    if isinstance(k, tuple):
        return _recof(shape, k[1], lambda k: cast(1, k))
    return full_(_shape(shape), 1, k)


def empty(shape, dtype=None, order='C', **kw):
    k = _dk(dtype)
    if isinstance(k, tuple):
        return _recof(shape, k[1], arr.undef)
    a = new(_shape(shape), k)
    b = a.view(_np.ndarray)
    for i in _np.ndindex(*a.shape):
        b[i] = arr.undef(k)
    return a


def full(shape, fill_value, dtype=None, order='C', **kw):
    fv = unbox(fill_value)
    if isinstance(fv, _np.ndarray):
        a = new(_shape(shape), kind_of_dtype(dtype) or asarr(fv)._k)
        a[...] = fv
        return a
    return full_(_shape(shape), fv, kind_of_dtype(dtype)
                 or arr.kind_of_scalar(fv))


def _like(f):
    def g(a, dtype=None, order='K', subok=True, shape=None, **kw):
        a = asarr(a)
        if isinstance(a, SymRec):
            return f(a.size, a.dtype)
        return f(a.shape if shape is None else shape,
                 dtype if dtype is not None else SDType(a._k))
    return g


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)


def full_like(a, fill_value, dtype=None, **kw):
    a = asarr(a)
    return full(a.shape, fill_value, dtype or SDType(a._k))


def eye(n, m=None, k=0, dtype=float, **kw):
    return asarr(_np.eye(operator.index(n), None if m is None
                         else operator.index(m), k), _dk(dtype))


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    k = kind_of_dtype(dtype)
    if isinstance(x, (types.GeneratorType, range, map, zip, dict, set)) and \
            isinstance(x, range):
        x = list(x)
    r = asarr(x, k, copy=True)
    if isinstance(r, SymRec):
        return r.copy()
    while r.ndim < ndmin:
        r = r[None]
    if isinstance(x, SymArray) and r is x:
        r = x.copy()
    return r


def asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, range):
        x = list(x)
    return asarr(x, kind_of_dtype(dtype))


asanyarray = ascontiguousarray = asfortranarray = asarray


def copy(a, *args, **k):
    return array(a)


def fromiter(it, dtype, count=-1):
    return asarr(list(it), kind_of_dtype(dtype))


def arange(*a, dtype=None, **kw):
    a = [unbox(x) for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    k = kind_of_dtype(dtype) or promote(
        *[arr.kind_of_scalar(x) for x in (start, stop, step)])
    if not any(is_sym(x) for x in (start, stop, step)):
        return asarr(_np.arange(start, stop, step), k)
    n = (stop - start) / step
    n = n.__ceil__() if is_sym(n) else int(_np.ceil(n))
    n = builtins.max(0, operator.index(n))
    return asarr([start + i * step for i in range(n)], k) if n else \
        new((0,), k)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    num = operator.index(num)
    if num < 0:
        raise ValueError(f"Number of samples, {num}, must be non-negative.")
    start, stop = unbox(start), unbox(stop)
    div = num - 1 if endpoint else num
    if not is_sym(start) and not is_sym(stop):
        r = _np.linspace(float(start), float(stop), num, endpoint, True)
        out = asarr(r[0], kind_of_dtype(dtype))
        return (out, r[1]) if retstep else out
    delta = (stop - start) * 1.0
    step = delta / div if div > 0 else _np.float64('nan')
    vals = [cast(start + i * step if i else start, 'f') for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = cast(stop, 'f')
    out = asarr(vals, kind_of_dtype(dtype) or 'f') if num else new((0,), 'f')
    return (out, step) if retstep else out


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None,
             axis=0):
    return from_real(_np.logspace(to_real(start), to_real(stop),
                                  operator.index(num), endpoint, base))


def geomspace(start, stop, num=50, endpoint=True):
    return from_real(_np.geomspace(to_real(start), to_real(stop),
                                   operator.index(num), endpoint))


# ----------------------------------------------------------- ufunc namespace
class _UFunc:
    def __init__(self, name):
        self.__name__ = name
        self.nin = getattr(_np, name).nin

    def __call__(self, *a, **k):
        nin = self.nin
        if len(a) > nin:
            k['out'] = a[nin]
            a = a[:nin]
        return ufcall(self.__name__, *a, **k)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **k):
        return reduce_(self.__name__, a, axis, dtype, out, keepdims, **k)

    def accumulate(self, a, axis=0, **k):
        return arr.accumulate(self.__name__, a, axis)

    def outer(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        return ufcall(self.__name__, a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, idx, v=None):
        arr.at_(self.__name__, a, idx, v)

    def reduceat(self, a, idx, axis=0, **k):
        a = asarr(a)
        ix = [operator.index(i) for i in asarr(idx)]
        out = []
        for j, i in enumerate(ix):
            hi = ix[j + 1] if j + 1 < len(ix) else len(a)
            out.append(reduce_(self.__name__, a[i:hi] if hi > i
                               else a[i:i + 1], 0))
        return asarr(out)


for _n in UF:
    if hasattr(_np, _n):
        globals()[_n] = _UFunc(_n)
abs = absolute  # noqa: F821
conj = conjugate  # noqa: F821
bitwise_not = invert  # noqa: F821


# ---------------------------------------------------------------- reductions
def _red(name):
    def f(a, axis=None, out=None, keepdims=False, **kw):
        a = asarr(a)
        return getattr(a, name)(axis=axis, out=out, keepdims=keepdims, **kw)
    return f


any = sometrue = _red('any')
all = alltrue = _red('all')
min = amin = _red('min')
max = amax = _red('max')


def sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
        where=True):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    return reduce_('add', a, axis, dtype, out, keepdims, initial, where)


def prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_('multiply', a, axis, dtype, out, keepdims)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    if where is not True:
        s = reduce_('add', asarr(a).astype('f'), axis, None, None, keepdims,
                    None, where)
        return s / reduce_('add', asarr(where), axis, None, None, keepdims)
    return asarr(a).mean(axis, keepdims=keepdims)


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return asarr(a).var(axis, ddof=ddof, keepdims=keepdims)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return asarr(a).std(axis, ddof=ddof, keepdims=keepdims)


def _nanclean(a, v):
    a = asarr(a).copy()
    b = a.view(_np.ndarray)
    for i in _np.ndindex(*a.shape):
        if core._isnanlike(b[i]):
            b[i] = _np.float64(v)
    return a


def nansum(a, axis=None, **k):
    return sum(_nanclean(a, 0.), axis)


def nanmean(a, axis=None, **k):
    a = asarr(a)
    return nansum(a, axis) / sum(~isnan(a), axis)  # noqa: F821


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(a)
    r = a.copy() if copy else a
    b = r.view(_np.ndarray)
    for i in _np.ndindex(*r.shape):
        v = b[i]
        if core._isnanlike(v):
            b[i] = _np.float64(nan)
        elif core._isinflike(v):
            b[i] = _np.nan_to_num(v, posinf=posinf, neginf=neginf)
    return r


def count_nonzero(a, axis=None, keepdims=False):
    return reduce_('add', asarr(a).astype('b'), axis, None, None, keepdims)


def argmin(a, axis=None, **k):
    return asarr(a).argmin(axis)


def argmax(a, axis=None, **k):
    return asarr(a).argmax(axis)


def cumsum(a, axis=None, dtype=None, out=None):
    return arr.accumulate('add', asarr(a), axis)


def cumprod(a, axis=None, **k):
    return arr.accumulate('multiply', asarr(a), axis)


def ptp(a, axis=None):
    return asarr(a).ptp(axis)


def diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    for _ in range(n):
        m = _np.moveaxis(a.view(_np.ndarray), axis, 0)
        lo, hi = _wrap(m[:-1], a._k), _wrap(m[1:], a._k)
        r = ufcall('not_equal' if a._k == 'b' else 'subtract', hi, lo)
        a = _wrap(_np.moveaxis(r.view(_np.ndarray), 0, axis), r._k)
    return a


def ediff1d(a, **k):
    return diff(asarr(a).ravel())


def median(a, axis=None, **kw):
    a = asarr(a)
    if axis is None:
        v = sort(a.ravel())
        n = v.size
        if n == 0:
            return _np.float64('nan')
        if n % 2:
            return cast(v[n // 2], 'f')
        return (v[n // 2 - 1] + v[n // 2]) / _np.float64(2)
    m = _np.moveaxis(a.view(_np.ndarray), axis, -1)
    out = new(m.shape[:-1], 'f')
    for i in _np.ndindex(*m.shape[:-1]):
        out[i] = median(_wrap(_np.asarray(m[i]), a._k))
    return out


def average(a, axis=None, weights=None, returned=False):
    a = asarr(a)
    if weights is None:
        return a.mean(axis)
    w = asarr(weights)
    ws = w.sum(axis if w.ndim == a.ndim else None)
    if w.ndim == 1 and a.ndim > 1 and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    r = (a * w).sum(axis) / ws
    return (r, ws) if returned else r


def percentile(a, q, axis=None, **k):
    return quantile(a, unbox(q) / 100., axis)


def quantile(a, q, axis=None, **k):
    v = sort(asarr(a).ravel())
    p = float(q) * (v.size - 1)
    i = int(_np.floor(p))
    f = p - i
    j = builtins.min(i + 1, v.size - 1)
    return v[i] * (1 - f) + v[j] * f


# ------------------------------------------------------------------- sorting
def sort(a, axis=-1, kind=None, order=None):
    a = asarr(a)
    if isinstance(a, SymRec):
        r = a.copy()
        r.sort(order=order)
        return r
    if axis is None:
        a = a.ravel()
        axis = -1
    if a.ndim == 1:
        return a[arr.argsort(a)] if a.size else a.copy()
    m = _np.moveaxis(a.view(_np.ndarray), axis, -1)
    out = _np.empty(m.shape, dtype=object)
    for i in _np.ndindex(*m.shape[:-1]):
        row = m[i]
        ix = arr.sorted_idx([(v,) for v in row])
        for j, q in enumerate(ix):
            out[i + (j,)] = row[q]
    return _wrap(_np.moveaxis(out, -1, axis), a._k)


def argsort(a, axis=-1, kind=None, order=None):
    a = asarr(a)
    if isinstance(a, SymRec):
        return a.argsort(order=order)
    return arr.argsort(a, axis)


def lexsort(keys, axis=-1):
    ks = [asarr(k).view(_np.ndarray) for k in keys]
    n = len(ks[0])
    return asarr(arr.sorted_idx(
        [tuple(k[i] for k in reversed(ks)) for i in range(n)]), 'i')


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    if sorter is not None:
        a = a[sorter]
    op = UF['less' if side == 'left' else 'less_equal'][0]
    base = a.view(_np.ndarray)

    def one(x):
        conds = [op(y, x) for y in base]
        if not builtins.any(is_sym(c) for c in conds):
            return _np.int64(builtins.sum(bool(c) for c in conds))
        r = _np.int64(0)
        for c in conds:
            r = r + num(c) if is_sym(c) else r + int(c)
        return r
    v = unbox(v)
    if isinstance(v, (_np.ndarray, list, tuple)):
        v = asarr(v)
        out = new(v.shape, 'i')
        for i in _np.ndindex(*v.shape):
            out[i] = one(v.view(_np.ndarray)[i])
        return out
    return one(v)


def digitize(x, bins, right=False):
    bins = asarr(bins)
    if bins.size > 1 and bool(bins[0] > bins[-1]):
        r = searchsorted(bins[::-1], x, 'left' if not right else 'right')
        return bins.size - r
    return searchsorted(bins, x, 'right' if not right else 'left')


def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **kw):
    a = asarr(a)
    if isinstance(a, SymRec):
        keys, _ = a._keys()
    else:
        a = a.ravel()
        keys = [(v,) for v in a.view(_np.ndarray)]
    ix = arr.sorted_idx(keys)
    groups = []
    for i in ix:
        if groups:
            j = groups[-1][0]
            eq = s_and(*[UF['equal'][0](x, y)
                         for x, y in zip(keys[j], keys[i])])
            if bool(eq):
                groups[-1].append(i)
                continue
        groups.append([i])
    first = asarr([g[0] for g in groups], 'i') if groups else new((0,), 'i')
    out = [a[first] if groups else a[:0]]
    if return_index:
        out.append(first)
    if return_inverse:
        inv = new((len(keys),), 'i')
        for q, g in enumerate(groups):
            for i in g:
                inv[i] = q
        out.append(inv)
    if return_counts:
        out.append(asarr([len(g) for g in groups], 'i') if groups
                   else new((0,), 'i'))
    return out[0] if len(out) == 1 else tuple(out)


def isin(element, test_elements, assume_unique=False, invert=False, **kw):
    el = asarr(element)
    te = unbox(test_elements)
    if isinstance(te, set):
        te = [te]  # numpy treats a set as one object
    te = asarr(te).ravel() if not isinstance(te, (str, SStr)) \
        else asarr([te])
    if core.BIG and {el._k, te._k} == {'f', 'i'}:
        el, te = el.astype('f'), te.astype('f')
    tb = te.view(_np.ndarray)
    out = new(el.shape, 'b')
    for i in _np.ndindex(*el.shape):
        v = el.view(_np.ndarray)[i]
        r = s_or(*[UF['equal'][0](v, t) for t in tb])
        out[i] = core.s_not(r) if invert else r
    return out if el.ndim else out[()]


def in1d(a, b, assume_unique=False, invert=False, **kw):
    return isin(asarr(a).ravel(), b, assume_unique, invert)


def intersect1d(ar1, ar2, assume_unique=False, return_indices=False):
    ar1, ar2 = asarr(ar1), asarr(ar2)
    if not assume_unique:
        if return_indices:
            ar1, ind1 = unique(ar1, return_index=True)
            ar2, ind2 = unique(ar2, return_index=True)
        else:
            ar1, ar2 = unique(ar1), unique(ar2)
    else:
        ar1, ar2 = ar1.ravel(), ar2.ravel()
    aux = concatenate((ar1, ar2))
    si = arr.argsort(aux) if aux.size else new((0,), 'i')
    aux = aux[si]
    m = concrete_mask(ufcall('equal', aux[1:], aux[:-1])) if aux.size > 1 \
        else _np.zeros(0, bool)
    r = aux[:-1][m] if aux.size > 1 else aux[:0]
    if not return_indices:
        return r
    i1 = si[:-1][m] if aux.size > 1 else new((0,), 'i')
    i2 = (si[1:][m] if aux.size > 1 else new((0,), 'i')) - ar1.size
    if not assume_unique:
        i1, i2 = ind1[i1], ind2[i2]
    return r, i1, i2


def setdiff1d(a, b, assume_unique=False):
    a = asarr(a) if assume_unique else unique(a)
    return a[concrete_mask(isin(a, b, invert=True))]


def union1d(a, b):
    return unique(concatenate((asarr(a).ravel(), asarr(b).ravel())))


def setxor1d(a, b, assume_unique=False):
    return concatenate((setdiff1d(a, b), setdiff1d(b, a)))


# ----------------------------------------------------------------- selection
def where(c, a=None, b=None):
    if a is None:
        return asarr(c).nonzero()
    c = asarr(c).astype('b')
    a, b = asarr(a), asarr(b)
    k = promote(a._k, b._k)
    sh = _np.broadcast(c.view(_np.ndarray), a.view(_np.ndarray),
                       b.view(_np.ndarray)).shape
    cb, ab, bb = [_np.broadcast_to(x.view(_np.ndarray), sh)
                  for x in (c, a, b)]
    out = _np.empty(sh, dtype=object)
    for i in _np.ndindex(*sh):
        out[i] = cast(ite(cb[i], ab[i], bb[i]), k)
    return _wrap(out, k)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in zip(reversed(condlist), reversed(choicelist)):
        r = where(c, v, r)
    return r


def nonzero(a):
    return asarr(a).nonzero()


def flatnonzero(a):
    return asarr(a).ravel().nonzero()[0]


def argwhere(a):
    return asarr(_np.argwhere(concrete_mask(asarr(a))))


def extract(c, a):
    return asarr(a)[concrete_mask(asarr(c))]


def compress(c, a, axis=None):
    return asarr(a)[concrete_mask(asarr(c))]


def clip(a, a_min=None, a_max=None, out=None, **kw):
    x = unbox(a)
    if a_min is None:
        a_min = kw.get('min')
    if a_max is None:
        a_max = kw.get('max')
    if not isinstance(x, (_np.ndarray, list, tuple)):
        if a_min is not None:
            x = core.smax(x, a_min)
        if a_max is not None:
            x = core.smin(x, a_max)
        return x
    return asarr(x).clip(a_min, a_max, out)


def round(a, decimals=0, out=None):
    x = unbox(a)
    if not isinstance(x, (_np.ndarray, list, tuple)):
        if is_sym(x):
            return cast(builtins.round(x), x.k) if decimals == 0 else \
                builtins.round(x, decimals)
        return _np.round(x, decimals)
    x = asarr(x)
    if decimals == 0:
        return ufcall('rint', x) if x._k == 'f' else x
    s = 10.0 ** decimals
    return ufcall('rint', x * s) / s


around = round_ = round


def fix(a):
    return ufcall('trunc', a)


def take(a, idx, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        return a[idx]
    ix = [slice(None)] * a.ndim
    ix[axis] = idx
    return a[tuple(ix)]


def put(a, ind, v):
    a[ind] = v


def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
        return
    w = asarr(where)
    dst[w] = asarr(src)[w] if _np.ndim(src) else src


def putmask(a, mask, values):
    v = asarr(values)
    m = asarr(mask)
    if v.ndim == 0 or v.size == 1:
        a[m] = v.ravel()[0]
    elif v.size == a.size:
        a[m] = v[m]
    else:
        raise core.EngineLimit('putmask with repeated values')


def place(a, mask, vals):
    v = asarr(vals).ravel()
    k = 0
    for j, m in enumerate(asarr(mask).ravel()):
        if bool(m):
            a.reshape(-1)[j] = v[k % v.size]
            k += 1


def block(a):
    def depth(x):
        return 1 + builtins.max(map(depth, x)) if isinstance(x, list) else 0

    def go(x, axis):
        if not isinstance(x, list):
            x = asarr(x)
            while x.ndim < n:
                x = x[None]
            return x
        return concatenate([go(q, axis + 1) for q in x],  # noqa: F821
                           axis=axis)
    n = depth(a)
    return go(a, -n)


def choose(c, choices):
    c = asarr(c)
    return asarr([choices[operator.index(i)][j] for j, i in enumerate(c)])


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    d = ufcall('absolute', a - b)
    r = ufcall('less_equal', d, atol + rtol * ufcall('absolute', b))
    return r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_('logical_and', isclose(a, b, rtol, atol))


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return _np.False_
    return reduce_('logical_and', ufcall('equal', a, b))


array_equiv = array_equal


# ---------------------------------------------------------------- structural
def _structural(name):
    fn = getattr(_np, name)

    def strip(x, ks):
        if isinstance(x, SymArray):
            ks.append(x._k)
            return x.view(_np.ndarray)
        if isinstance(x, (list, tuple)) and builtins.any(
                isinstance(y, (_np.ndarray, list, tuple)) or is_sym(y)
                for y in x):
            return [strip(asarr(y) if not isinstance(y, _np.ndarray)
                          and (is_sym(y) or isinstance(y, (list, tuple)))
                          else y, ks) for y in x]
        if is_sym(x):
            a = arr.scalar0(x)
            ks.append(a._k)
            return a.view(_np.ndarray)
        if isinstance(x, _np.ndarray):
            a = asarr(x)
            ks.append(a._k)
            return a.view(_np.ndarray)
        return x

    def back(r, k):
        if isinstance(r, _np.ndarray):
            a = r if r.dtype == object else asarr(r, k).view(_np.ndarray)
            out = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                out[i] = cast(a[i], k)
            if out.shape == ():
                return out[()]
            return _wrap(out, k)
        if isinstance(r, (list, tuple)):
            return type(r)(back(x, k) for x in r)
        return r

    def f(*a, **kw):
        ks = []
        first = a[0] if a else None
        a2 = [strip(asarr(first) if isinstance(first, (list, tuple))
                    and name not in _SEQ else first, ks)] + [
            x for x in a[1:]] if a else []
        if name in _SEQ:
            a2 = [[strip(asarr(y), ks) for y in first]] + list(a[1:])
        a2 = [a2[0]] + [to_real(x) if isinstance(x, (SymArray, SNum))
                        else x for x in a2[1:]]
        kw = {q: (to_real(v) if isinstance(v, (SymArray, SNum)) else v)
              for q, v in kw.items() if q != 'dtype'}
        return back(fn(*a2, **kw), promote(*ks))
    f.__name__ = name
    return f


_SEQ = {'concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'dstack',
        'row_stack'}


def _seqfn(name):
    g = _structural(name)

    def f(seq, *a, **kw):
        dt = kw.pop('dtype', None)
        seq = list(seq)
        if seq and builtins.all(isinstance(x, (SymRec, SymRow)) for x in seq):
            return SymRec.concat([asarr(x) for x in seq])
        if not seq:
            raise ValueError("need at least one array to concatenate")
        r = g(seq, *a, **kw)
        # numpy promotes an empty float array with ints to float
        return r.astype(kind_of_dtype(dt)) if dt is not None else r
    f.__name__ = name
    return f


for _n in _SEQ:
    globals()[_n] = _seqfn(_n)
for _n in ('reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis',
           'squeeze', 'expand_dims', 'tile', 'roll', 'flip', 'fliplr',
           'flipud', 'rot90', 'tril', 'triu', 'diag', 'diagflat',
           'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to'):
    globals()[_n] = _structural(_n)


def diagonal(a, *x, **k):
    return asarr(a).diagonal(*x, **k)


def fill_diagonal(a, v, wrap=False):
    n = builtins.min(a.shape)
    vv = asarr(v)
    for i in range(n):
        a[i, i] = vv[i % vv.size] if vv.ndim else v


def broadcast_arrays(*a):
    a = [asarr(x) for x in a]
    sh = _np.broadcast(*[x.view(_np.ndarray) for x in a]).shape
    return [_wrap(_np.broadcast_to(x.view(_np.ndarray), sh).copy(), x._k)
            for x in a]


def meshgrid(*a, indexing='xy', **k):
    a = [asarr(x) for x in a]
    r = _np.meshgrid(*[_np.arange(x.size) for x in a], indexing=indexing)
    return [x[asarr(i)] for x, i in zip(a, r)]


def append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if isinstance(a, SymRec):
        return SymRec.concat([a, v])
    if axis is None:
        return concatenate((a.ravel(), v.ravel()))  # noqa: F821
    return concatenate((a, v), axis=axis)  # noqa: F821


def insert(a, i, v, axis=None):
    a = asarr(a)
    v = asarr(v).ravel()
    if not isinstance(i, (int, _np.integer, SNum)):
        ix = [operator.index(j) for j in i]
        n = len(a)
        order = sorted(range(len(ix)), key=lambda j: ix[j] % (n + 1)
                       if ix[j] >= 0 else ix[j] + n)
        parts, last = [], 0
        for j in order:
            q = ix[j] if ix[j] >= 0 else ix[j] + n
            parts += [a[last:q], v[j % v.size:j % v.size + 1]]
            last = q
        return concatenate(parts + [a[last:]])  # noqa: F821
    i = operator.index(i)
    return concatenate((a[:i], v, a[i:]))  # noqa: F821


def delete(a, obj, axis=None):
    a = asarr(a)
    n = len(a)
    keep = _np.delete(_np.arange(n), to_real(obj) if not isinstance(
        obj, slice) else arr.norm_index(obj))
    return a[asarr(keep)] if axis in (None, 0) else take(a, keep, axis)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ix = _np.repeat(_np.arange(a.shape[axis]), to_real(n))
    return take(a, asarr(ix), axis)


def split(a, ind, axis=0):
    a = asarr(a)
    n = len(a) if axis == 0 else a.shape[axis]
    ind = unbox(ind)
    if isinstance(ind, (int, _np.integer, SNum)):
        k = operator.index(ind)
        if n % k:
            raise ValueError('array split does not result in an equal '
                             'division')
        ind = [n // k * i for i in range(1, k)]
    pts = [0] + [operator.index(i) for i in ind] + [n]
    out = []
    for lo, hi in zip(pts, pts[1:]):
        if axis == 0:
            out.append(a[lo:hi])
        else:
            ix = [slice(None)] * a.ndim
            ix[axis] = slice(lo, hi)
            out.append(a[tuple(ix)])
    return out


def array_split(a, k, axis=0):
    a = asarr(a)
    k = unbox(k)
    if isinstance(k, (int, _np.integer, SNum)):
        k = operator.index(k)
        n = len(a)
        e, x = divmod(n, k)
        sizes = [e + 1] * x + [e] * (k - x)
        return split(a, list(_np.cumsum(sizes))[:-1])
    return split(a, k, axis)


def pad(a, width, mode='constant', constant_values=0, **kw):
    a = asarr(a)
    width = to_real(width)
    if isinstance(width, (list, tuple)):
        width = [tuple(operator.index(x) for x in w) if isinstance(
            w, (list, tuple)) else operator.index(w) for w in width]
    else:
        width = operator.index(width) if not isinstance(
            width, _np.ndarray) else width
    idx = _np.arange(a.size).reshape(a.shape)
    if mode == 'constant':
        p = _np.pad(idx, width, mode='constant', constant_values=-1)
    elif mode in ('edge', 'reflect', 'symmetric', 'wrap'):
        p = _np.pad(idx, width, mode=mode)
    else:
        return from_real(_np.pad(to_real(a), width, mode=mode, **kw))
    out = _np.empty(p.shape, dtype=object)
    flat = a.view(_np.ndarray).reshape(-1)
    cv = unbox(constant_values)
    for i in _np.ndindex(*p.shape):
        out[i] = flat[p[i]] if p[i] >= 0 else cast(cv, a._k)
    return _wrap(out, a._k)


def shape(a):
    return asarr(a).shape


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def ndim(a):
    return asarr(a).ndim


def isscalar(x):
    return is_sym(x) or _np.isscalar(x)


def iscomplexobj(x):
    return asarr(x)._k == 'c'


def issubdtype(a, b):
    ka = kind_of_dtype(a)
    rb = getattr(b, '_symkind', None)
    if rb:
        return ka == rb
    m = {'f': _np.float64, 'i': _np.int64, 'b': _np.bool_, 'S': _np.str_,
         'O': _np.object_, 'c': _np.complex128}
    return _np.issubdtype(m[ka], b)


def result_type(*a):
    return SDType(promote(*[asarr(x)._k if not isinstance(x, SDType)
                            else x.k for x in a]))


def may_share_memory(a, b):
    return _np.may_share_memory(a.view(_np.ndarray), b.view(_np.ndarray))


shares_memory = may_share_memory


def real(a):
    return asarr(a).real


def imag(a):
    return asarr(a).imag


def array_str(a, *x, **k):
    return str(a)


array2string = array_repr = array_str


def vectorize(f, *a, **k):
    def g(*args):
        arrs = [asarr(x) for x in args]
        sh = _np.broadcast(*[x.view(_np.ndarray) for x in arrs]).shape
        bs = [_np.broadcast_to(x.view(_np.ndarray), sh) for x in arrs]
        out = _np.empty(sh, dtype=object)
        for i in _np.ndindex(*sh):
            out[i] = f(*[b[i] for b in bs])
        return asarr(out)
    return g


def apply_along_axis(f, axis, a, *args, **k):
    a = asarr(a)
    m = _np.moveaxis(a.view(_np.ndarray), axis, -1)
    rows = [f(_wrap(_np.asarray(m[i]), a._k), *args, **k)
            for i in _np.ndindex(*m.shape[:-1])]
    return asarr(rows).reshape(m.shape[:-1] + asarr(rows[0]).shape)


# ------------------------------------------------------------ linear algebra
def dot(a, b, out=None):
    a, b = unbox(a), unbox(b)
    if not isinstance(a, (_np.ndarray, list, tuple)) or \
            not isinstance(b, (_np.ndarray, list, tuple)):
        return a * b
    a, b = asarr(a), asarr(b)
    k = promote(a._k, b._k)
    if k == 'b':
        a = a.astype('i')
        k = 'i'
    ab, bb = a.view(_np.ndarray), b.view(_np.ndarray)
    if a.shape[-1] != b.shape[builtins.max(0, b.ndim - 2)]:
        raise ValueError(
            f"shapes {a.shape} and {b.shape} not aligned")

    def inner1(x, y):
        r = None
        for p, q in zip(x, y):
            t = p * q
            r = t if r is None else r + t
        return cast(0, k) if r is None else cast(r, k) if k in 'fi' else r
    if a.ndim == 1 and b.ndim == 1:
        return inner1(ab, bb)
    bt = _np.moveaxis(bb, builtins.max(0, b.ndim - 2), -1)
    sh = a.shape[:-1] + bt.shape[:-1]
    res = _np.empty(sh, dtype=object)
    for i in _np.ndindex(*a.shape[:-1]):
        for j in _np.ndindex(*bt.shape[:-1]):
            res[i + j] = inner1(ab[i], bt[j])
    if out is not None:
        out[...] = _wrap(res, k)
        return out
    return _wrap(res, k)


def vdot(a, b):
    return dot(asarr(a).ravel(), asarr(b).ravel())


def inner(a, b):
    a, b = asarr(a), asarr(b)
    return dot(a, _wrap(_np.moveaxis(b.view(_np.ndarray), -1,
                                     builtins.max(0, b.ndim - 2)), b._k))


def matmul(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    sa, sb = a.shape[:-2], b.shape[:-2]
    sh = _np.broadcast_shapes(sa, sb)
    A = _np.broadcast_to(a.view(_np.ndarray), sh + a.shape[-2:])
    B = _np.broadcast_to(b.view(_np.ndarray), sh + b.shape[-2:])
    out = _np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in _np.ndindex(*sh):
        out[i] = dot(_wrap(_np.asarray(A[i]), a._k),
                     _wrap(_np.asarray(B[i]), b._k)).view(_np.ndarray)
    return _wrap(out, promote(a._k, b._k))


def outer(a, b, out=None):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    r = ufcall('multiply', a[:, None], b[None, :])
    if out is not None:
        out[...] = r
        return out
    return r


def einsum(spec, *ops, out=None, optimize=False, **kw):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, res = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '')))
        res = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    if '.' in spec:
        raise core.EngineLimit('einsum ellipsis')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts mismatch")
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n and n != 1:
                raise ValueError("operands could not be broadcast together")
    summed = [c for c in dims if c not in res]
    k = promote(*[o._k for o in ops])
    r = _np.empty(tuple(dims[c] for c in res), dtype=object)
    for i in _np.ndindex(*r.shape):
        env = dict(zip(res, i))
        acc = None
        for j in _np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            t = None
            for s, o in zip(ins, ops):
                v = o.view(_np.ndarray)[tuple(env[c] for c in s)]
                t = v if t is None else t * v
            acc = t if acc is None else acc + t
        r[i] = cast(0, k) if acc is None else acc
    if out is not None:
        out[...] = _wrap(r, k)
        return out
    if r.shape == ():
        return r[()]
    return _wrap(r, k)


def tensordot(a, b, axes=2):
    raise core.EngineLimit('tensordot')


def trace(a, *x, **k):
    return asarr(a).diagonal().sum()


def cross(a, b):
    raise core.EngineLimit('cross')


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    d = dx if x is None else diff(x)
    return ((y[1:] + y[:-1]) / 2. * d).sum()


def interp(x, xp, fp, left=None, right=None):
    xp, fp = asarr(xp), asarr(fp)
    scalar = not isinstance(unbox(x), (_np.ndarray, list, tuple))
    xs = [unbox(x)] if scalar else list(asarr(x))
    out = []
    for v in xs:
        if bool(v <= xp[0]):
            r = fp[0] if left is None or bool(v == xp[0]) else left
        elif bool(v >= xp[-1]):
            r = fp[-1] if right is None or bool(v == xp[-1]) else right
        else:
            j = 0
            while bool(v >= xp[j + 1]):
                j += 1
            r = fp[j] + (v - xp[j]) * (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j])
        out.append(r)
    return out[0] if scalar else asarr(out, 'f')


def polyval(p, x):
    y = 0. * x
    for c in asarr(p):
        y = y * x + c
    return y


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if x._k == 'f':
        raise TypeError("Cannot cast array data from dtype('float64') to "
                        "dtype('int64') according to the rule 'safe'")
    ix = arr.concrete_idx(x)
    if (ix < 0).any():
        raise ValueError("'list' argument must have no negative elements")
    n = builtins.max(int(ix.max()) + 1 if ix.size else 0,
                     operator.index(minlength))
    if weights is None:
        return asarr(_np.bincount(ix, minlength=n))
    w = asarr(weights)
    if w.size != ix.size:
        raise ValueError("The weights and list don't have the same length.")
    out = zeros(n)
    b = out.view(_np.ndarray)
    for i, v in zip(ix, w.view(_np.ndarray)):
        b[i] = b[i] + cast(v, 'f')
    return out


def histogram(a, bins=10, range=None, density=None, weights=None):
    edges = asarr(bins)
    if edges.ndim == 0:
        raise core.EngineLimit('histogram with int bins')
    a = asarr(a)
    ix = searchsorted(edges, a, 'right') - 1
    out = zeros(edges.size - 1, dtype=float if weights is not None else int)
    w = asarr(weights) if weights is not None else None
    for q, (i, v) in enumerate(zip(ix, a)):
        i = operator.index(i)
        if i == edges.size - 1 and bool(v == edges[-1]):
            i -= 1
        if 0 <= i < edges.size - 1:
            out[i] += 1 if w is None else w[q]
    return out, edges


def convolve(a, v, mode='full'):
    a, v = asarr(a), asarr(v)
    n, m = a.size, v.size
    out = zeros(n + m - 1)
    for i in range(n):
        for j in range(m):
            out[i + j] += a[i] * v[j]
    if mode == 'full':
        return out
    if mode == 'same':
        lo = (builtins.min(n, m) - 1) // 2
        return out[lo:lo + builtins.max(n, m)]
    return out[builtins.min(n, m) - 1:builtins.max(n, m)]


def loadtxt(fname, dtype=float, *a, **k):
    from . import stubs
    return stubs.sym_loadtxt(fname, dtype, **k)


genfromtxt = loadtxt


def savetxt(*a, **k):
    return None


class _ModuleLike(types.ModuleType):
    pass


# ----------------------------------------------------------------------- fft
fft = _ModuleLike('numpy.fft')


def _rfft(x, n=None, **kw):
    x = asarr(x)
    n = x.size if n is None else operator.index(n)
    out = new((n // 2 + 1,), 'c')
    b = out.view(_np.ndarray)
    memo = {}
    xs = [x[j] for j in range(builtins.min(n, x.size))]
    for q in range(n // 2 + 1):
        ang = [-2 * _np.pi * ((q * j) % n) / n for j in range(len(xs))]
        b[q] = core.SCplx(
            core.lincomb(zip(_np.cos(ang), xs), memo),
            core.lincomb(zip(_np.sin(ang), xs), memo))
    return out


def _irfft(X, n=None, **kw):
    X = asarr(X, 'c')
    m = X.size
    n = 2 * (m - 1) if n is None else operator.index(n)
    out = new((n,), 'f')
    Xb = [core.SCplx.of(v) for v in X.view(_np.ndarray)]
    memo = {}
    for j in range(n):
        terms = [(1. / n, Xb[0].re)]
        for q in range(1, builtins.min(m, n // 2 + 1)):
            ang = 2 * _np.pi * ((q * j) % n) / n
            w = (1. if (n % 2 == 0 and q == n // 2) else 2.) / n
            terms.append((w * _np.cos(ang), Xb[q].re))
            if not (n % 2 == 0 and q == n // 2):
                terms.append((-w * _np.sin(ang), Xb[q].im))
        out[j] = core.lincomb(terms, memo)
    return out


fft.rfft = _rfft
fft.irfft = _irfft
fft.rfftfreq = lambda n, d=1.0: asarr(_np.fft.rfftfreq(operator.index(n), d))
fft.fftfreq = lambda n, d=1.0: asarr(_np.fft.fftfreq(operator.index(n), d))

# -------------------------------------------------------------------- linalg
linalg = _ModuleLike('numpy.linalg')
linalg.LinAlgError = _np.linalg.LinAlgError


def _cholesky(a):
    """Exact positive-definiteness by Cholesky's recursion."""
    a = asarr(a)
    n = a.shape[0]
    L = zeros((n, n))
    for j in range(n):
        d = a[j, j]
        for q in range(j):
            d = d - L[j, q] * L[j, q]
        if not bool(d > 0):
            raise _np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = arr.k_sqrt(d)
        for i in range(j + 1, n):
            v = a[i, j]
            for q in range(j):
                v = v - L[i, q] * L[j, q]
            L[i, j] = v / L[j, j]
    return L


linalg.cholesky = _cholesky


def _norm(a, ord=None, axis=None, keepdims=False):
    a = asarr(a)
    if ord not in (None, 2, 'fro') or (ord == 2 and a.ndim > 1
                                       and axis is None):
        raise core.EngineLimit('numpy.linalg.norm of another order')
    if axis is None:
        return arr.k_sqrt((a.ravel() * a.ravel()).sum())
    return sqrt((a * a).sum(axis, keepdims=keepdims))  # noqa: F821


linalg.norm = _norm


def _generic(fn, name):
    """Fallback: run real numpy on concretised arguments."""
    def f(*a, **k):
        if name.startswith('ma.'):
            raise core.EngineLimit('masked arrays')
        a2 = [to_real(x, 'numpy.' + name) for x in a]
        k2 = {q: to_real(v, 'numpy.' + name) for q, v in k.items()}
        return from_real(fn(*a2, **k2))
    f.__name__ = name
    return f


def _lin_getattr(n):
    if n.startswith('__'):
        raise AttributeError(n)
    return _generic(getattr(_np.linalg, n), 'linalg.' + n)


linalg.__getattr__ = _lin_getattr
fft.__getattr__ = lambda n: _generic(getattr(_np.fft, n), 'fft.' + n)


def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    v = getattr(_np, n)
    if isinstance(v, types.ModuleType):
        m = _ModuleLike('numpy.' + n)
        m.__getattr__ = lambda q: _generic(getattr(v, q), n + '.' + q) \
            if callable(getattr(v, q)) else getattr(v, q)
        return m
    if callable(v):
        if isinstance(v, type) and issubclass(v, BaseException):
            return v
        return _generic(v, n)
    return v


class _R:
    def __getitem__(self, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        parts = []
        for x in ix:
            if isinstance(x, slice):
                parts.append(arange(x.start or 0, x.stop, x.step or 1))
            else:
                parts.append(asarr(x).reshape(-1))
        return concatenate(parts)  # noqa: F821


r_ = _R()


class _C:
    def __getitem__(self, ix):
        return column_stack(ix if isinstance(ix, tuple)  # noqa: F821
                            else (ix,))


c_ = _C()


# --------------------------------------------------------------------- recfun
rf = _ModuleLike('numpy.lib.recfunctions')


def _rename_fields(base, namemapper):
    base = asarr(base)
    return SymRec({namemapper.get(n, n): c for n, c in base._c.items()},
                  base.size)


def _append_fields(base, names, data, dtypes=None, fill_value=-1,
                   usemask=True, asrecarray=False):
    base = asarr(base)
    if isinstance(names, str):
        names, data = [names], [data]
    if dtypes is not None and not isinstance(dtypes, (list, tuple)):
        dtypes = [dtypes] * len(names)
    cols = {n: c.copy() for n, c in base._c.items()}
    for i, (n, d) in enumerate(zip(names, data)):
        d = asarr(d, kind_of_dtype(dtypes[i]) if dtypes else None)
        if d.shape[0] != base.size:
            raise core.EngineLimit('append_fields with another length')
        cols[n] = d.copy()
    return SymRec(cols, base.size)


def _drop_fields(base, drop_names, usemask=True, asrecarray=False):
    base = asarr(base)
    if isinstance(drop_names, str):
        drop_names = [drop_names]
    return SymRec({n: c.copy() for n, c in base._c.items()
                   if n not in drop_names}, base.size)


def _merge_arrays(seqarrays, fill_value=-1, flatten=False, usemask=False,
                  asrecarray=False):
    if isinstance(seqarrays, SymRec):
        seqarrays = (seqarrays,)
    recs = [asarr(x) for x in seqarrays]
    n = builtins.max(r.size for r in recs)
    cols = {}
    for r in recs:
        if r.size != n:
            raise core.EngineLimit('merge_arrays with unequal lengths')
        for q, c in r._c.items():
            if q in cols:
                raise ValueError(f"field '{q}' occurs more than once")
            cols[q] = c.copy()
    return SymRec(cols, n)


def _stack_arrays(arrays, **k):
    return SymRec.concat([asarr(a) for a in arrays])


rf.rename_fields = _rename_fields
rf.append_fields = _append_fields
rf.drop_fields = _drop_fields
rf.merge_arrays = _merge_arrays
rf.rec_drop_fields = _drop_fields
rf.rec_append_fields = _append_fields
rf.stack_arrays = _stack_arrays
rf.repack_fields = lambda a, **k: asarr(a).copy()

lib = _ModuleLike('numpy.lib')
lib.recfunctions = rf
lib.stride_tricks = _ModuleLike('numpy.lib.stride_tricks')


def _windows(x, window_shape, axis=None, **k):
    x = asarr(x)
    if x.ndim != 1 or k:
        raise core.EngineLimit('sliding_window_view')
    w = operator.index(window_shape[0] if isinstance(
        window_shape, (tuple, list)) else window_shape)
    return stack([x[i:i + w] for i in range(x.size - w + 1)])  # noqa: F821


lib.stride_tricks.sliding_window_view = _windows
rec = _ModuleLike('numpy.rec')


def testing_(): pass
