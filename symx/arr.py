"""Symbolic arrays: numpy object arrays whose elements may be z3 terms."""
import builtins
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import (SNum, SBool, SStr, SCplx, is_sym, num, ite, smin, smax,
                   mkbool, bexp, s_and, s_or, cur)

np.seterr(all='ignore')


# -------------------------------------------------------------------- dtypes
class SDType:
    """Stand-in for numpy.dtype of symbolic arrays."""
    names = None
    fields = None
    subdtype = None

    def __init__(self, k, names=None, cols=None):
        self.k = k
        if names is not None:
            self.names = tuple(names)
            self.cols = cols
            self.fields = {n: (SDType(c._k) if isinstance(c, SymArray)
                               else SDType('O'), 0)
                           for n, c in (cols or {}).items()}

    @property
    def kind(self):
        if self.names:
            return 'V'
        return {'S': 'U'}.get(self.k, self.k)

    @property
    def char(self):
        return {'f': 'd', 'i': 'l', 'b': '?', 'O': 'O', 'S': 'U',
                'c': 'D'}[self.k]

    itemsize = 8

    @property
    def type(self):
        return {'f': np.float64, 'i': np.int64, 'b': np.bool_, 'O': object,
                'S': np.str_, 'c': np.complex128}[self.k]

    @property
    def str(self):
        return {'f': '<f8', 'i': '<i8', 'b': '|b1', 'O': '|O', 'S': '<U16',
                'c': '<c16'}[self.k]

    @property
    def descr(self):
        if not self.names:
            return [('', self.str)]
        out = []
        for n in self.names:
            c = self.cols[n]
            d = (n, SDType(c._k).str)
            if c.ndim > 1:
                d = d + (c.shape[1:],)
            out.append(d)
        return out

    def __getitem__(self, n):
        return self.fields[n][0]

    def newbyteorder(self, *a):
        return self

    def __eq__(self, o):
        if isinstance(o, SDType):
            return self.k == o.k and self.names == o.names
        try:
            return self.names is None and kind_of_dtype(o) == self.k
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.k, self.names))

    def __repr__(self):
        return f"SDType({self.k},{self.names})"


class Narrow(str):
    """Kind of integers of fewer than 64 bits."""

    def __new__(cls, w, signed=True):
        s = str.__new__(cls, 'i')
        s.lo = -(1 << w - 1) if signed else 0
        s.hi = s.lo + (1 << w) - 1
        return s

    def __getnewargs__(self):
        w = (self.hi - self.lo).bit_length()
        return (w, self.lo < 0)

    def wrap(self, v):
        if not isinstance(v, SNum):
            return np.int64((builtins.int(v) - self.lo)
                            % (self.hi - self.lo + 1) + self.lo)
        if bool(s_and(v >= self.lo, v <= self.hi)):
            return v
        return SNum((v.e - self.lo) % (self.hi - self.lo + 1) + self.lo, 'i')


NARROW = {(w, s): Narrow(w, s) for w in (8, 16, 32) for s in (True, False)}


def int_to_double(v):
    """Nearest double of an integer term."""
    if not core.may_be_big(v.e) or bool(
            s_and(v <= 1 << 53, v >= -(1 << 53))):
        return SNum(core.z3.ToReal(v.e), 'f')
    neg = bool(v < 0)
    e = -v.e if neg else v.e
    for b in range(53, 63):
        if b == 62 or bool(mkbool(e < (1 << b + 1))):
            break
    m = 1 << b - 52
    q, r = e / m, e % m
    up = core.z3.Or(r * 2 > m, core.z3.And(r * 2 == m, q % 2 == 1))
    q = core.z3.If(up, q + 1, q) * m
    return SNum(core.z3.ToReal(-q if neg else q), 'f')


def kind_of_dtype(t):
    if t is None:
        return None
    if isinstance(t, SDType):
        return ('rec', t.descr) if t.names else t.k
    if isinstance(t, list):
        return ('rec', t)
    n = getattr(t, '_symkind', None)
    if n is not None:
        return n
    d = np.dtype(t)
    if d.names:
        return ('rec', d.descr)
    k = d.kind
    if k in 'iu' and d.itemsize < 8:
        return NARROW[d.itemsize * 8, k == 'i']
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'U': 'S',
            'S': 'S', 'c': 'c', 'V': 'O'}[k]


def kind_of_scalar(v):
    if isinstance(v, SNum):
        return v.k
    if isinstance(v, SBool) or isinstance(v, (bool, np.bool_)):
        return 'b'
    if isinstance(v, (int, np.integer)):
        return 'i'
    if isinstance(v, (float, np.floating, Fraction)):
        return 'f'
    if isinstance(v, (SCplx, complex, np.complexfloating)):
        return 'c'
    if isinstance(v, (str, bytes, SStr)):
        return 'S'
    return 'O'


_RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'S': 4, 'O': 5}


def promote(*ks):
    ks = [k for k in ks if k]
    if not ks:
        return 'f'
    r = max(ks, key=lambda k: _RANK[k])
    if isinstance(r, Narrow) or r == 'i' and any(
            isinstance(k, Narrow) for k in ks):
        ii = [k for k in ks if k == 'i']
        if not all(isinstance(k, Narrow) for k in ii):
            return 'i'
        lo, hi = min(k.lo for k in ii), max(k.hi for k in ii)
        return min((n for n in NARROW.values() if n.lo <= lo and n.hi >= hi),
                   key=lambda n: n.hi - n.lo, default='i')
    if r == 'S' and any(k != 'S' for k in ks):
        return 'O'
    return r


def cast(v, k):
    if isinstance(k, Narrow):
        return k.wrap(cast(v, 'i'))
    if k == 'f':
        if isinstance(v, SNum):
            return v if v.k == 'f' else int_to_double(v)
        if isinstance(v, SBool):
            return cast(num(v), 'f')
        if isinstance(v, SCplx):
            return cast(v.re, 'f')
        if isinstance(v, (complex, np.complexfloating)):
            return np.float64(v.real)
        if isinstance(v, SStr):
            return np.float64(v.concrete())
        if isinstance(v, SymArray) and v.size == 1:
            return cast(v.view(np.ndarray).ravel()[0], 'f')
        return np.float64(v)
    if k == 'i':
        if isinstance(v, SNum):
            return core.trunc_int(v)
        if isinstance(v, SBool):
            return num(v)
        if isinstance(v, (float, np.floating)):
            if v != v or v in (float('inf'), float('-inf')):
                return np.int64(np.iinfo(np.int64).min)
            return np.int64(builtins.int(v))
        if isinstance(v, SymArray) and v.size == 1:
            return cast(v.view(np.ndarray).ravel()[0], 'i')
        return np.int64(v)
    if k == 'b':
        if isinstance(v, SBool):
            return v
        if isinstance(v, SNum):
            return mkbool(bexp(v))
        return np.bool_(v)
    if k == 'c':
        return v if isinstance(v, SCplx) else SCplx.of(v)
    if k == 'S':
        if isinstance(v, bytes):
            return v.decode()
        return v
    return v


def unbox(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item() if not isinstance(x, SymArray) else \
            x.view(np.ndarray)[()]
    return x


def _wrap(base, k):
    """object ndarray -> SymArray"""
    r = base.view(SymArray)
    r._k = k
    return r


def new(shape, k):
    return _wrap(np.empty(shape, dtype=object), k)


def full(shape, v, k):
    if isinstance(shape, (SNum,)):
        shape = shape.__index__()
    if isinstance(shape, SymArray):
        shape = tuple(operator.index(s) for s in shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(operator.index(s) for s in shape)
    a = np.empty(shape, dtype=object)
    a.fill(cast(v, k))
    return _wrap(a, k)


def scalar0(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return _wrap(a, kind_of_scalar(v))


def asarr(x, k=None, copy=False):
    """Convert anything array-like to SymArray (or SymRec)."""
    if isinstance(k, tuple):
        return asrec(x, k[1])
    if isinstance(x, SymRec):
        return x.copy() if copy else x
    if isinstance(x, SymRow):
        return x.as_rec()
    if isinstance(x, SymArray):
        if k is not None and k != x._k:
            return x.astype(k)
        return x.copy() if copy else x
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return SymRec({n: asarr(x[n]) for n in x.dtype.names},
                          x.size)
        kk = k or {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O',
                   'U': 'S', 'S': 'S', 'c': 'c'}[x.dtype.kind]
        out = np.empty(x.shape, dtype=object)
        flat = out.reshape(-1)
        it = x.reshape(-1)
        if x.dtype.kind == 'O':
            ks = set()
            for i in range(it.size):
                flat[i] = it[i]
                ks.add(kind_of_scalar(it[i]))
            if k is None and ks and 'O' not in ks:
                kk = promote(*ks)
        for i in range(it.size):
            flat[i] = cast(it[i], kk)
        return _wrap(out, kk)
    if isinstance(x, (list, tuple)) or (
            hasattr(x, '__iter__') and hasattr(x, '__len__')
            and not isinstance(x, (str, bytes, dict, set, SStr))
            and type(x).__module__.startswith('builtins')):
        x = list(x)
        if not x:
            return new((0,), k or 'f')
        if all(isinstance(e, SymRow) for e in x):
            return SymRec.concat([e.as_rec() for e in x])
        subs = [asarr(e) if isinstance(e, (list, tuple, np.ndarray, SymRec))
                and not isinstance(e, SymRow) else e for e in x]
        arrs = [isinstance(s, np.ndarray) and s.ndim > 0 for s in subs]
        subs = [unbox(s) for s in subs]
        if any(arrs):
            if not all(arrs) or len({s.shape for s in subs}) != 1:
                if k == 'O' or True:
                    raise ValueError(
                        "setting an array element with a sequence. The "
                        "requested array has an inhomogeneous shape")
            kk = k or promote(*[s._k for s in subs])
            out = np.empty((len(subs),) + subs[0].shape, dtype=object)
            for i, s in enumerate(subs):
                out[i] = s.astype(kk).view(np.ndarray)
            return _wrap(out, kk)
        kk = k or promote(*[kind_of_scalar(s) for s in subs])
        out = np.empty(len(subs), dtype=object)
        for i, s in enumerate(subs):
            out[i] = cast(s, kk)
        return _wrap(out, kk)
    return scalar0(cast(x, k) if k else (
        cast(x, kind_of_scalar(x)) if kind_of_scalar(x) in 'fib' else x))


def asrec(x, descr):
    if isinstance(x, (SymRec,)):
        cols = {}
        for d, n in zip(descr, x.names):
            cols[d[0]] = x._c[n].astype(kind_of_dtype(d[1]))
        return SymRec(cols, x.size)
    rows = list(x)
    cols = {}
    for j, d in enumerate(descr):
        cols[d[0]] = asarr([r[j] for r in rows], kind_of_dtype(d[1])) \
            if rows else new((0,), kind_of_dtype(d[1]))
    return SymRec(cols, len(rows))


def all_concrete(a):
    return not any(is_sym(v) for v in a.view(np.ndarray).reshape(-1))


_KT = {'f': np.float64, 'i': np.int64, 'b': np.bool_, 'O': object,
       'c': np.complex128}


def to_real(x, what='numpy'):
    """SymArray -> ordinary numpy array, concretising symbolic elements."""
    if isinstance(x, SymRec):
        dt = []
        cols = {n: to_real(c, what) for n, c in x._c.items()}
        for n, c in cols.items():
            dt.append((n, c.dtype, c.shape[1:]) if c.ndim > 1
                      else (n, c.dtype))
        out = np.empty(x.size, dtype=dt)
        for n, c in cols.items():
            out[n] = c
        return out
    if isinstance(x, SymArray):
        flat = [v for v in x.view(np.ndarray).reshape(-1)]
        if any(is_sym(v) for v in flat):
            flat = [cur().concretise(v, what) if is_sym(v) else v
                    for v in flat]
        if x._k == 'S':
            return np.array(flat, dtype=str).reshape(x.shape)
        if x._k == 'O':
            out = np.empty(len(flat), dtype=object)
            for i, v in enumerate(flat):
                out[i] = v
            return out.reshape(x.shape)
        return np.array(flat, dtype=_KT[x._k]).reshape(x.shape)
    if is_sym(x):
        return cur().concretise(x, what)
    if isinstance(x, (list, tuple)):
        return type(x)(to_real(v, what) for v in x) \
            if type(x) in (list, tuple) else x
    if isinstance(x, SDType):
        return np.dtype(x.descr) if x.names else np.dtype(x.str)
    if getattr(x, '_symkind', None):
        return {'f': float, 'i': int, 'b': bool}[x._symkind]
    return x


def from_real(x):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        return asarr(x)
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return x
        return tuple(from_real(v) for v in x)
    if isinstance(x, list):
        return [from_real(v) for v in x]
    return x


# ------------------------------------------------------------- scalar kernels
def _l(x):
    return np.float64(x) if not is_sym(x) and not isinstance(
        x, np.generic) else x


def k_sqrt(x):
    return cur().sqrt(x) if isinstance(x, (SNum, SBool)) else np.sqrt(x)


def k_uf(name, npf):
    def f(x):
        if isinstance(x, (SNum, SBool)):
            return cur().uf(name, x)
        return npf(x)
    return f


def k_isnan(x):
    if is_sym(x):
        return np.False_
    return np.isnan(x)


def k_isinf(x):
    return np.False_ if is_sym(x) else np.isinf(x)


def k_isfinite(x):
    return np.True_ if is_sym(x) else np.isfinite(x)


def k_div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    return np.true_divide(a, b)


def k_pow(a, b):
    if is_sym(a) or is_sym(b):
        return a ** b
    return np.power(a, b)


def k_floor(x):
    if isinstance(x, SNum):
        return x if x.k == 'i' else cast(x.__floor__(), 'f')
    return np.floor(x)


def k_ceil(x):
    if isinstance(x, SNum):
        return x if x.k == 'i' else cast(x.__ceil__(), 'f')
    return np.ceil(x)


def k_rint(x):
    if isinstance(x, SNum):
        return cast(round(x), 'f')
    return np.rint(x)


def k_trunc(x):
    if isinstance(x, SNum):
        return cast(core.trunc_int(x), 'f')
    return np.trunc(x)


def k_sign(x):
    if isinstance(x, SNum):
        return ite(x > 0, cast(1, x.k), ite(x < 0, cast(-1, x.k),
                                            cast(0, x.k)))
    return np.sign(x)


def k_fmin(a, b):
    if core._isnanlike(a):
        return b
    if core._isnanlike(b):
        return a
    return smin(a, b)


def k_fmax(a, b):
    if core._isnanlike(a):
        return b
    if core._isnanlike(b):
        return a
    return smax(a, b)


def k_land(a, b):
    return s_and(a, b)


def k_lor(a, b):
    return s_or(a, b)


def k_lnot(a):
    return core.s_not(a)


def k_inv(a):
    if isinstance(a, (SBool, core.SNum)):
        return ~a
    return np.invert(a)


def k_conj(a):
    return a.conjugate()


def k_hypot(a, b):
    return k_sqrt(a * a + b * b)


def k_mul(a, b):
    return a * b


def _cmp(op):
    def f(a, b):
        if isinstance(b, SStr) and isinstance(a, (str, bytes)):
            return getattr(b, {'__lt__': '__gt__', '__gt__': '__lt__',
                               '__le__': '__ge__', '__ge__': '__le__',
                               '__eq__': '__eq__', '__ne__': '__ne__'
                               }['__%s__' % op.__name__])(a)
        return op(a, b)
    return f


UF = {
    'add': (operator.add, None), 'subtract': (operator.sub, None),
    'multiply': (k_mul, None), 'divide': (k_div, 'f'),
    'true_divide': (k_div, 'f'), 'floor_divide': (operator.floordiv, None),
    'remainder': (operator.mod, None), 'mod': (operator.mod, None),
    'power': (k_pow, None), 'float_power': (k_pow, 'f'),
    'negative': (operator.neg, None), 'positive': (operator.pos, None),
    'absolute': (abs, None), 'fabs': (abs, 'f'), 'sqrt': (k_sqrt, 'f'),
    'square': (lambda x: x * x, None),
    'exp': (k_uf('exp', np.exp), 'f'), 'log': (k_uf('log', np.log), 'f'),
    'log10': (k_uf('log10', np.log10), 'f'),
    'log2': (k_uf('log2', np.log2), 'f'),
    'log1p': (k_uf('log1p', np.log1p), 'f'),
    'expm1': (k_uf('expm1', np.expm1), 'f'),
    'sin': (k_uf('sin', np.sin), 'f'), 'cos': (k_uf('cos', np.cos), 'f'),
    'tan': (k_uf('tan', np.tan), 'f'),
    'arctan2': (np.arctan2, 'f'),
    'less': (_cmp(operator.lt), 'b'), 'less_equal': (_cmp(operator.le), 'b'),
    'greater': (_cmp(operator.gt), 'b'),
    'greater_equal': (_cmp(operator.ge), 'b'),
    'equal': (_cmp(operator.eq), 'b'), 'not_equal': (_cmp(operator.ne), 'b'),
    'logical_and': (k_land, 'b'), 'logical_or': (k_lor, 'b'),
    'logical_not': (k_lnot, 'b'),
    'logical_xor': (lambda a, b: mkbool(core.z3.Xor(bexp(a), bexp(b))), 'b'),
    'bitwise_and': (operator.and_, None), 'bitwise_or': (operator.or_, None),
    'bitwise_xor': (operator.xor, None), 'invert': (k_inv, None),
    'left_shift': (operator.lshift, None),
    'right_shift': (operator.rshift, None),
    'minimum': (smin, None), 'maximum': (smax, None),
    'fmin': (k_fmin, None), 'fmax': (k_fmax, None),
    'isnan': (k_isnan, 'b'), 'isfinite': (k_isfinite, 'b'),
    'isinf': (k_isinf, 'b'), 'sign': (k_sign, None),
    'floor': (k_floor, 'f'), 'ceil': (k_ceil, 'f'), 'rint': (k_rint, 'f'),
    'trunc': (k_trunc, 'f'), 'reciprocal': (lambda x: k_div(1., x), 'f'),
    'radians': (lambda x: x * (np.pi / 180), 'f'),
    'deg2rad': (lambda x: x * (np.pi / 180), 'f'),
    'degrees': (lambda x: x * (180 / np.pi), 'f'),
    'rad2deg': (lambda x: x * (180 / np.pi), 'f'),
    'conjugate': (k_conj, None), 'hypot': (k_hypot, 'f'),
}
_INT_TO_FLOAT = set()
IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False,
         'bitwise_and': True, 'bitwise_or': False}


def ufcall(name, *inputs, out=None, where=True, dtype=None, casting=None,
           order=None, subok=True, **kw):
    fn, kk = UF[name]
    if any(isinstance(x, SymRec) for x in inputs):
        return rec_compare(name, *inputs)
    raw = [unbox(x) for x in inputs]
    arrs = [asarr(x) for x in raw]
    anyarr = any(isinstance(x, (np.ndarray, list, tuple)) for x in raw)
    if kk is None:
        kk = promote(*[a._k for a in arrs])
        if kk == 'b' and name in ('add', 'multiply'):
            fn = {'add': k_lor, 'multiply': k_land}[name]
        elif kk == 'b' and name in ('subtract', 'negative'):
            raise TypeError("numpy boolean subtract, the `-` operator, is not "
                            "supported, use the bitwise_xor, the `^` operator,"
                            " or the logical_xor function instead.")
        elif kk == 'b' and name in ('power', 'square', 'absolute', 'sign',
                                    'floor_divide', 'remainder'):
            kk = 'i'
        if kk == 'S':
            kk = 'O'
        if kk == 'f' and name.startswith('bitwise'):
            raise TypeError(f"ufunc '{name}' not supported for the input types")
    if dtype is not None:
        kk = kind_of_dtype(dtype)
    b = np.broadcast(*[a.view(np.ndarray) for a in arrs]) \
        if len(arrs) > 1 else arrs[0].view(np.ndarray)
    shape = b.shape
    bs = [np.broadcast_to(a.view(np.ndarray), shape) for a in arrs]
    if core.BIG and len(arrs) == 2 and {a._k for a in arrs} == {'f', 'i'}:
        # integers are converted to double first
        bs = [x if a._k == 'f' else
              np.broadcast_to(a.astype('f').view(np.ndarray), shape)
              for a, x in zip(arrs, bs)]
    outarr = None
    if out is not None:
        outarr = out[0] if isinstance(out, tuple) else out
    if where is not True and where is not np.True_:
        wh = np.broadcast_to(concrete_mask(asarr(where)), shape)
    else:
        wh = None
    res = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        if wh is not None and not wh[i]:
            if outarr is not None:
                res[i] = np.broadcast_to(outarr.view(np.ndarray), shape)[i]
            else:
                res[i] = undef(kk)
            continue
        res[i] = cast(fn(*[x[i] for x in bs]), kk) if kk in 'fib' \
            else fn(*[x[i] for x in bs])
    if outarr is not None:
        if not isinstance(outarr, SymArray):
            raise core.EngineLimit('ufunc into a plain numpy array')
        if _RANK[kk] > _RANK[outarr._k]:
            raise np.core._exceptions._UFuncOutputCastingError(
                getattr(np, name), 'same_kind', np.dtype('f8'),
                np.dtype('i8'), 0) if False else TypeError(
                f"Cannot cast ufunc '{name}' output from kind {kk} to "
                f"{outarr._k} with casting rule 'same_kind'")
        if outarr.shape != shape:
            raise ValueError(
                f"non-broadcastable output operand with shape {outarr.shape} "
                f"doesn't match the broadcast shape {shape}")
        base = outarr.view(np.ndarray)
        for i in np.ndindex(*shape):
            base[i] = cast(res[i], outarr._k)
        return outarr
    if not anyarr or shape == ():
        return res[()]
    return _wrap(res, kk)


def undef(k):
    """An arbitrary value (uninitialised memory)."""
    if k == 'f':
        return cur().fresh('undef', 'f')
    if k == 'i':
        return cur().fresh('undef', 'i')
    if k == 'b':
        return mkbool(cur().fresh('undef', 'i').e > 0)
    return None


def reduce_(name, a, axis=None, dtype=None, out=None, keepdims=False,
            initial=None, where=True):
    fn, kk = UF[name]
    a = asarr(a)
    k = a._k
    if where is not True:
        w = np.broadcast_to(concrete_mask(asarr(where)), a.shape)
    else:
        w = None
    if name in ('add', 'multiply') and k == 'b':
        k = 'i'
    if kk in ('b',):
        k = 'b'
    if dtype is not None:
        k = kind_of_dtype(dtype)
    base = a.view(np.ndarray)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = tuple(x % a.ndim for x in (
            axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(a.ndim) if i not in axes]
    t = base.transpose(rest + list(axes)).reshape(
        tuple(a.shape[i] for i in rest) + (-1,)) if a.size else None
    shape = tuple(a.shape[i] for i in rest)
    if w is not None and a.size:
        w = w.transpose(rest + list(axes)).reshape(shape + (-1,))
    res = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        acc = None if initial is None else initial
        if acc is None and name in IDENT:
            acc = IDENT[name]
        vals = t[i] if a.size else []
        if name == 'add' and k in 'fi' and acc == 0:
            syms, con = [], None
            for j, v in enumerate(vals):
                if w is not None and not w[i][j]:
                    continue
                v = cast(v, k)
                con = v if con is None else con + v
            res[i] = cast(0, k) if con is None else con
            continue
        first = acc is None
        for j, v in enumerate(vals):
            if w is not None and not w[i][j]:
                continue
            if first:
                acc, first = v, False
            else:
                acc = fn(acc, v)
        if first:
            raise ValueError(
                f"zero-size array to reduction operation {name} which has no "
                "identity")
        res[i] = cast(acc, k) if k in 'fib' else acc
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else n
                                for i, n in enumerate(a.shape)))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = _wrap(res, k)
        return o
    if res.shape == ():
        return res[()]
    return _wrap(res, k)


def concrete_mask(a):
    """bool array of a boolean SymArray, forking on undecided elements."""
    base = a.view(np.ndarray) if isinstance(a, np.ndarray) else np.array(a)
    out = np.empty(base.shape, dtype=bool)
    for i in np.ndindex(*base.shape):
        out[i] = bool(base[i])
    return out


def concrete_idx(a):
    base = a.view(np.ndarray)
    out = np.empty(base.shape, dtype=np.intp)
    for i in np.ndindex(*base.shape):
        out[i] = operator.index(base[i])
    return out


def norm_index(ix):
    if isinstance(ix, tuple):
        return tuple(norm_index(i) for i in ix)
    if isinstance(ix, SymArray):
        if ix.ndim == 0:
            return norm_index(ix.view(np.ndarray)[()])
        if ix._k == 'b':
            return concrete_mask(ix)
        if ix._k == 'i':
            return concrete_idx(ix)
        if ix.size == 0:
            return np.zeros(ix.shape, dtype=np.intp) if ix._k != 'f' else \
                _raise(IndexError("arrays used as indices must be of integer "
                                  "(or boolean) type"))
        if ix._k == 'O' and all(isinstance(v, (int, np.integer, SNum))
                                for v in ix.view(np.ndarray).ravel()):
            return concrete_idx(ix)
        raise IndexError(
            "arrays used as indices must be of integer (or boolean) type")
    if isinstance(ix, list):
        if not ix:
            return np.zeros(0, dtype=np.intp)
        return norm_index(asarr(ix))
    if isinstance(ix, SNum):
        if ix.k != 'i':
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        return ix.__index__()
    if isinstance(ix, SBool):
        return np.bool_(bool(ix))
    if isinstance(ix, slice):
        return slice(*[None if v is None else operator.index(v)
                       for v in (ix.start, ix.stop, ix.step)])
    if isinstance(ix, (float, np.floating)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                         "numpy.newaxis (`None`) and integer or boolean "
                         "arrays are valid indices")
    return ix


def _raise(e):
    raise e


class SymArray(np.ndarray):
    _k = 'f'

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', 'f')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if name == 'matmul':
            from . import npshim
            return npshim.matmul(*inputs)
        if name not in UF:
            raise core.EngineLimit(f'ufunc {name}')
        if method == '__call__':
            return ufcall(name, *inputs, **kw)
        if method == 'reduce':
            return reduce_(name, *inputs, **kw)
        if method == 'accumulate':
            return accumulate(name, *inputs, **kw)
        if method == 'outer':
            a, b = [asarr(i) for i in inputs]
            return ufcall(name, a.reshape(a.shape + (1,) * b.ndim), b)
        if method == 'at':
            at_(name, *inputs)
            return None
        raise core.EngineLimit(f'ufunc method {method}')

    def _ip(name):
        def f(self, o):
            if isinstance(o, SymRec):
                return NotImplemented
            ufcall(name, self, o, out=self)
            return self
        return f
    __iadd__, __isub__, __imul__, __itruediv__, __ifloordiv__, __imod__, \
        __ipow__, __iand__, __ior__, __ixor__ = map(_ip, (
            'add', 'subtract', 'multiply', 'divide', 'floor_divide',
            'remainder', 'power', 'bitwise_and', 'bitwise_or',
            'bitwise_xor'))
    del _ip

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        f = getattr(npshim, func.__name__, None)
        if f is None:
            raise core.EngineLimit(f'numpy function {func.__name__}')
        return f(*args, **kwargs)

    # --- basic protocol
    @property
    def dtype(self):
        return SDType(self._k)

    def __getitem__(self, ix):
        if isinstance(ix, str):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        r = np.ndarray.__getitem__(self, norm_index(ix))
        if isinstance(r, np.ndarray) and not isinstance(r, SymArray):
            return r
        return r

    def __setitem__(self, ix, v):
        ix = norm_index(ix)
        k = self._k
        base = self.view(np.ndarray)
        if isinstance(v, (list, tuple, np.ndarray)):
            v = asarr(v)
            if v.ndim == 0:
                v = v.view(np.ndarray)[()]
                base[ix] = cast(v, k) if k != 'O' else v
                return
            if k != 'O' and not isinstance(base[ix], np.ndarray):
                if v.size != 1:
                    raise ValueError(
                        "setting an array element with a sequence.")
                base[ix] = cast(v.view(np.ndarray).ravel()[0], k)
                return
            src = np.empty(v.shape, dtype=object)
            vb = v.view(np.ndarray)
            for i in np.ndindex(*v.shape):
                src[i] = cast(vb[i], k)
            base[ix] = src
            return
        tgt = base[ix]
        c = cast(v, k)
        if isinstance(tgt, np.ndarray):
            src = np.empty((), dtype=object)
            src[()] = c
            base[ix] = src
        else:
            base[ix] = c

    def __contains__(self, x):
        if core.BIG and self._k == 'f' and kind_of_scalar(x) == 'i':
            x = cast(x, 'f')
        return bool(s_or(*[UF['equal'][0](v, x) for v in
                           self.view(np.ndarray).ravel()]))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        return bool(self.view(np.ndarray).ravel()[0])

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python "
                            "scalars")
        return self.view(np.ndarray).ravel()[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self._k != 'i' or self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a "
                            "scalar index")
        return operator.index(self._one())

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __str__(self):
        return '[' + ' '.join(str(v) for v in
                              self.view(np.ndarray).ravel()) + ']'

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise core.EngineLimit('pickle of a symbolic array')

    # comparisons with None / str
    def __eq__(self, o):
        if o is None:
            return ufcall('equal', self, scalar0(None)) if self._k == 'O' \
                else full(self.shape, False, 'b')
        return ufcall('equal', self, o if not isinstance(o, (str, SStr))
                      else scalar0(o))

    def __ne__(self, o):
        if o is None:
            return full(self.shape, True, 'b')
        return ufcall('not_equal', self, o if not isinstance(o, (str, SStr))
                      else scalar0(o))

    # --- methods
    def astype(self, t, *a, copy=True, **kw):
        k = t if t in ('f', 'i', 'b', 'O', 'S', 'c') else kind_of_dtype(t)
        out = np.empty(self.shape, dtype=object)
        b = self.view(np.ndarray)
        for i in np.ndindex(*self.shape):
            out[i] = cast(b[i], k)
        return _wrap(out, k)

    def copy(self, order='C'):
        return _wrap(self.view(np.ndarray).copy(), self._k)

    __copy__ = copy

    def view(self, *a, **kw):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if not a or (isinstance(a[0], type) and issubclass(a[0], np.ndarray)):
            return np.ndarray.view(self, SymArray)
        return self

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_('add', self, axis, dtype, out, keepdims, **kw)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_('multiply', self, axis, dtype, out, keepdims, **kw)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('logical_or', self, axis, None, out, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('logical_and', self, axis, None, out, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('minimum', self, axis, None, out, keepdims, **kw)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('maximum', self, axis, None, out, keepdims, **kw)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        s = self.astype('f').sum(axis, keepdims=keepdims)
        n = self.size if axis is None else self.shape[axis]
        if n == 0:
            return np.float64('nan')
        return s / np.float64(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = self.mean(axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis, keepdims=keepdims) / np.float64(n - ddof)

    def std(self, *a, **k):
        return ufcall('sqrt', self.var(*a, **k))

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmin(self, axis=None, **kw):
        return _arg(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **kw):
        return _arg(self, axis, lambda a, b: a > b)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        from . import npshim
        self[...] = npshim.sort(self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate('add', self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate('multiply', self, axis)

    def dot(self, o):
        from . import npshim
        return npshim.dot(self, o)

    def __matmul__(self, o):
        from . import npshim
        return npshim.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npshim
        return npshim.matmul(o, self)

    def fill(self, v):
        b = self.view(np.ndarray)
        c = cast(v, self._k)
        for i in np.ndindex(*self.shape):
            b[i] = c

    def nonzero(self):
        m = concrete_mask(self.astype('b'))
        return tuple(asarr(i) for i in np.nonzero(m))

    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None:
            r = ufcall('maximum', r, min)
        if max is not None:
            r = ufcall('minimum', r, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def round(self, decimals=0, out=None):
        from . import npshim
        return npshim.round(self, decimals)

    def tolist(self):
        def py(v):
            if isinstance(v, np.generic):
                return v.item()
            return v
        if self.ndim == 0:
            return py(self.view(np.ndarray)[()])
        return [x.tolist() if isinstance(x, SymArray) else py(x)
                for x in self]

    def item(self, *a):
        if a:
            return self.view(np.ndarray).item(*a)
        return self._one()

    def searchsorted(self, v, side='left', sorter=None):
        from . import npshim
        return npshim.searchsorted(self, v, side, sorter)

    def repeat(self, n, axis=None):
        from . import npshim
        return npshim.repeat(self, n, axis)

    def take(self, idx, axis=None, **kw):
        from . import npshim
        return npshim.take(self, idx, axis)

    def trace(self, *a, **k):
        from . import npshim
        return npshim.trace(self)

    def diagonal(self, *a, **k):
        return _wrap(self.view(np.ndarray).diagonal(*a, **k).copy(), self._k)

    def conj(self):
        return ufcall('conjugate', self)

    conjugate = conj

    @property
    def real(self):
        if self._k != 'c':
            return self
        return asarr([v.re for v in self.view(np.ndarray).ravel()],
                     'f').reshape(self.shape)

    @property
    def imag(self):
        if self._k != 'c':
            return full(self.shape, 0., 'f')
        return asarr([v.im for v in self.view(np.ndarray).ravel()],
                     'f').reshape(self.shape)

    @property
    def nbytes(self):
        return 8 * self.size

    def tobytes(self, *a):
        raise core.EngineLimit('tobytes of symbolic array')

    def byteswap(self, *a):
        return self.copy()

    def newbyteorder(self, *a):
        return self


def _arg(a, axis, better):
    b = a.view(np.ndarray)
    if axis is None:
        flat = b.reshape(-1)
        if flat.size == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        best = 0
        for i in range(1, flat.size):
            if bool(better(flat[i], flat[best])):
                best = i
        return np.int64(best)
    m = np.moveaxis(b, axis, -1)
    out = new(m.shape[:-1], 'i')
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = _arg(_wrap(np.asarray(m[i]), a._k), None, better)
    return out


def lex_less(x, y):
    """x < y lexicographically for tuples of scalars -> bool-like."""
    lt = UF['less'][0]
    eq = UF['equal'][0]
    res = lt(x[-1], y[-1])
    for a, b in zip(reversed(x[:-1]), reversed(y[:-1])):
        res = s_or(lt(a, b), s_and(eq(a, b), res))
    return res


def sorted_idx(keys):
    """Stable argsort of a list of tuples."""
    order = []
    for i in range(len(keys)):
        j = len(order)
        while j > 0 and bool(lex_less(keys[i], keys[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return order


def argsort(a, axis=-1):
    a = asarr(a)
    b = a.view(np.ndarray)
    if a.ndim == 1:
        return asarr(sorted_idx([(v,) for v in b]), 'i')
    m = np.moveaxis(b, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        for j, v in enumerate(sorted_idx([(v,) for v in m[i]])):
            out[i + (j,)] = np.int64(v)
    return _wrap(np.moveaxis(out, -1, axis), 'i')


def accumulate(name, a, axis=0, **kw):
    fn, _ = UF[name]
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    k = 'i' if a._k == 'b' and name == 'add' else a._k
    m = np.moveaxis(a.view(np.ndarray), axis, 0).copy()
    for i in np.ndindex(*m.shape[1:]):
        if m.shape[0]:
            m[(0,) + i] = cast(m[(0,) + i], k)
        for j in range(1, m.shape[0]):
            m[(j,) + i] = cast(fn(m[(j - 1,) + i], m[(j,) + i]), k)
    return _wrap(np.moveaxis(m, 0, axis), k)


def at_(name, a, idx, v=None):
    fn, _ = UF[name]
    ii = norm_index(idx if isinstance(idx, (tuple, SymArray, list, slice, int))
                    else idx)
    pos = np.arange(a.size).reshape(a.shape)[ii]
    base = a.view(np.ndarray)
    if v is None:
        for p in np.ravel(pos):
            q = np.unravel_index(p, a.shape)
            base[q] = cast(fn(base[q]), a._k)
        return
    vv = np.broadcast_to(asarr(v).view(np.ndarray), np.shape(pos))
    for p, x in zip(np.ravel(pos), vv.reshape(-1)):
        q = np.unravel_index(p, a.shape)
        base[q] = cast(fn(base[q], x), a._k)


# --------------------------------------------------------- structured arrays
class SymRow:
    """One row (numpy.void) of a SymRec."""
    __array_ufunc__ = None
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, rec, i):
        self._r, self._i = rec, i

    @property
    def dtype(self):
        return self._r.dtype

    def _name(self, n):
        return n if isinstance(n, str) else self._r.names[operator.index(n)]

    def __getitem__(self, n):
        if isinstance(n, (list, tuple)):
            return SymRow(self._r[list(n)], self._i)
        n = self._name(n)
        if n not in self._r._c:
            raise ValueError(f"no field of name {n}")
        return self._r._c[n][self._i]

    def __setitem__(self, n, v):
        self._r._c[self._name(n)][self._i] = v

    def __len__(self):
        return len(self._r.names)

    def __iter__(self):
        return iter([self[n] for n in self._r.names])

    def as_rec(self):
        return self._r[self._i:self._i + 1].copy()

    def copy(self):
        return SymRow(self.as_rec(), 0)

    def item(self):
        return tuple(self)

    tolist = item

    def __eq__(self, o):
        return s_and(*[self[n] == o[n] for n in self._r.names])

    def __ne__(self, o):
        return core.s_not(self == o)

    def __hash__(self):
        return hash(tuple(self))


class SymRec:
    """1-d structured array."""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, cols, size=None):
        self._c = dict(cols)
        self._n = size if size is not None else len(
            next(iter(self._c.values())))

    names = property(lambda s: tuple(s._c))

    @property
    def dtype(self):
        return SDType('O', self.names, self._c)

    @property
    def size(self):
        return self._n

    @property
    def shape(self):
        return (self._n,)

    def __len__(self):
        return self._n

    @property
    def T(self):
        return self

    def __getitem__(self, ix):
        if isinstance(ix, str):
            if ix not in self._c:
                raise ValueError(f"no field of name {ix}")
            return self._c[ix]
        if isinstance(ix, list) and ix and isinstance(ix[0], str):
            for n in ix:
                if n not in self._c:
                    raise KeyError(n)
            return SymRec({n: self._c[n] for n in ix}, self._n)
        ix = norm_index(ix)
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if isinstance(ix, (int, np.integer)):
            if not -self._n <= ix < self._n:
                raise IndexError(f"index {ix} is out of bounds for axis 0 with"
                                 f" size {self._n}")
            return SymRow(self, int(ix) % self._n)
        n = len(np.arange(self._n)[ix])
        return SymRec({k: c[ix] for k, c in self._c.items()}, n)

    def __setitem__(self, ix, v):
        if isinstance(ix, str):
            if ix not in self._c:
                raise ValueError(f"no field of name {ix}")
            self._c[ix][...] = v
            return
        if isinstance(v, (SymRec, SymRow)):
            for n, m in zip(self.names, v.dtype.names):
                self._c[n][ix] = v[m]
            return
        if isinstance(v, tuple):
            for n, x in zip(self.names, v):
                self._c[n][ix] = x
            return
        raise core.EngineLimit('structured assignment')

    def __iter__(self):
        for i in range(self._n):
            yield SymRow(self, i)

    def copy(self, *a, **k):
        return SymRec({n: c.copy() for n, c in self._c.items()}, self._n)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        return self

    def ravel(self):
        return self

    flatten = copy

    def reshape(self, *a):
        return self

    def astype(self, dt, *a, **k):
        kd = kind_of_dtype(dt)
        return asrec(self, kd[1])

    def _keys(self, order=None):
        if order is None:
            order = self.names
        if isinstance(order, str):
            order = [order]
        for n in order:
            if n not in self._c:
                raise ValueError(f"unknown field name: {n}")
        order = list(order) + [n for n in self.names if n not in order]
        order = [n for n in order if self._c[n].ndim == 1]
        return [tuple(self._c[n].view(np.ndarray)[i] for n in order)
                for i in range(self._n)], order

    def argsort(self, axis=-1, kind=None, order=None):
        # numpy breaks remaining ties by the other fields
        keys, _ = self._keys(order)
        if order is not None:
            nk = 1 if isinstance(order, str) else len(order)
            head = sorted_idx([k[:nk] for k in keys])
            # if some keys tie, use the full key
            for a, b in zip(head, head[1:]):
                eq = s_and(*[UF['equal'][0](x, y) for x, y in
                             zip(keys[a][:nk], keys[b][:nk])])
                if bool(eq):
                    head = sorted_idx(keys)
                    break
            return asarr(head, 'i')
        return asarr(sorted_idx(keys), 'i')

    def sort(self, axis=-1, kind=None, order=None):
        ix = self.argsort(order=order)
        new_ = self[ix]
        for n in self.names:
            self._c[n][...] = new_._c[n]

    def tolist(self):
        return [tuple(r) for r in self]

    def take(self, ix, *a, **k):
        return self[ix]

    @staticmethod
    def concat(recs):
        names = recs[0].names
        out = {}
        for n in names:
            parts = [r._c[n] for r in recs]
            k = promote(*[p._k for p in parts])
            out[n] = _wrap(np.concatenate(
                [p.view(np.ndarray) for p in parts]), k)
        return SymRec(out, sum(r.size for r in recs))

    def __eq__(self, o):
        return rec_compare('equal', self, o)

    def __ne__(self, o):
        return rec_compare('not_equal', self, o)

    def __hash__(self):
        raise TypeError('unhashable')

    def __str__(self):
        return f"<rec {self.names} n={self._n}>"

    __repr__ = __str__


def rec_compare(name, a, b):
    a, b = asarr(a), asarr(b)
    out = new((a.size,), 'b')
    for i in range(a.size):
        v = s_and(*[UF['equal'][0](a._c[n][i], b._c[n][i % b.size])
                    for n in a.names])
        out[i] = v if name == 'equal' else core.s_not(v)
    return out
