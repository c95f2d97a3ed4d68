"""Symbolic scalars, path exploration and solver queries.

The code under test is executed by the ordinary Python interpreter; values that
come from the harness are symbolic objects (SNum, SBool, SStr) that build z3
terms.  Whenever the interpreter needs a concrete truth value (``if``, ``while``,
index, ...) the engine asks the solver which outcomes are possible under the
current path condition and explores every one of them by re-execution.
"""
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np  # noqa: E402
import z3  # noqa: E402

z3.set_param('memory_high_watermark_mb', 3000)


# ---------------------------------------------------------------- control flow
class Control(BaseException):
    """Engine control flow. Never caught by `except Exception`."""


class PathEnd(Control):
    """The path is abandoned: assumption false / infeasible."""


class Budget(Control):
    """The exploration budget is spent."""


class Stop(Control):
    """Concrete replay: stop (assumption false)."""


class EngineLimit(Control):
    """The encoding does not support something on this path."""


CUR = None  # current Engine


def cur():
    if CUR is None:
        raise RuntimeError("symbolic value used outside of an engine")
    return CUR


def frac(x):
    if isinstance(x, Fraction):
        return x
    return Fraction(float(x))


_RV = {}


def rv(x):
    """Exact RealVal of a python number."""
    f = frac(x) if not isinstance(x, int) else Fraction(x)
    r = _RV.get(f)
    if r is None:
        r = z3.RealVal(f"{f.numerator}/{f.denominator}")
        _RV[f] = r
    return r


def linform(e, memo):
    """Linear form of a real term: (constant, {atom id: (coef, atom)})."""
    i = e.get_id()
    hit = memo.get(i)
    if hit is not None:
        return hit[0]
    r = None
    if z3.is_rational_value(e):
        r = (Fraction(e.numerator_as_long(), e.denominator_as_long()), {})
    elif z3.is_app(e):
        k, ch = e.decl().kind(), e.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            c, d = linform(ch[0], memo)
            d = dict(d)
            sg = 1 if k == z3.Z3_OP_ADD else -1
            for q in ch[1:]:
                c2, d2 = linform(q, memo)
                c = c + sg * c2
                _lin_into(d, d2, sg)
            r = (c, d)
        elif k == z3.Z3_OP_UMINUS:
            c, d = linform(ch[0], memo)
            r = (-c, {a: (-v, t) for a, (v, t) in d.items()})
        elif k == z3.Z3_OP_MUL and len(ch) == 2:
            for x, y in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_rational_value(x):
                    f = Fraction(x.numerator_as_long(),
                                 x.denominator_as_long())
                    c, d = linform(y, memo)
                    r = (f * c, {a: (f * v, t) for a, (v, t) in d.items()})
                    break
    if r is None:
        r = (Fraction(0), {i: (Fraction(1), e)})
    memo[i] = (r, e)
    return r


def _lin_into(d, d2, f):
    for a, (v, t) in d2.items():
        w = f * v + (d[a][0] if a in d else 0)
        if w == 0:
            d.pop(a, None)
        else:
            d[a] = (w, t)


def lincomb(terms, memo):
    """sum of coef * x over (coef, x) with concrete coefs, collected."""
    c, d = Fraction(0), {}
    flt, sym = 0.0, False
    for f, x in terms:
        if not is_sym(x):
            x = float(x)
            if x != x or x in (float('inf'), float('-inf')):
                return np.float64(np.nan)
            flt += float(f) * x
            c += Fraction(float(f)) * Fraction(x)
            continue
        sym = True
        f = Fraction(float(f))
        c2, d2 = linform(num(x).real(), memo)
        c += f * c2
        _lin_into(d, d2, f)
    if not sym:
        return np.float64(flt)
    if not d:
        return np.float64(float(c))
    ts = [_rq(v) * t for v, t in d.values()]
    if c != 0:
        ts.append(_rq(c))
    return SNum(z3.Sum(*ts) if len(ts) > 1 else ts[0], 'f')


def _rq(f):
    """Rational constant, rounded to a double when it needs many digits."""
    if f.denominator.bit_length() > 200:
        f = Fraction(float(f))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def mentions(e, prefixes, limit=20000):
    """Does the term use a symbol with one of these name prefixes?"""
    seen, todo = set(), [e]
    while todo and len(seen) < limit:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    x.decl().name().startswith(prefixes):
                return True
            todo.extend(x.children())
    return False


def model_to_py(v):
    """z3 model value -> python Fraction / int / bool."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(60)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


# -------------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SNum, SBool, SStr, SCplx))


def _isnanlike(x):
    return isinstance(x, (float, np.floating)) and (x != x)


def _isinflike(x):
    return isinstance(x, (float, np.floating)) and (
        x == float('inf') or x == float('-inf'))


def _bits(x, c):
    """x & c of two's complement integers, for a constant c >= 0."""
    out, lo = z3.IntVal(0), 0
    while c >> lo:
        if not (c >> lo) & 1:
            lo += 1
            continue
        hi = lo
        while (c >> hi) & 1:
            hi += 1
        out = out + (x / z3.IntVal(1 << lo)) % z3.IntVal(1 << (hi - lo)) \
            * z3.IntVal(1 << lo)
        lo = hi
    return out


def num(x):
    """SNum view of a number-like (SBool, python, numpy)."""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return SNum(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), 'i')
    if isinstance(x, (bool, np.bool_)):
        return SNum(z3.IntVal(int(x)), 'i')
    if isinstance(x, (int, np.integer)):
        return SNum(z3.IntVal(int(x)), 'i')
    if isinstance(x, Fraction):
        return SNum(rv(x), 'f')
    return SNum(rv(float(x)), 'f')


def _coerce(a, b):
    a, b = num(a), num(b)
    if a.k == b.k:
        return a.e, b.e, a.k
    return a.real(), b.real(), 'f'


_NUMT = (int, float, bool, np.integer, np.floating, np.bool_, Fraction)


def _scal(o):
    """0-d / SymArray etc are not scalars."""
    return isinstance(o, _NUMT) or isinstance(o, (SNum, SBool))


class _NPScalarAPI:
    __slots__ = ()
    __array_ufunc__ = None
    ndim = 0
    shape = ()
    size = 1
    nbytes = 8

    def copy(self):
        return self

    def item(self):
        return self

    def ravel(self):
        from . import arr
        return arr.asarr([self])

    flatten = ravel

    def sum(self, *a, **k):
        return self

    max = min = mean = sum

    def reshape(self, *shape):
        return self.ravel().reshape(*shape)

    def any(self, *a, **k):
        return self != 0

    all = any

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SBool(_NPScalarAPI):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def _c(self, o):
        if isinstance(o, SBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        if isinstance(o, (int, np.integer)) and int(o) in (0, 1):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else np.False_
        c = self._c(o)
        if c is None:
            return _arrop(self, o, '__and__')
        return SBool(z3.And(self.e, c))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return np.True_ if o else self
        c = self._c(o)
        if c is None:
            return _arrop(self, o, '__or__')
        return SBool(z3.Or(self.e, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._c(o)
        if c is None:
            return _arrop(self, o, '__xor__')
        return SBool(z3.Xor(self.e, c))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        c = self._c(o)
        if c is None:
            if _scal(o):
                return num(self) == o
            return _arrop(self, o, '__eq__')
        return SBool(self.e == c)

    def __ne__(self, o):
        c = self._c(o)
        if c is None:
            if _scal(o):
                return num(self) != o
            return _arrop(self, o, '__ne__')
        return SBool(self.e != c)

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return num(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return num(self) - o

    def __rsub__(self, o):
        return o - num(self)

    def __mul__(self, o):
        return num(self) * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return num(self) / o

    def __rtruediv__(self, o):
        return o / num(self)

    def __lt__(self, o):
        return num(self) < o

    def __le__(self, o):
        return num(self) <= o

    def __gt__(self, o):
        return num(self) > o

    def __ge__(self, o):
        return num(self) >= o

    def __neg__(self):
        return -num(self)

    def __abs__(self):
        return num(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return cur().token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return cur().token(self)

    def any(self, *a, **k):
        return self

    all = any

    def sum(self, *a, **k):
        return num(self)

    def astype(self, t, **k):
        from . import arr
        return arr.cast(self, arr.kind_of_dtype(t))

    @property
    def dtype(self):
        from . import arr
        return arr.SDType('b')


def _arrop(a, o, name):
    """Scalar (op) array: elementwise."""
    if isinstance(o, np.ndarray):
        from . import arr
        r = getattr(arr.scalar0(a), name)(arr.asarr(o))
        return r
    return NotImplemented


class SNum(_NPScalarAPI):
    __slots__ = ('e', 'k')

    def __init__(self, e, k):
        self.e = e
        self.k = k

    def real(self):
        return self.e if self.k == 'f' else z3.ToReal(self.e)

    # --- arithmetic
    def __add__(self, o):
        if not _scal(o):
            return _oth(self, o, '__add__')
        if _isnanlike(o) or _isinflike(o):
            return np.float64(o)
        if not is_sym(o) and o == 0:
            return _keepk(self, o)
        a, b, k = _coerce(self, o)
        return SNum(a + b, k)
    __radd__ = __add__

    def __sub__(self, o):
        if not _scal(o):
            return _oth(self, o, '__sub__')
        if _isnanlike(o) or _isinflike(o):
            return np.float64(-o)
        if not is_sym(o) and o == 0:
            return _keepk(self, o)
        if isinstance(o, SNum) and o.e.eq(self.e):
            return np.float64(0) if self.k == 'f' else np.int64(0)
        a, b, k = _coerce(self, o)
        return SNum(a - b, k)

    def __rsub__(self, o):
        if not _scal(o):
            return _oth(self, o, '__rsub__')
        if _isnanlike(o) or _isinflike(o):
            return np.float64(o)
        b, a, k = _coerce(self, o)
        return SNum(a - b, k)

    def __mul__(self, o):
        if not _scal(o):
            return _oth(self, o, '__mul__')
        if _isnanlike(o):
            return np.float64('nan')
        if _isinflike(o):
            if self == 0:
                return np.float64('nan')
            return np.float64(o) if self > 0 else np.float64(-o)
        if not is_sym(o):
            if o == 0:
                return np.float64(0) if (
                    self.k == 'f' or isinstance(o, (float, np.floating))) \
                    else np.int64(0)
            if o == 1:
                return _keepk(self, o)
        a, b, k = _coerce(self, o)
        return SNum(a * b, k)
    __rmul__ = __mul__

    def _div(self, a, b):
        """a / b with numpy semantics; at least one symbolic."""
        if _isnanlike(a) or _isnanlike(b):
            return np.float64('nan')
        if _isinflike(b):
            return np.float64('nan') if _isinflike(a) else np.float64(0)
        if _isinflike(a):
            return np.float64(a) if num(b) >= 0 else np.float64(-a)
        bz = (b == 0)
        if bool(bz):
            if bool(a == 0):
                return np.float64('nan')
            return np.float64('inf') if bool(a > 0) else np.float64('-inf')
        if not is_sym(a) and a == 0:
            return np.float64(0)
        ra, rb = num(a).real(), num(b).real()
        if not is_sym(b):
            fb = frac(b)
            if fb == 1:
                return SNum(ra, 'f')
            return SNum(ra * rv(1 / fb), 'f')
        if ra.eq(rb):
            return np.float64(1)
        return SNum(ra / rb, 'f')

    def __truediv__(self, o):
        if not _scal(o):
            return _oth(self, o, '__truediv__')
        return self._div(self, o)

    def __rtruediv__(self, o):
        if not _scal(o):
            return _oth(self, o, '__rtruediv__')
        return self._div(o, self)

    def _fdiv(self, a, b):
        if bool(b == 0):
            return np.float64('nan') if (
                num(a).k == 'f' or num(b).k == 'f') else np.int64(0)
        na, nb = num(a), num(b)
        if na.k == 'i' and nb.k == 'i':
            # z3 div: floor for positive divisor, ceil-like for negative
            if bool(nb > 0):
                return SNum(na.e / nb.e, 'i')
            return SNum((-na.e) / (-nb.e), 'i')
        q = num(na / nb)
        return SNum(z3.ToReal(z3.ToInt(q.real())), 'f')

    def __floordiv__(self, o):
        if not _scal(o):
            return _oth(self, o, '__floordiv__')
        return self._fdiv(self, o)

    def __rfloordiv__(self, o):
        if not _scal(o):
            return _oth(self, o, '__rfloordiv__')
        return self._fdiv(o, self)

    def __mod__(self, o):
        if not _scal(o):
            return _oth(self, o, '__mod__')
        return self - self._fdiv(self, o) * o

    def __rmod__(self, o):
        if not _scal(o):
            return _oth(self, o, '__rmod__')
        return o - self._fdiv(o, self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SNum(-self.e, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e), self.k)

    def __pow__(self, p, mod=None):
        if isinstance(p, np.ndarray):
            return _oth(self, p, '__pow__')
        if is_sym(p):
            if p.k == 'i':
                p = p.__index__()
            else:
                return cur().uf('pow', self, p)
        pf = Fraction(float(p))
        if pf.denominator == 1:
            n = pf.numerator
            if n == 0:
                return np.float64(1) if self.k == 'f' or isinstance(
                    p, (float, np.floating)) else np.int64(1)
            k = self.k
            base = self.e
            if isinstance(p, (float, np.floating)):
                base, k = self.real(), 'f'
            r = base
            for _ in range(abs(n) - 1):
                r = r * base
            r = SNum(r, k)
            return r if n > 0 else 1. / r
        if pf == Fraction(1, 2):
            return cur().sqrt(self)
        if pf == Fraction(-1, 2):
            return 1. / cur().sqrt(self)
        if pf == Fraction(3, 2):
            return self * cur().sqrt(self)
        return cur().uf('pow', self, p)

    def __rpow__(self, o):
        if not _scal(o):
            return _oth(self, o, '__rpow__')
        return cur().uf('pow', o, self)

    # --- comparison
    def _cmp(self, o, op, name):
        if isinstance(o, SStr) or isinstance(o, str) or o is None:
            return name == '__ne__'
        if not _scal(o):
            return _oth(self, o, name)
        if _isnanlike(o):
            return np.bool_(name == '__ne__')
        if _isinflike(o):
            big = o > 0
            return np.bool_({'__lt__': big, '__le__': big, '__gt__': not big,
                             '__ge__': not big, '__eq__': False,
                             '__ne__': True}[name])
        a, b, _ = _coerce(self, o)
        return mkbool(op(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, '__ne__')

    def __bool__(self):
        return bool(self != 0)

    def __and__(self, o):
        if not _scal(o):
            return _oth(self, o, '__and__')
        return cur().bitop('and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        if not _scal(o):
            return _oth(self, o, '__or__')
        return cur().bitop('or', self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if not _scal(o):
            return _oth(self, o, '__xor__')
        return cur().bitop('xor', self, o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if not _scal(o):
            return _oth(self, o, '__lshift__')
        return self * 2**int(o)

    def __rlshift__(self, o):
        return o * 2**int(self)

    def __rshift__(self, o):
        if not _scal(o):
            return _oth(self, o, '__rshift__')
        return self // 2**int(o)

    def __rrshift__(self, o):
        return o // 2**int(self)

    # --- conversions
    def __index__(self):
        if self.k != 'i':
            raise TypeError("'float' object cannot be interpreted as an index")
        return cur().choose_int(self.e)

    def __int__(self):
        return cur().choose_int(trunc_int(self).e)

    def __float__(self):
        return cur().realise(self)

    def __hash__(self):
        if self.k == 'i':
            return hash(cur().choose_int(self.e))
        return hash(cur().realise(self))

    def __round__(self, nd=None):
        if nd:
            s = 10**nd
            return SNum(z3.ToReal(num(round(self * float(s))).e), 'f') / s
        if self.k == 'i':
            return self
        return round_half_even(self)

    def __trunc__(self):
        return trunc_int(self)

    def __floor__(self):
        return self if self.k == 'i' else SNum(z3.ToInt(self.e), 'i')

    def __ceil__(self):
        return self if self.k == 'i' else SNum(-z3.ToInt(-self.e), 'i')

    def __str__(self):
        return cur().token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return cur().token(self, spec)

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self.real())) == self.real())

    def astype(self, t, **k):
        from . import arr
        return arr.cast(self, arr.kind_of_dtype(t))

    def any(self, *a, **k):
        return self != 0

    all = any

    @property
    def dtype(self):
        from . import arr
        return arr.SDType(self.k)

    @property
    def T(self):
        return self

    @property
    def imag(self):
        return np.float64(0)

    def conjugate(self):
        return self

    def dot(self, o):
        return self * o

    def round(self, n=0):
        r = round(self, n)
        return r if is_sym(r) and r.k == self.k else num(r).astype(float)

    def clip(self, lo, hi):
        return smin(smax(self, lo), hi)


def _keepk(s, o):
    if s.k == 'i' and isinstance(o, (float, np.floating)):
        return SNum(z3.ToReal(s.e), 'f')
    return s


def _oth(s, o, name):
    if isinstance(o, SCplx):
        return getattr(SCplx(s, np.float64(0)), name)(o)
    if isinstance(o, np.ndarray):
        return _arrop(s, o, name)
    if isinstance(o, (list, tuple)) and name not in ('__eq__', '__ne__'):
        from . import arr
        return _arrop(s, arr.asarr(o), name)
    if isinstance(o, (complex, np.complexfloating)):
        return getattr(SCplx(s, np.float64(0)), name)(o)
    return NotImplemented


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return np.True_
    if z3.is_false(e):
        return np.False_
    return SBool(e)


BIG = set()
_BIGC = {}


def may_be_big(e):
    """Whether an integer term may be beyond the exact range of doubles."""
    if not BIG:
        return False
    r = _BIGC.get(e.get_id())
    if r is not None and r[0].eq(e):
        return r[1]
    todo, seen, r = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int_value(x):
            r = abs(x.as_long()) > 1 << 53
        elif x.num_args() == 0:
            r = str(x) in BIG
        else:
            todo += x.children()
        if r:
            break
    _BIGC[e.get_id()] = (e, r)
    return r


def trunc_int(s):
    if s.k == 'i':
        return s
    e = s.e
    return SNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)), 'i')


def round_half_even(s):
    e = s.real()
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.Q(1, 2)
    return SNum(z3.If(d < half, f, z3.If(d > half, f + 1,
                z3.If(f % 2 == 0, f, f + 1))), 'i')


def bexp(x):
    """z3 Bool of a bool-like."""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SNum):
        return x.e != 0
    return z3.BoolVal(bool(x))


def s_and(*xs):
    es = [bexp(x) for x in xs]
    return mkbool(z3.And(*es)) if es else np.True_


def s_or(*xs):
    es = [bexp(x) for x in xs]
    return mkbool(z3.Or(*es)) if es else np.False_


def s_not(x):
    return mkbool(z3.Not(bexp(x)))


def ite(c, a, b):
    """Elementwise if-then-else on scalars, forking only if unavoidable."""
    if not isinstance(c, SBool):
        return a if c else b
    dec = cur().decided(c.e)
    if dec is not None:
        return a if dec else b
    if a is b:
        return a
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(z3.If(c.e, bexp(a), bexp(b)))
    if _scal(a) and _scal(b) and not (
            _isnanlike(a) or _isnanlike(b) or _isinflike(a) or _isinflike(b)):
        if not is_sym(a) and not is_sym(b) and a == b:
            return a
        x, y, k = _coerce(a, b)
        return SNum(z3.If(c.e, x, y), k)
    return a if bool(c) else b


def smin(a, b):
    if _isnanlike(a) or _isnanlike(b):
        return np.float64('nan')
    return ite(a <= b, a, b)


def smax(a, b):
    if _isnanlike(a) or _isnanlike(b):
        return np.float64('nan')
    return ite(a >= b, a, b)


class SCplx(_NPScalarAPI):
    """Complex number with symbolic parts (only what FFT code needs)."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SCplx):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SCplx(np.float64(x.real), np.float64(x.imag))
        return SCplx(x, np.float64(0))

    def _w(self, o, f, name):
        if isinstance(o, np.ndarray):
            return _arrop(self, o, name)
        return f(self, SCplx.of(o))

    def __add__(self, o):
        return self._w(o, lambda a, b: SCplx(a.re + b.re, a.im + b.im),
                       '__add__')
    __radd__ = __add__

    def __sub__(self, o):
        return self._w(o, lambda a, b: SCplx(a.re - b.re, a.im - b.im),
                       '__sub__')

    def __rsub__(self, o):
        return self._w(o, lambda a, b: SCplx(b.re - a.re, b.im - a.im),
                       '__rsub__')

    def __mul__(self, o):
        return self._w(o, lambda a, b: SCplx(
            a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re), '__mul__')
    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(a, b):
            n = b.re * b.re + b.im * b.im
            return SCplx((a.re * b.re + a.im * b.im) / n,
                         (a.im * b.re - a.re * b.im) / n)
        return self._w(o, f, '__truediv__')

    def conjugate(self):
        return SCplx(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __str__(self):
        return "<cplx>"


class SStr:
    """A string known to be one of a finite, sorted list."""
    __slots__ = ('e', 'vals')
    __array_ufunc__ = None

    def __init__(self, e, vals):
        self.e = e
        self.vals = list(vals)

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            from . import arr
            return getattr(arr.asarr(o), op)(self)
        if isinstance(o, bytes):
            o = o.decode()
        es = []
        f = {'__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b,
             '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b,
             '__eq__': lambda a, b: a == b, '__ne__': lambda a, b: a != b}[op]
        if isinstance(o, SStr):
            for i, v in enumerate(self.vals):
                for j, w in enumerate(o.vals):
                    if f(v, w):
                        es.append(z3.And(self.e == i, o.e == j))
        elif isinstance(o, str):
            for i, v in enumerate(self.vals):
                if f(v, str(o)):
                    es.append(self.e == i)
        else:
            return op == '__ne__'
        return mkbool(z3.Or(*es)) if es else np.False_

    def __lt__(self, o): return self._cmp(o, '__lt__')
    def __le__(self, o): return self._cmp(o, '__le__')
    def __gt__(self, o): return self._cmp(o, '__gt__')
    def __ge__(self, o): return self._cmp(o, '__ge__')
    def __eq__(self, o): return self._cmp(o, '__eq__')
    def __ne__(self, o): return self._cmp(o, '__ne__')

    def concrete(self):
        return self.vals[cur().choose_int(self.e)]

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return cur().token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return cur().token(self, spec)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.concrete(), n)

    def __add__(self, o):
        return self.concrete() + str(o)

    def __radd__(self, o):
        return str(o) + self.concrete()

    def __len__(self):
        return len(self.concrete())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.paths_infeasible = 0
        self.forks = 0
        self.checks = 0
        self.feas_queries = 0
        self.obl_queries = 0
        self.obligations = 0
        self.trivial = 0
        self.discharged = 0
        self.tol_discharged = 0
        self.unknown = 0
        self.realised = 0
        self.realised_what = {}
        self.solver_s = 0.0
        self.engine_limit = 0
        self.limit_what = {}
        self.validated = 0
        self.validate_mismatch = 0
        self.functions = set()
        self.incomplete = 0
        self.samples = []
        self.reached = {}

    def merge(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, (int, float)):
                setattr(self, k, getattr(self, k) + v)
            elif isinstance(v, set):
                getattr(self, k).update(v)
            elif isinstance(v, dict):
                d = getattr(self, k)
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                getattr(self, k).extend(v)


class Cand:
    """A candidate counterexample."""

    def __init__(self, label, model, detail=''):
        self.label, self.model, self.detail = label, model, detail


from .api import API, HData, Inapplicable  # noqa: E402


class Engine(API):
    symbolic = True

    @property
    def np(self):
        from . import npshim
        return npshim

    def _shims(self):
        from . import symenv
        return symenv.shims_symbolic()

    def _overrides(self):
        from . import symenv
        return dict(symenv.OVERRIDES)

    # --------------------------------------------------------------- data
    def arr(self, x, kind=None):
        from . import arr
        return arr.asarr(x, kind, copy=True)

    def table(self, cols, size=None):
        from . import arr
        return arr.SymRec({c: arr.asarr(v, copy=True)
                           for c, v in cols.items()}, size)

    def path(self, name):
        return self.tmp + '/' + name

    def fits(self, path, hdus):
        from . import stubs
        with stubs.FITS(path, 'rw', clobber=True) as f:
            for ext, data, hdr in hdus:
                f.write(data, extname=ext, header=hdr or None)
        return path

    def mkdir(self, path):
        pass

    def openfits(self, path):
        from . import stubs
        return stubs.FITS(path, 'rw', clobber=True)

    def exists(self, path):
        return self.resolve(path) in self.vfs

    def read_fits(self, path):
        from . import stubs
        out = []
        with stubs.FITS(path) as f:
            for i, h in enumerate(f):
                if i == 0 and h.rec is None and h.image.size == 0:
                    continue
                out.append(HData(h.ext, h.read(), h.read_header()))
        return out

    def files(self):
        return sorted(self.vfs)

    def textfile(self, path, lines):
        if not path.startswith('/'):
            path = self.path(path)
        self.vfs[path] = [('text', list(lines))]
        return path

    def same(self, a, b):
        """Truth value of equality, as a term."""
        from . import arr
        a, b = arr.asarr(a), arr.asarr(b)
        if a.shape != b.shape:
            return False
        out = []
        for x, y in zip(a.ravel(), b.ravel()):
            if _isnanlike(x) or _isnanlike(y):
                out.append(_isnanlike(x) and _isnanlike(y))
            else:
                out.append(x == y)
        return s_and(*out)

    def value(self, x):
        return self.concretise(x)

    def __init__(self, harness, params, stats=None, deadline=None,
                 max_paths=20000, feas_timeout=1500, obl_timeout=20000,
                 bound=1e6):
        self.harness, self.params = harness, params
        self.stats = stats or Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.feas_timeout, self.obl_timeout = feas_timeout, obl_timeout
        self.cands = []
        self.unknown = []
        self.errors = []
        self.max_cands = 6
        self.herrors = []
        self.limit_models = []
        self.inapplicable = None
        self.max_validate = 3
        self.traces = []      # (model, observed) of sampled passing paths

    # ------------------------------------------------------------ exploration
    def explore(self):
        global CUR
        work = [[]]
        st = self.stats
        n = 0
        while work:
            if self.deadline and time.time() > self.deadline:
                st.incomplete += 1
                self.errors.append('time budget spent; %d prefixes left'
                                   % len(work))
                break
            if n >= self.max_paths:
                st.incomplete += 1
                self.errors.append('path budget spent')
                break
            prefix = work.pop()
            self._reset(prefix)
            n += 1
            CUR = self
            try:
                self._run_path(n)
            except PathEnd:
                st.paths_infeasible += 1
            except Budget:
                st.incomplete += 1
            except EngineLimit as e:
                st.engine_limit += 1
                w = str(e)[:200]
                st.limit_what[w] = st.limit_what.get(w, 0) + 1
                if len(self.limit_models) < 8:
                    m = self.get_model([])
                    if m is not None:
                        self.limit_models.append(m)
            except Inapplicable as e:
                self.inapplicable = str(e)
                break
            else:
                st.paths += 1
                if len(self.traces) < self.max_validate and \
                        (n < 3 or n % 7 == 0) and not self.cands:
                    self._sample()
            finally:
                CUR = None
            work.extend(self.alts)
            if len(self.cands) >= self.max_cands:
                break
        return self

    def _sample(self):
        """Remember one model of this path and the values it predicts."""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.pc)
        if s.check() != z3.sat:
            return
        inputs = self.extract(s.model(), [])
        s.add(*[(v == rv(inputs[n])) if k == 'f' else (v == inputs[n])
                for n, (v, k) in self.inputs.items()])
        if s.check() != z3.sat:
            return
        m = s.model()
        obs, skip = {}, set()
        for label, x in self.path_obl:
            if label in obs or label in skip:
                continue
            if isinstance(x, SNum):
                v = model_to_py(m.eval(x.e, model_completion=True))
                if v is None or mentions(x.e, ('_undef', '_uf_', 'uf_')):
                    skip.add(label)
                    continue
                obs.setdefault(label, float(v))
            elif isinstance(x, (float, np.floating, int, np.integer)):
                obs.setdefault(label, float(x))
            else:
                skip.add(label)
        self.traces.append((inputs, obs))

    def _reset(self, prefix):
        self.prefix = prefix
        self.trace = []       # decisions on this path
        self.alts = []
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        self.pc = []
        self.dec = {}
        self.keep = []        # keep expressions alive (ids)
        self.inputs = {}      # name -> (expr, kind)
        self.ranges = {}      # id of an input -> (lo, hi, expr)
        self.nfresh = 0
        self.sq = {}
        self.sq1 = {}
        self.roots = []       # positive inputs whose squares have known roots
        self.ufm = {}
        self.tokens = {}
        self.warnings = []
        self.aux = {}
        self.vfs = {}
        self.stubs = {}
        self.path_obl = []
        self.defs = []
        self.caught = []
        self.logged = []
        self._ld = None
        self.tmp = '/vfs'

    def _run_path(self, n):
        prof = None
        fns = self.stats.functions
        if n <= 3 or n % 50 == 0:
            def prof(frame, event, arg):
                if event == 'call':
                    fn = frame.f_code.co_filename
                    if '/qsonic/' in fn and frame.f_code.co_flags & 1:
                        q = frame.f_code.co_qualname
                        if q != '<module>' and '<' not in q.split('.')[-1]:
                            fns.add(fn.split('/qsonic/', 1)[1] + '::' + q)
            import threading
            threading.setprofile(prof)
            sys.setprofile(prof)
        try:
            self.harness(self, **self.params)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}:{f.name}"
                     for f in tb][-6:]
            from .concrete import blame
            self._unexpected(e, where, blame(e))
        finally:
            if prof:
                import threading
                sys.setprofile(None)
                threading.setprofile(None)

    def _unexpected(self, e, where, own):
        m = self.get_model([])
        if m is None:
            # path infeasible or undecided
            return
        if not own:
            self.herrors.append('%s: %s @ %s' % (
                type(e).__name__, str(e)[:200], ' <- '.join(where)))
            self.limit_models.append(m)
            return
        self.cands.append(Cand(
            'unexpected %s: %s' % (type(e).__name__, str(e)[:200]), m,
            ' <- '.join(where)))

    # --------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.time()
        self.stats.feas_queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)

    def decided(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        v = self.dec.get(e.get_id())
        if v is None and z3.is_not(e):
            v = self.dec.get(e.arg(0).get_id())
            if v is not None:
                v = not v
        return v

    def _learn(self, e, val):
        self.keep.append(e)
        self.dec[e.get_id()] = val
        if z3.is_not(e):
            self._learn(e.arg(0), not val)
        elif val and z3.is_and(e):
            for c in e.children():
                self._learn(c, True)
        elif not val and z3.is_or(e):
            for c in e.children():
                self._learn(c, False)

    def branch(self, e):
        e = z3.simplify(e)
        v = self.decided(e)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d[0] == 'f':      # forced
                self._learn(e, d[1])
                return d[1]
            self.add(e if d[1] else z3.Not(e))
            self._learn(e, d[1])
            return d[1]
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        ne = z3.Not(e)
        rt = self._check(e)
        if rt == z3.unsat:
            self.pos += 1
            self.trace.append(('f', False))
            self._learn(e, False)
            return False
        rf = self._check(ne)
        if rf == z3.unsat:
            self.pos += 1
            self.trace.append(('f', True))
            self._learn(e, True)
            return True
        self.stats.forks += 1
        self.alts.append(self.trace + [('b', False)])
        self.pos += 1
        self.trace.append(('b', True))
        self.add(e)
        self._learn(e, True)
        return True

    def choose_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        eid = e.get_id()
        hit = self.aux.get(('ci', eid))
        if hit is not None:
            return hit[0]
        for _ in range(200):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                v, taken, forced = d[1], d[2], d[3]
                self.pos += 1
                self.trace.append(d)
                if not forced:
                    self.add(e == v if taken else e != v)
                if taken:
                    self.aux[('ci', eid)] = (v, e)
                    return v
                continue
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r != z3.sat:
                raise EngineLimit('undecided value for an index')
            v = self.solver.model().eval(e, model_completion=True).as_long()
            r2 = self._check(e != v)
            self.pos += 1
            if r2 == z3.unsat:
                self.trace.append(('c', v, True, True))
                self.aux[('ci', eid)] = (v, e)
                return v
            self.stats.forks += 1
            self.alts.append(self.trace + [('c', v, False, False)])
            self.trace.append(('c', v, True, False))
            self.add(e == v)
            self.aux[('ci', eid)] = (v, e)
            return v
        raise EngineLimit('too many values for an index')

    def realise(self, s, what='float'):
        """Pin a symbolic real to one value (under-approximation)."""
        e = z3.simplify(num(s).e)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return float(model_to_py(e))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            v = d[1]
            self.pos += 1
            self.trace.append(d)
        else:
            r = self._check()
            if r != z3.sat:
                raise PathEnd()
            v = model_to_py(self.solver.model().eval(e, True))
            self.pos += 1
            self.trace.append(('r', v))
        self.stats.realised += 1
        self.stats.realised_what[what] = \
            self.stats.realised_what.get(what, 0) + 1
        self.add(e == (v if num(s).k == 'i' else rv(v)))
        return float(v)

    def concretise(self, x, what='value'):
        if isinstance(x, SBool):
            return bool(x)
        if isinstance(x, SStr):
            return x.concrete()
        if isinstance(x, SNum):
            if x.k == 'i':
                return self.choose_int(x.e)
            return self.realise(x, what)
        return x

    # ------------------------------------------------------------- functions
    def fresh(self, base, k):
        self.nfresh += 1
        name = f"_{base}{self.nfresh}"
        return SNum(z3.Int(name) if k == 'i' else z3.Real(name), k)

    def sqrt(self, x):
        if not is_sym(x):
            return np.sqrt(np.float64(x))
        e = z3.simplify(num(x).real())
        hit = self.sq.get(e.get_id()) or self.sq1.get(e.get_id())
        if hit is not None:
            return hit[0]
        for root, _ in self.roots:
            from . import ratfun
            for c in (root.e, 1 / root.e):
                if ratfun.identical(e, c * c, pc=[], eng=None):
                    r = SNum(z3.simplify(c), 'f')
                    self.sq1[e.get_id()] = (r, e)
                    return r
        if bool(mkbool(e < 0)):
            return np.float64('nan')
        r = self.fresh('sqrt', 'f')
        self.add(z3.And(r.e >= 0, r.e * r.e == e))
        self.sq[e.get_id()] = (r, e)
        return r

    def positive_root(self, r):
        """r > 0 is an input: sqrt(r*r) is r and sqrt(1/(r*r)) is 1/r."""
        if is_sym(r):
            self.add(r.e > 0)
            self.roots.append((r, r.e))

    def uf(self, name, *args):
        if name == 'log' and bool(args[0] <= 0):
            return np.float64('-inf') if bool(args[0] == 0) \
                else np.float64('nan')
        es = [z3.simplify(num(a).real()) for a in args]
        key = (name,) + tuple(e.get_id() for e in es)
        hit = self.ufm.get(key)
        if hit is not None:
            return hit[0]
        f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(es) + 1)))
        r = self.fresh('uf_' + name, 'f')
        self.add(r.e == f(*es))
        if name in ('exp', 'pow'):
            self.add(r.e > 0)
        if name == 'exp':
            self.add(z3.And((es[0] > 0) == (r.e > 1), (es[0] == 0) == (r.e == 1)))
        if name == 'log':
            self.add(z3.And((es[0] > 1) == (r.e > 0), (es[0] == 1) == (r.e == 0)))
        if name in ('exp', 'log'):
            for k, (r2, es2) in self.ufm.items():
                if k[0] == name:
                    self.add(z3.And((es[0] < es2[0]) == (r.e < r2.e),
                                    (es[0] == es2[0]) == (r.e == r2.e)))
        self.ufm[key] = (r, es)
        return r

    def bitop(self, op, a, b):
        a, b = num(a).e, num(b).e
        for x, y in ((a, b), (b, a)):
            y = z3.simplify(y)
            if not z3.is_int_value(y):
                continue
            c = y.as_long()
            r = _bits(x, c) if c >= 0 else x - _bits(x, ~c)
            break
        else:
            r = z3.BV2Int(z3.Int2BV(a, 64) & z3.Int2BV(b, 64), True)
        if op == 'or':
            r = a + b - r
        elif op == 'xor':
            r = a + b - 2 * r
        return SNum(r, 'i')

    # --------------------------------------------------------------- strings
    def token(self, x, spec=''):
        n = len(self.tokens)
        t = f"\u27e8{n}\u27e9"
        self.tokens[t] = (x, spec)
        return t

    def resolve(self, s):
        """Replace tokens of symbolic values in a string by concrete text."""
        if isinstance(s, SStr):
            return s.concrete()
        if not isinstance(s, str) or '\u27e8' not in s:
            return s
        for t, (x, spec) in self.tokens.items():
            if t in s:
                v = self.concretise(x, 'string')
                s = s.replace(t, format(v, spec))
        return s

    # ------------------------------------------------------------ harness API
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.inputs[name] = (v, 'f')
        if lo is not None and hi is not None:
            self.ranges[v.get_id()] = (Fraction(lo), Fraction(hi), v)
        if lo is not None:
            self.add(v >= rv(lo))
        if hi is not None:
            self.add(v <= rv(hi))
        return SNum(v, 'f')

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = (v, 'i')
        if max(abs(lo or 0), abs(hi or 0)) > 1 << 53:
            BIG.add(name)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SNum(v, 'i')

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = (v, 'b')
        return SBool(v)

    def string(self, name, vals):
        v = z3.Int(name)
        vals = sorted(vals)
        self.inputs[name] = (v, 'i')
        self.add(z3.And(v >= 0, v < len(vals)))
        return SStr(v, vals)

    def choice(self, name, vals):
        """Fork over a finite list of concrete configurations."""
        v = z3.Int(name)
        self.inputs[name] = (v, 'i')
        vals = list(vals)
        self.add(z3.And(v >= 0, v < len(vals)))
        return vals[self.choose_int(v)]

    def assume(self, c):
        if isinstance(c, SBool):
            self.add(c.e)
            self._learn(z3.simplify(c.e), True)
            return
        if not bool(c):
            raise PathEnd()

    def feasible(self):
        """Raise PathEnd if the path is already contradictory."""
        if self._check() == z3.unsat:
            raise PathEnd()

    # ------------------------------------------------------------ obligations
    def check(self, c, label):
        self.stats.obligations += 1
        self.stats.reached[label.split('[')[0]] = \
            self.stats.reached.get(label.split('[')[0], 0) + 1
        if not isinstance(c, SBool):
            if bool(c):
                self.stats.trivial += 1
                self.stats.discharged += 1
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(c.e)
        r, m = self.prove_neg(neg)
        self._account(r, m, label)

    def _account(self, r, m, label):
        if r == 'unsat':
            self.stats.discharged += 1
        elif r == 'sat':
            if m is not None:
                self.cands.append(Cand(label, m))
        else:
            self.stats.unknown += 1
            self.unknown.append(label)

    def close(self, a, b, label, rtol=1e-7, atol=1e-7):
        """a equals b (exactly over the reals, or within tolerance)."""
        from . import arr
        a, b = arr.unbox(a), arr.unbox(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = arr.asarr(a), arr.asarr(b)
            if a.shape != b.shape:
                self.check(False, label + '[shape %s vs %s]'
                           % (a.shape, b.shape))
                return
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                self.close(x, y, f"{label}[{i}]", rtol, atol)
            return
        self.stats.reached[label.split('[')[0]] = \
            self.stats.reached.get(label.split('[')[0], 0) + 1
        if len(self.traces) < self.max_validate:
            self.path_obl.append((label, a))
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            self.check(a == b, label)
            return
        if not is_sym(a) and not is_sym(b):
            a, b = float(a), float(b)
            ok = (a == b) or (a != a and b != b) or \
                abs(a - b) <= atol + rtol * abs(b)
            self.stats.obligations += 1
            if ok:
                self.stats.trivial += 1
                self.stats.discharged += 1
                return
            r, m = self.prove_neg(z3.BoolVal(True))
            self._account(r, m, label)
            return
        self.stats.obligations += 1
        if _isnanlike(a) or _isnanlike(b) or _isinflike(a) or _isinflike(b):
            r, m = self.prove_neg(z3.BoolVal(True))
            self._account(r, m, label)
            return
        x, y, k = _coerce(a, b)
        if x.eq(y):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        r, m = self.prove_neg(x != y, eqpair=(x, y),
                              tol=atol if k == 'f' else None)
        if r == 'unsat':
            self.stats.discharged += 1
            return
        if k == 'i':
            self._account(r, m, label)
            return
        d = x - y
        tol = rv(atol)
        neg = z3.Or(d > tol, d < -tol)
        r, m = self.prove_neg(neg)
        if r == 'unsat':
            self.stats.tol_discharged += 1
        self._account(r, m, label)

    def prove_neg(self, neg, eqpair=None, tol=None):
        """Is `neg` satisfiable on this path?  -> ('unsat'|'sat'|'unknown', model)"""
        from . import ratfun
        st = self.stats
        st.obl_queries += 1
        t = time.time()
        try:
            if eqpair is not None:
                # identity of rational functions
                r = ratfun.identical(*eqpair, pc=self.pc, eng=self, tol=tol)
                if r == 'close':
                    st.tol_discharged += 1
                if r:
                    return 'unsat', None
            s = z3.Solver()
            s.set('timeout', min(self.obl_timeout, 4000))
            s.add(*self.pc)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', self.extract(s.model(), [neg])
            for tac in ('qfnra-nlsat', None):
                if tac:
                    try:
                        g = z3.Then('simplify', 'purify-arith',
                                    'propagate-values', 'solve-eqs',
                                    'qfnra-nlsat').solver()
                    except z3.Z3Exception:
                        continue
                else:
                    g = z3.SolverFor('QF_NIRA')
                g.set('timeout', self.obl_timeout)
                g.add(*self.pc)
                g.add(neg)
                try:
                    r = g.check()
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    return 'unsat', None
                if r == z3.sat:
                    return 'sat', self.extract(g.model(), [neg])
            return 'unknown', None
        finally:
            st.solver_s += time.time() - t

    def get_model(self, extra):
        s = z3.Solver()
        s.set('timeout', self.obl_timeout)
        s.add(*self.pc)
        s.add(*extra)
        r = s.check()
        if r == z3.unsat:
            return None
        if r != z3.sat:
            g = z3.Then('simplify', 'purify-arith', 'propagate-values',
                        'solve-eqs', 'qfnra-nlsat').solver()
            g.set('timeout', self.obl_timeout)
            g.add(*self.pc)
            g.add(*extra)
            try:
                r = g.check()
            except z3.Z3Exception:
                return None
            if r != z3.sat:
                return None
            s = g
        return self.extract(s.model(), extra)

    def extract(self, model, extra):
        """Input assignment; real inputs are moved to short dyadic values
        where the path and the negated property stay satisfiable."""
        raw = {}
        for n, (v, k) in self.inputs.items():
            raw[n] = model_to_py(model.eval(v, model_completion=True))
        reals = [n for n, (v, k) in self.inputs.items() if k == 'f']
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*self.pc)
        s.add(*extra)
        t0 = time.time()
        for n, (v, k) in self.inputs.items():
            if k == 'i':
                s.add(v == raw[n])
            elif k == 'b':
                s.add(v == z3.BoolVal(bool(raw[n])))
        if s.check() == z3.sat:
            for n in reals:
                v = self.inputs[n][0]
                if time.time() - t0 > 8:
                    break
                val = raw[n]
                if Fraction(float(val)) == val and \
                        Fraction(val).denominator <= 4096:
                    pass
                done = False
                for q in (1, 4, 64, 4096):
                    c = Fraction(round(val * q), q)
                    s.push()
                    s.add(v == rv(c))
                    if s.check() == z3.sat:
                        m = s.model()
                        for n2 in reals:
                            raw[n2] = model_to_py(
                                m.eval(self.inputs[n2][0], True))
                        raw[n] = c
                        s.pop()
                        s.add(v == rv(c))
                        done = True
                        break
                    s.pop()
                if not done:
                    s.push()
                    s.add(v == rv(raw[n]))
                    if s.check() != z3.sat:
                        s.pop()
        out = {}
        for n, (v, k) in self.inputs.items():
            x = raw[n]
            out[n] = float(x) if k == 'f' else (
                int(x) if k == 'i' else bool(x))
        return out
