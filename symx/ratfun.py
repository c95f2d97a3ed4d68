"""Put an equation between rational functions into the form  N == 0.

z3's nonlinear engine is weak on equations with many divisions.  `numerator`
brings ``x - y`` over a common denominator (whose factors are non-zero on the
path, because the division operator forks on a zero denominator) and expands the
numerator.  The solver is then asked about  N != 0  instead of  x != y.
"""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


LIMIT = 6000


def padd(a, b, sb=1):
    if len(a) < len(b) and sb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + sb * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Ctx:
    def __init__(self, eng):
        self.eng = eng
        self.atoms = {}
        self.memo = {}
        self.sq = {}
        if eng is not None:
            for r, e in eng.sq.values():
                self.sq[r.e.get_id()] = (r.e, e)
        self.sqmemo = {}

    def pmul(self, a, b):
        if len(a) * len(b) > 4 * LIMIT:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def atom(self, e):
        i = e.get_id()
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}

    def rat(self, e):
        """-> (num poly, den: dict factorkey -> (poly, exp))"""
        i = e.get_id()
        hit = self.memo.get(i)
        if hit is None:
            hit = (self._rat(e), e)
            self.memo[i] = hit
        return hit[0]

    def _const(self, c):
        return ({(): Fraction(c)} if c != 0 else {}), {}

    def _rat(self, e):
        if z3.is_rational_value(e):
            return self._const(Fraction(e.numerator_as_long(),
                                        e.denominator_as_long()))
        if z3.is_int_value(e):
            return self._const(e.as_long())
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_ADD:
                r = self.rat(ch[0])
                for c in ch[1:]:
                    r = self.radd(r, self.rat(c))
                return r
            if k == z3.Z3_OP_SUB:
                r = self.rat(ch[0])
                for c in ch[1:]:
                    r = self.radd(r, self.rat(c), -1)
                return r
            if k == z3.Z3_OP_UMINUS:
                n, d = self.rat(ch[0])
                return {m: -c for m, c in n.items()}, d
            if k == z3.Z3_OP_MUL:
                r = self.rat(ch[0])
                for c in ch[1:]:
                    r = self.rmul(r, self.rat(c))
                return r
            if k == z3.Z3_OP_DIV:
                n1, d1 = self.rat(ch[0])
                n2, d2 = self.rat(ch[1])
                if not n2:
                    raise TooBig()
                # n1/d1 * d2/n2
                n, d = n1, dict(d1)
                for key, (p, ex) in d2.items():
                    have = d.get(key)
                    cut = min(have[1], ex) if have else 0
                    if have:
                        if have[1] == cut:
                            d.pop(key)
                        else:
                            d[key] = (p, have[1] - cut)
                    for _ in range(ex - cut):
                        n = self.pmul(n, p)
                if len(n2) == 1 and () in n2:
                    c = n2[()]
                    return {m: v / c for m, v in n.items()}, d
                return self.rnorm(n, self.dmul(d, n2))
            if k == z3.Z3_OP_TO_REAL:
                return self.rat_int(ch[0], e)
            if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
                p = ch[1].numerator_as_long()
                if ch[1].denominator_as_long() == 1 and 0 < p < 7:
                    r = b = self.rat(ch[0])
                    for _ in range(p - 1):
                        r = self.rmul(r, b)
                    return r
            if k == z3.Z3_OP_ITE and self.eng is not None:
                v = self.eng.decided(z3.simplify(ch[0]))
                if v is not None:
                    return self.rat(ch[1] if v else ch[2])
        return self.atom(e), {}

    def rat_int(self, e, whole):
        if z3.is_int_value(e):
            return self._const(e.as_long())
        if self.eng is not None:
            e = z3.simplify(e)
            if z3.is_int_value(e):
                return self._const(e.as_long())
            hit = self.eng.aux.get(('ci', e.get_id()))
            if hit is not None:
                # the value chosen on this path (a fact of the path condition)
                return self._const(hit[0])
        return self.atom(whole), {}

    def dmul(self, d, poly):
        # normalise factor: leading coefficient 1
        lead = poly[max(poly)]
        p = {m: c / lead for m, c in poly.items()}
        key = tuple(sorted(p.items()))
        d = dict(d)
        if key in d:
            d[key] = (p, d[key][1] + 1)
        else:
            d[key] = (p, 1)
        self._lead = lead
        return d

    def rnorm(self, n, d):
        lead = self._lead
        return {m: c / lead for m, c in n.items()}, d

    def rmul(self, a, b):
        n = self.pmul(a[0], b[0])
        d = dict(a[1])
        for key, (p, ex) in b[1].items():
            d[key] = (p, ex + (d[key][1] if key in d else 0))
        return n, d

    def radd(self, a, b, sb=1):
        n1, d1 = a
        n2, d2 = b
        if not n1:
            return {m: sb * c for m, c in n2.items()}, d2
        if not n2:
            return a
        d = dict(d1)
        m1, m2 = n1, n2
        for key, (p, ex) in d2.items():
            have = d1[key][1] if key in d1 else 0
            if ex > have:
                d[key] = (p, ex)
                for _ in range(ex - have):
                    m1 = self.pmul(m1, p)
        for key, (p, ex) in d1.items():
            have = d2[key][1] if key in d2 else 0
            for _ in range(max(0, ex - have)):
                m2 = self.pmul(m2, p)
        return padd(m1, m2, sb), d

    def reduce_sqrt(self, n):
        """Replace r^2 by its radicand when that is a polynomial."""
        if not self.sq:
            return n
        for _ in range(30):
            out, changed = {}, False
            for m, c in n.items():
                t = {(): c}
                for a, ex in m:
                    if a in self.sq and ex >= 2:
                        num, den = self.rat(self.sq[a][1])
                        if den:
                            t = self.pmul(t, {((a, ex),): Fraction(1)})
                            continue
                        changed = True
                        for _ in range(ex // 2):
                            t = self.pmul(t, num)
                        if ex % 2:
                            t = self.pmul(t, {((a, 1),): Fraction(1)})
                    else:
                        t = self.pmul(t, {((a, ex),): Fraction(1)})
                out = padd(out, t)
            n = out
            if not changed:
                break
        return n

    def to_z3(self, n):
        terms = []
        for m, c in n.items():
            t = [z3.RealVal(f"{c.numerator}/{c.denominator}")]
            for a, ex in m:
                e = self.atoms[a]
                if z3.is_int(e):
                    e = z3.ToReal(e)
                t.extend([e] * ex)
            terms.append(z3.Product(*t) if len(t) > 1 else t[0])
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(*terms) if len(terms) > 1 else terms[0]


def numerator(x, y, eng):
    """z3 expression N with  (x == y) <=> (N == 0)  on the path, or None."""
    try:
        c = Ctx(eng)
        n, d = c.radd(c.rat(x), c.rat(y), -1)
        n = c.reduce_sqrt(n)
        if len(n) > 1500:
            return None
        return c.to_z3(n), len(n)
    except (TooBig, RecursionError):
        return None


def identical(x, y, pc, eng, tol=None):
    """'exact' if x == y for all inputs, 'close' if within tol for all inputs
    in their ranges, else None."""
    n = numerator(x, y, eng)
    if n is None:
        return None
    N, size = n
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(N != 0)
    if s.check() == z3.unsat:
        return 'exact'
    if tol is not None and bounded(x, y, eng, tol):
        return 'close'
    if size < 150:
        s.add(*pc)
        if s.check() == z3.unsat:
            return 'exact'
    return None


def bounded(x, y, eng, tol):
    """|x - y| <= tol for every value of the inputs in their declared ranges:
    each monomial of the expanded difference is abstracted by a variable with
    the monomial's bounds and the solver decides the linear inequality."""
    try:
        c = Ctx(eng)
        n, d = c.radd(c.rat(x), c.rat(y), -1)
        n = c.reduce_sqrt(n)
    except (TooBig, RecursionError):
        return False
    if len(n) > 1500:
        return False
    rng = eng.ranges

    def mono(m):
        lo, hi = Fraction(1), Fraction(1)
        for a, ex in m:
            if a not in rng:
                return None
            l, h = rng[a][:2]
            pw = [l**ex, h**ex]
            if ex % 2 == 0 and l < 0 < h:
                pw.append(Fraction(0))
            l, h = min(pw), max(pw)
            q = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(q), max(q)
        return lo, hi

    def interval(p):
        lo = hi = Fraction(0)
        for m, v in p.items():
            b = mono(m)
            if b is None:
                return None
            q = [v * b[0], v * b[1]]
            lo, hi = lo + min(q), hi + max(q)
        return lo, hi

    t = Fraction(tol)
    for p, ex in d.values():
        b = interval(p)
        if b is None or b[0] <= 0 <= b[1]:
            return False
        t *= min(abs(b[0]), abs(b[1]))**ex
    s = z3.Solver()
    s.set('timeout', 3000)
    terms = []
    for i, (m, v) in enumerate(n.items()):
        b = mono(m)
        if b is None:
            return False
        u = z3.Real('m!%d' % i)
        s.add(u >= _q(b[0]), u <= _q(b[1]))
        terms.append(_q(v) * u)
    tot = z3.Sum(*terms) if terms else z3.RealVal(0)
    s.add(z3.Or(tot > _q(t), tot < _q(-t)))
    return s.check() == z3.unsat


def _q(f):
    f = Fraction(f)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")
