"""Functions of an index and banded matrices of symbolic size: what `spins(S)` builds for every S.

A half-integer spin S is (n-1)/2 for an integer size n >= 2.  `arange` over it has a symbolic number of elements; iterating
over it gives one generic element (its r-th), so that array(list(f(m) for m in arange(...))) is the vector r -> f(element r).
Such an element may be used in no other way.  Entries are polynomials in n and r times square roots of such polynomials
(exact, sympy); a root is taken only of what z3 shows to be non-negative on the range of r.
"""
import sympy as sp
import z3
from dims import Unsupported, ctx

n, r = sp.symbols('n r', integer=True)
ROOT = {}       # radicand (expanded) -> symbol


def root_symbol(p):
    p = sp.expand(p)
    if p.is_number:
        return sp.sqrt(p)
    k = sp.srepr(p)
    if k not in ROOT:
        ROOT[k] = (sp.Symbol('q%d' % len(ROOT), nonnegative=True), p)
    return ROOT[k][0]


def reduce_(e):
    """canonical polynomial: squares of roots replaced"""
    e = sp.expand(e)
    for _ in range(20):
        f = e
        for q, p in list(ROOT.values()):
            if e.has(q):
                P = sp.Poly(e, q)
                e = sp.expand(sum(c*(p**(k[0]//2))*q**(k[0] % 2) for k, c in P.terms()))
        if e == f:
            return e
    raise Unsupported('roots do not reduce')


def shift(e, s):
    """e at r+s"""
    sub = {q: root_symbol(p.subs(r, r+s)) for q, p in list(ROOT.values()) if e.has(q)}
    sub[r] = r+s
    return reduce_(sp.expand(e.subs(sub, simultaneous=True)))


def at(e, nv=None, rv=None):
    sub = {}
    if nv is not None:
        sub[n] = nv
    if rv is not None:
        sub[r] = rv
    for q, p in list(ROOT.values()):
        if e.has(q):
            x = sp.expand(p.subs({k: v for k, v in sub.items() if k in (n, r)}, simultaneous=True))
            sub[q] = sp.sqrt(x) if x.is_number else root_symbol(x)
    return reduce_(sp.expand(e.subs(sub, simultaneous=True)))


def num(x):
    if isinstance(x, Ix):
        return x.e
    if isinstance(x, bool) or x is None:
        raise Unsupported('index value')
    if isinstance(x, complex):
        return sp.nsimplify(x.real, rational=True)+sp.I*sp.nsimplify(x.imag, rational=True)
    if isinstance(x, float):
        return sp.Rational(x) if float(x*1024).is_integer() else root_or_fail(x)
    if isinstance(x, int):
        return sp.Integer(x)
    if hasattr(x, 'item'):
        return num(x.item())
    raise Unsupported('index arithmetic with %s' % type(x).__name__)


def root_or_fail(x):
    raise Unsupported('inexact constant %r in index arithmetic' % x)


class Ix:
    """expression in n (and r, inside a comprehension over a symbolic range)"""
    __array_ufunc__ = None

    def __init__(self, e, rng=None):
        self.e, self.rng = sp.expand(e), rng        # rng: number of values of r, when r is free

    def _b(self, o, f):
        if isinstance(o, (Vec, Band)):
            return NotImplemented
        g = o.rng if isinstance(o, Ix) else None
        if self.rng is not None and g is not None and sp.expand(self.rng-g) != 0:
            raise Unsupported('two ranges')
        return Ix(reduce_(f(self.e, num(o))), self.rng if self.rng is not None else g)

    def __add__(s, o): return s._b(o, lambda a, b: a+b)
    __radd__ = __add__
    def __sub__(s, o): return s._b(o, lambda a, b: a-b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b-a)
    def __mul__(s, o): return s._b(o, lambda a, b: a*b)
    __rmul__ = __mul__
    def __neg__(s): return Ix(-s.e, s.rng)
    def __pos__(s): return s

    def __truediv__(s, o):
        d = num(o)
        if not d.is_number:
            raise Unsupported('division by an index')
        return s._b(o, lambda a, b: a/b)

    def __pow__(s, k):
        if isinstance(k, int) and k >= 0:
            return Ix(reduce_(s.e**k), s.rng)
        if k == .5:
            return sqrt(s)
        raise Unsupported('power of an index')

    def _cmp(s, o, op):
        """decided by z3 for every n >= 2 and index in range, or forked over"""
        d = sp.expand(s.e-num(o))
        z = zpoly(d)
        b = {'==': z == 0, '!=': z != 0, '<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op]
        if prove(b, s.rng):
            return True
        if prove(z3.Not(b), s.rng):
            return False
        if s.rng is None:
            # a comparison of the spin with a number: the general case and the finitely many special ones are separate
            raise Unsupported('comparison of a symbolic spin')
        raise Unsupported('comparison of a symbolic index')

    def __eq__(s, o):
        if isinstance(o, (int, float, Ix)):
            return s._cmp(o, '==')
        return NotImplemented
    def __ne__(s, o): return s._cmp(o, '!=')
    def __lt__(s, o): return s._cmp(o, '<')
    def __le__(s, o): return s._cmp(o, '<=')
    def __gt__(s, o): return s._cmp(o, '>')
    def __ge__(s, o): return s._cmp(o, '>=')
    __hash__ = None


ZN, ZR = z3.Real('n'), z3.Real('r')


def zpoly(e):
    P = sp.Poly(e, n, r)
    tot = z3.RealVal(0)
    for (a, b), c in P.terms():
        if not c.is_rational:
            raise Unsupported('irrational comparison')
        t = z3.RealVal(str(c))
        for _ in range(a):
            t = t*ZN
        for _ in range(b):
            t = t*ZR
        tot = tot+t
    return tot


def prove(b, rng):
    import time
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(ZN >= 2)
    if rng is not None:
        s.add(ZR >= 0, ZR <= zpoly(rng)-1)
    s.add(z3.Not(b))
    t = time.time()
    ok = s.check() == z3.unsat
    c = ctx()
    c.solver_s += time.time()-t
    c.nq += 1
    return ok


def sqrt(x):
    if not prove(zpoly(x.e) >= 0, x.rng):
        raise ValueError('math domain error')
    return Ix(root_symbol(x.e), x.rng)


class Range:
    """arange(start, stop, step) with a symbolic number of elements"""

    def __init__(self, start, stop, step):
        a, b, s = sp.expand(num(start)), sp.expand(num(stop)), sp.expand(num(step))
        if s not in (1, -1):
            raise Unsupported('step of a symbolic range')
        self.count = sp.expand((b-a)/s)
        if not all(c.is_integer for c in sp.Poly(self.count, n).all_coeffs()):
            raise Unsupported('number of elements of a symbolic range')
        self.elem = Ix(a+s*r, self.count)

    def __iter__(self):
        yield self.elem

    def vec(self):
        return Vec(self.elem.e, self.count)


class Vec:
    __array_ufunc__ = None

    def __init__(self, e, count):
        self.e, self.count = reduce_(e), count

    def _b(self, o, f):
        if isinstance(o, Vec):
            if sp.expand(self.count-o.count) != 0:
                raise ValueError('operands could not be broadcast together')
            return Vec(f(self.e, o.e), self.count)
        if isinstance(o, Ix) and o.rng is not None:
            raise Unsupported('index escaped its comprehension')
        return Vec(f(self.e, num(o)), self.count)

    def __add__(s, o): return s._b(o, lambda a, b: a+b)
    __radd__ = __add__
    def __sub__(s, o): return s._b(o, lambda a, b: a-b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b-a)
    def __mul__(s, o): return s._b(o, lambda a, b: a*b)
    __rmul__ = __mul__
    def __neg__(s): return Vec(-s.e, s.count)
    def __truediv__(s, o): return s._b(o, lambda a, b: a/b)

    def __iter__(self):
        yield Ix(self.e, self.count)

    def sqrt(self):
        return Vec(sqrt(Ix(self.e, self.count)).e, self.count)


class Band:
    """square matrix of size `size`: terms (k, lo, hi, e): entry (i, i+k) is e(r=i) for lo <= i <= size-1-hi, summed"""
    __array_ufunc__ = None

    def __init__(self, size, terms):
        self.size = sp.expand(size)
        self.terms = [(k, lo, hi, x) for k, lo, hi, x in ((k, lo, hi, reduce_(e)) for k, lo, hi, e in terms) if x != 0]

    @property
    def shape(self):
        return (Ix(self.size), Ix(self.size))

    ndim = 2

    @property
    def T(self):
        # entry (i, i+k) = e(i)  ->  entry (j, j-k) = e(j-k), j = i+k
        return Band(self.size, [(-k, lo+k, hi-k, shift(e, -k)) for k, lo, hi, e in self.terms])

    def conj(self):
        return Band(self.size, [(k, lo, hi, sp.expand(e.subs(sp.I, -sp.I))) for k, lo, hi, e in self.terms])

    conjugate = conj

    def transpose(self, *a):
        return self.T

    def _scal(self, z):
        if isinstance(z, Ix) and z.rng is not None:
            raise Unsupported('index escaped its comprehension')
        return num(z)

    def __add__(s, o):
        if not isinstance(o, Band):
            raise Unsupported('sum of a banded matrix with %s' % type(o).__name__)
        if sp.expand(s.size-o.size) != 0:
            raise ValueError('operands could not be broadcast together')
        return Band(s.size, s.terms+o.terms)
    __radd__ = __add__
    def __neg__(s): return s*(-1)
    def __sub__(s, o): return s+(-o)
    def __rsub__(s, o): return o+(-s)

    def __mul__(s, o):
        if isinstance(o, Band):
            raise Unsupported('elementwise product of banded matrices')
        z = s._scal(o)
        return Band(s.size, [(k, lo, hi, z*e) for k, lo, hi, e in s.terms])
    __rmul__ = __mul__

    def __truediv__(s, o):
        z = s._scal(o)
        if not z.is_number:
            raise Unsupported('division by an index')
        return Band(s.size, [(k, lo, hi, e/z) for k, lo, hi, e in s.terms])

    def __matmul__(s, o):
        if not isinstance(o, Band):
            raise Unsupported('product of a banded matrix with %s' % type(o).__name__)
        if sp.expand(s.size-o.size) != 0:
            raise ValueError('matmul: mismatch')
        out = []
        for k, lo, hi, e in s.terms:
            for k2, lo2, hi2, e2 in o.terms:
                # row i: e(i) e2(i+k), needs lo2 <= i+k <= size-1-hi2
                out.append((k+k2, max(lo, lo2-k), max(hi, hi2+k), sp.expand(e*shift(e2, k))))
        return Band(s.size, out)

    dot = __matmul__

    def nonzero(self, least):
        """None when the matrix vanishes for every n >= least, else a description"""
        bands = {}
        for k, lo, hi, e in self.terms:
            bands.setdefault(k, []).append((lo, hi, e))
        c = max([0]+[x for g in bands.values() for lo, hi, e in g for x in (abs(lo), abs(hi))])
        off = sp.expand(self.size-n)
        if not off.is_number:
            raise Unsupported('size %s' % self.size)
        for k, g in bands.items():
            d = reduce_(sum(e for lo, hi, e in g))
            if d != 0:
                return 'entry (r, r%+d) = %s for generic r' % (k, d)
            big = least if least > 2*c+2 else 2*c+3
            for t in range(c+1):
                a = reduce_(sum([at(e, rv=t) for lo, hi, e in g if lo <= t], sp.Integer(0)))
                b = reduce_(sum([at(e, rv=n+off-1-t) for lo, hi, e in g if hi <= t], sp.Integer(0)))
                if a != 0 or b != 0:
                    return 'entry in row %d from an end: %s' % (t, a if a != 0 else b)
            for nv in range(least, big+1):
                N = nv+int(off)
                for i in range(N):
                    v = sum([at(e, nv, i) for lo, hi, e in g if lo <= i <= N-1-hi], sp.Integer(0))
                    if sp.simplify(v) != 0:
                        return 'n = %d, row %d: %s' % (nv, i, v)
        return None


def diag(v, k=0):
    s = v.count+abs(k)
    if k >= 0:
        return Band(s, [(k, 0, k, v.e)])
    return Band(s, [(k, -k, 0, shift(v.e, k))])


def eye(size):
    return Band(size, [(0, 0, 0, sp.Integer(1))])
