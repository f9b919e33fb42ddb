"""Symbolic dimensions (integer polynomials over dimension atoms >= 1), path conditions, forking.

A contract is executed once per path: every undetermined condition asks Ctx.decide, which follows a recorded prefix of
decisions and queues the untaken side.  z3 answers which sides are feasible.
"""
import z3, time


class Unsupported(Exception):
    """the engine cannot represent this step: the obligations of the run are left undischarged, never reported as violations"""


class PathEnd(Exception):
    """this path ends here (a loop step was checked, or the path condition is contradictory)"""


class Restart(BaseException):
    """a path condition fixes a dimension: run again with the value in place of the symbol"""


def freevars(e):
    out, todo = set(), [e]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


class Ctx:
    cur = None

    def __init__(self, prefix=(), subst=None, base=()):
        self.prefix = list(prefix)
        self.subst = dict(subst or {})
        self.user = set()
        self.taken = []
        self.pending = []
        self.z = {}
        self.names = []
        self.cons = list(base)  # z3 constraints on this path
        for e in base:
            for n in sorted(freevars(e)):
                self.z.setdefault(n, z3.Int(n))
        self.memo = {}
        self.atoms = []
        self.rules = {}
        self.closed = {}
        self.minmemo = {}
        self.assumed = set()    # textual assumptions used on this path
        self.obligs = []
        self.solver_s = 0.0
        self.nq = 0
        self.labels = 0
        self.ldim = {}
        self.writes = []        # (root id) written in place
        self.writes_other = []
        self.path_notes = []
        self.sat_cache = {}
        self.models = []
        self.flags = {}

    def __enter__(self):
        self.old, Ctx.cur = Ctx.cur, self
        return self

    def __exit__(self, *a):
        Ctx.cur = self.old

    def var(self, name, lo=1):
        if name not in self.z:
            self.z[name] = z3.Int(name)
            self.names.append(name)
            if lo is not None:
                self.cons.append(self.z[name] >= lo)
        return self.z[name]

    def check(self, extra):
        """satisfiability of the constraints of this path with extra.  The constraints only grow, so an answer 'unsat' stays;
        models found earlier are tried before the solver is asked."""
        key = extra.get_id()
        hit = self.sat_cache.get(key)
        if hit is not None and (hit[1] == z3.unsat or hit[2] == len(self.cons)):
            return hit[1]
        for i, (m, n) in enumerate(self.models):
            if m is None:
                continue
            if n < len(self.cons):
                if not all(z3.is_true(m.eval(e, model_completion=True)) for e in self.cons[n:]):
                    self.models[i] = (None, 0)
                    continue
                self.models[i] = (m, len(self.cons))
            if z3.is_true(m.eval(extra, model_completion=True)):
                self.sat_cache[key] = (extra, z3.sat, len(self.cons))
                return z3.sat
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.cons)
        s.add(extra)
        r = s.check()
        if r == z3.sat:
            self.models = [x for x in self.models if x[0] is not None][-5:]+[(s.model(), len(self.cons))]
        self.solver_s += time.time()-t
        self.nq += 1
        self.sat_cache[key] = (extra, r, len(self.cons))
        return r

    def feasible(self):
        return self.check(z3.BoolVal(True)) != z3.unsat

    def decide(self, e, note=None):
        """truth value of the z3 condition e on this path; forks when both are possible"""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.check(z3.Not(e)) == z3.unsat:
            return True
        if self.check(e) == z3.unsat:
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.pending.append(self.taken+[False])
        self.taken.append(v)
        self.cons.append(e if v else z3.Not(e))
        self.path_notes.append((note or str(e)) + (' = True' if v else ' = False'))
        self.fixed()
        return v

    def fixed(self):
        todo = [n for n in self.user if n not in self.subst]
        if not todo:
            return
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.cons)
        if s.check() != z3.sat:
            return
        m = s.model()
        new = {}
        for n in todo:
            v = m.eval(self.z[n], model_completion=True)
            if z3.is_int_value(v) and self.entails(self.z[n] == v):
                new[n] = v.as_long()
        if new:
            keep = [e for e in self.cons if freevars(e) <= self.user]
            raise Restart(dict(self.subst, **new), keep)

    def entails(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        return self.check(z3.Not(e)) == z3.unsat

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise PathEnd('contradictory assumption')
            return
        self.cons.append(e)
        if not self.feasible():
            raise PathEnd('infeasible')

    def choose(self, note):
        """an opaque boolean (the data decides): both sides are followed"""
        b = z3.Bool('b%d' % len(self.taken))
        self.flags['data'] = self.flags.get('data', 0)+1
        return self.decide(b, note)


def ctx():
    if Ctx.cur is None:
        raise Unsupported('no context')
    return Ctx.cur


class Dim:
    """integer polynomial over dimension atoms; always holds at least one atom (constants are plain ints)"""
    __slots__ = ('p', '_k')

    def __init__(self, p):
        self.p = p
        self._k = tuple(sorted(p.items()))

    @staticmethod
    def atom(name, lo=1, user=False):
        c = ctx()
        if user:
            c.user.add(name)
        if name in c.subst:
            return c.subst[name]
        if name in c.z and name not in c.names:       # known from carried-over constraints
            c.names.append(name)
            if lo is not None:
                c.cons.append(c.z[name] >= lo)
        c.var(name, lo)
        return Dim({(name,): 1})

    @staticmethod
    def mk(p):
        p = {m: c for m, c in p.items() if c != 0}
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        return Dim(p)

    def key(self):
        return self._k

    def z3(self):
        e = 0
        for m, c in self.p.items():
            t = z3.IntVal(c)
            for a in m:
                t = t*ctx().var(a)
            e = e+t
        return z3.simplify(e)

    def __add__(s, o):
        o = pol(o)
        if o is None:
            return NotImplemented
        r = dict(s.p)
        for m, c in o.items():
            r[m] = r.get(m, 0)+c
        return Dim.mk(r)
    __radd__ = __add__

    def __neg__(s):
        return Dim.mk({m: -c for m, c in s.p.items()})

    def __sub__(s, o):
        if pol(o) is None:
            return NotImplemented
        return s+(-o)

    def __rsub__(s, o):
        if pol(o) is None:
            return NotImplemented
        return (-s)+o

    def __mul__(s, o):
        if isinstance(o, list):
            import loops
            return loops.repeat(o, s)
        o = pol(o)
        if o is None:
            return NotImplemented
        r = {}
        for m, c in s.p.items():
            for n, e in o.items():
                k = tuple(sorted(m+n))
                r[k] = r.get(k, 0)+c*e
        return Dim.mk(r)
    __rmul__ = __mul__

    def __pow__(s, n):
        if isinstance(n, int) and n >= 0:
            r = 1
            for _ in range(n):
                r = s*r
            return r
        raise Unsupported('power of a symbolic dimension')

    def __rpow__(s, n):
        return powdim(n, s)

    def __floordiv__(s, o):
        q = divide(s, o)
        if q is not None:
            return q
        # floor of a division by a constant
        if isinstance(o, int) and o > 0:
            c = ctx()
            nm = 'q(%s/%d)' % (show(s), o)
            d = Dim.atom(nm, None)
            if nm not in c.minmemo:
                c.minmemo[nm] = d
                c.cons.append(z3.And(c.z[nm]*o <= zz(s), zz(s) < c.z[nm]*o+o))
            return d
        raise Unsupported('floor division of dimensions')

    def __rfloordiv__(s, o):
        raise Unsupported('division by a symbolic dimension')

    def __mod__(s, o):
        if divide(s, o) is not None:
            return 0
        return s-(s//o)*o

    def __truediv__(s, o):
        raise Unsupported('true division of a dimension')

    def __rtruediv__(s, o):
        from sym import dim_scalar
        return o*dim_scalar(s, -1)

    def __abs__(s):
        return s if s >= 0 else -s

    def __eq__(s, o):
        if isinstance(o, Dim) and s._k == o._k:
            return True
        if pol(o) is None:
            return False
        return ctx().decide(s.z3() == zz(o))

    def __ne__(s, o):
        return not s == o

    def __lt__(s, o):
        return ctx().decide(s.z3() < zz(o))

    def __le__(s, o):
        return ctx().decide(s.z3() <= zz(o))

    def __gt__(s, o):
        return ctx().decide(s.z3() > zz(o))

    def __ge__(s, o):
        return ctx().decide(s.z3() >= zz(o))

    def __hash__(s):
        return hash(s._k)

    def __bool__(s):
        return s != 0

    def __index__(s):
        raise Unsupported('symbolic dimension used as a concrete index (%s)' % show(s))
    __int__ = __index__

    def __float__(s):
        raise Unsupported('symbolic dimension as a float')

    def __repr__(s):
        return show(s)

    def __deepcopy__(s, memo):
        return s

    def __copy__(s):
        return s

    def item(s):
        return s


def powdim(n, s):
    """n**s for integer n and symbolic s: an opaque dimension with its recursion left unknown"""
    if n == 1:
        return 1
    if isinstance(n, (int, Dim)):
        c = ctx()
        nm = 'pow(%s,%s)' % (show(n), show(s))
        return Dim.atom(nm)
    raise Unsupported('power with symbolic exponent')


def pol(o):
    if isinstance(o, Dim):
        return o.p
    if isinstance(o, bool):
        return {(): int(o)} if o else {}
    if isinstance(o, int):
        return {(): o} if o else {}
    try:
        import numpy as np
        if isinstance(o, np.integer):
            return {(): int(o)} if o else {}
        if isinstance(o, float) and o == int(o):
            return {(): int(o)} if o else {}
    except (OverflowError, ValueError):
        pass
    return None


def zz(o):
    if isinstance(o, Dim):
        return o.z3()
    if isinstance(o, float) and o != int(o):
        return z3.RealVal(o)
    return z3.IntVal(int(o))


def show(d):
    if not isinstance(d, Dim):
        return str(d)
    return '+'.join(('' if c == 1 and m else str(c)+('*' if m else '')) + '*'.join(m) for m, c in d._k)


def dkey(d):
    return d._k if isinstance(d, Dim) else d


def same(a, b):
    """equal on this path, without forking"""
    if isinstance(a, Dim) or isinstance(b, Dim):
        if dkey(a) == dkey(b):
            return True
        if not isinstance(a, (int, Dim)) or not isinstance(b, (int, Dim)):
            return False
        return ctx().entails(zz(a) == zz(b))
    return a == b


def divide(a, b):
    """exact quotient of polynomials, or None"""
    if not isinstance(a, Dim) and not isinstance(b, Dim):
        return a//b if b != 0 and a % b == 0 else None
    pa, pb = dict(pol(a)), pol(b)
    if not pb:
        return None
    q = {}
    lead = max(pb.items(), key=lambda t: (len(t[0]), t[0]))
    n = 0
    while pa:
        n += 1
        if n > 50:
            return None
        m, c = max(pa.items(), key=lambda t: (len(t[0]), t[0]))
        if c % lead[1]:
            return None
        mm = list(m)
        for x in lead[0]:
            if x not in mm:
                return None
            mm.remove(x)
        k = tuple(mm)
        e = c//lead[1]
        q[k] = q.get(k, 0)+e
        for m2, c2 in pb.items():
            kk = tuple(sorted(m2+k))
            pa[kk] = pa.get(kk, 0)-c2*e
            if pa[kk] == 0:
                del pa[kk]
    return Dim.mk(q)


def dimsqrt(x):
    """exact square root of a polynomial that is a perfect square (positive branch: its leading coefficient is positive), or None"""
    order = lambda m: (len(m), m)
    rest, q = dict(x.p), {}
    for _ in range(12):
        if not rest:
            r = Dim.mk(q)
            return r if not isinstance(r, Dim) or ctx().entails(r.z3() >= 0) else None
        m, c = max(rest.items(), key=lambda t: order(t[0]))
        if not q:
            if len(m) % 2 or m[::2] != m[1::2] or c < 0 or int(round(c**.5))**2 != c:
                return None
            q[m[::2]] = int(round(c**.5))
        else:
            lead = max(q.items(), key=lambda t: order(t[0]))
            k = divide(Dim.mk({m: c}), Dim.mk({lead[0]: 2*lead[1]}))
            if k is None:
                return None
            for mm, cc in (pol(k) or {}).items():
                q[mm] = q.get(mm, 0)+cc
        rest = dict((x-Dim.mk(q)*Dim.mk(q)).p) if isinstance(x-Dim.mk(q)*Dim.mk(q), Dim) else ({(): x-Dim.mk(q)*Dim.mk(q)} if x-Dim.mk(q)*Dim.mk(q) else {})
    return None


def dprod(l):
    r = 1
    for x in l:
        r = x*r
    return r


def _ext(kind, xs):
    c = ctx()
    out = []
    for x in xs:
        if not any(same(x, y) for y in out):
            out.append(x)
    cons = [x for x in out if not isinstance(x, Dim)]
    if cons:
        k = max(cons) if kind == 'max' else min(cons)
        out = [x for x in out if isinstance(x, Dim)]+[k]
    # drop the dominated
    keep = []
    for i, x in enumerate(out):
        dom = False
        for j, y in enumerate(out):
            if i == j:
                continue
            e = (zz(y) >= zz(x)) if kind == 'max' else (zz(y) <= zz(x))
            if c.entails(e) and not (c.entails(zz(y) == zz(x)) and j > i):
                dom = True
                break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda d: str(dkey(d)))
    nm = '%s(%s)' % (kind, ','.join(show(x) for x in keep))
    if nm not in c.minmemo:
        d = Dim.atom(nm, 0)
        z = c.z[nm]
        for x in keep:
            c.cons.append(z >= zz(x) if kind == 'max' else z <= zz(x))
        c.cons.append(z3.Or([z == zz(x) for x in keep]))
        c.minmemo[nm] = d
    return c.minmemo[nm]


def dmax(*xs):
    return _ext('max', list(xs))


def dmin(*xs):
    return _ext('min', list(xs))
