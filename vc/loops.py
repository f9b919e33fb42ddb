"""Sequences of symbolic length and the loop rule.

SymSeq stands in for a python list whose length is an integer unknown: a list of parts (an arbitrary family of tensors, a
single site, a passed segment known by its product).  SymIter is an iterable over a symbolic range; the for statement of the
real code drives it.  On the first __next__ the invariant is checked at entry, then the path forks:

  * an arbitrary iteration: the state is replaced by an arbitrary one satisfying the invariant at index k, the real body
    runs once, the invariant is checked at the next index and the path ends;
  * after the loop: the state is replaced by an arbitrary one satisfying the invariant at the end of the range.

Everything the body may write has to be covered by the invariant: locals bound in the body and not described by it are
poisoned, and a change to any other reachable list, array or attribute is refused.
"""
import sys, dis, ctypes
import numpy as np
import z3
from dims import Dim, ctx, Unsupported, PathEnd, dprod, same, zz, show
import sym, shim
from sym import SArr, Atom, Rule, gen, of_atom, lift, nodim1


class Poison:
    """a value the invariant says nothing about"""
    def __init__(self, why):
        self.__dict__['why'] = why

    def _no(self, *a, **k):
        raise Unsupported('use of a value no loop invariant describes (%s)' % self.__dict__['why'])
    __getattr__ = __call__ = __getitem__ = __bool__ = __iter__ = __eq__ = __ne__ = __len__ = __add__ = __mul__ = __matmul__ = _no
    __hash__ = None


def ent(e):
    return ctx().entails(e)


def lt(a, b):
    return a < b if not isinstance(a, Dim) and not isinstance(b, Dim) else ent(zz(a) < zz(b))


def le(a, b):
    return a <= b if not isinstance(a, Dim) and not isinstance(b, Dim) else ent(zz(a) <= zz(b))


def fresh_index(name, lo, hi):
    """lo <= k < hi"""
    c = ctx()
    n = c.flags['nidx'] = c.flags.get('nidx', 0)+1
    k = Dim.atom('%s%d' % (name, n), None)
    c.assume(zz(lo) <= zz(k))
    c.assume(zz(k) < zz(hi))
    return k


def fresh_dim(name):
    c = ctx()
    n = c.flags['nfd'] = c.flags.get('nfd', 0)+1
    return Dim.atom('%s%d' % (name, n))


class Fam:
    """an arbitrary family of site tensors (d, D_i, D_i+1), i in [lo, hi)"""

    def __init__(self, name, lo, hi, d, left=1, right=1, iso=None, standard=False, flat=False, split=None, cap=None):
        self.cap = cap
        self.flat, self.split = flat, split
        if split:
            ctx().flags['split'] = split
        self.name, self.lo, self.hi, self.d, self.iso, self.standard = name, lo, hi, d, iso, standard
        self.bonds = [(lo, left), (hi, right)]
        self.sites, self.segs = [], []

    def bond(self, i):
        for j, b in self.bonds:
            if same(i, j):
                return b
        for j, b in self.bonds:         # equal positions are recognised, on a path of their own if need be
            if i == j:
                return b
        b = 1 if self.flat else fresh_dim('D'+self.name)
        self.bonds.append((i, b))
        if self.cap is not None and isinstance(b, Dim):
            ctx().assume(zz(b) <= zz(self.cap))
        if self.standard:       # no bond exceeds d times its neighbours
            for j, e in self.bonds:
                if same(j, i+1) or same(j+1, i):
                    ctx().assume(zz(b) <= zz(e*self.d))
                    ctx().assume(zz(e) <= zz(b*self.d))
        return b

    def site(self, i):
        for j, s in self.sites:
            if same(i, j):
                return s
        for j, s in self.sites:
            if i == j:
                return s
        cut(i)
        a = gen('%s[%s]' % (self.name, show(i)), [self.split or (self.d,), (self.bond(i),), (self.bond(i+1),)])
        self.sites.append((i, a))
        self.isometric(a, 1, 2)
        return a

    def isometric(self, a, l, r):
        """every site, and so every run of sites, of the family is an isometry"""
        if self.iso:
            (t,) = a.terms
            (at, _, _), = t.facs
            n = [len(x) for x in a.axes]
            pos = [list(range(sum(n[:i]), sum(n[:i+1]))) for i in range(3)]
            free = pos[r] if self.iso == 'l' else pos[l]
            shim.iso_rule('%s: isometry' % at.name, at, [i for i in range(sum(n)) if i not in free], free)

    def seg(self, i, j):
        """product of the sites [i, j): (left, block, right)"""
        if i == j:
            return eye3(self.bond(i))
        inner = []
        for k in cuts():
            if le(i, k) and lt(k, j):
                inner.append(k)
            elif not (lt(k, i) or le(j, k)) and not (k < i or j <= k):
                inner.append(k)
        if not inner:
            for a, b, t in self.segs:
                if same(a, i) and same(b, j):
                    return t
            t = gen('%s[%s,%s)' % (self.name, show(i), show(j)), [(self.bond(i),), (block(self.d, i, j),), (self.bond(j),)])
            self.segs.append((i, j, t))
            self.isometric(t, 0, 2)
            return t
        first = inner[0]
        for k in inner[1:]:
            if k < first:
                first = k
        return chain([self.seg(i, first), site3(self.site(first)), self.seg(first+1, j)])


def cuts():
    """positions at which sites were looked at one by one (all chains are cut there, so that their blocks line up)"""
    return ctx().flags.setdefault('cuts', [])


def cut(i):
    if not any(same(i, j) for j in cuts()):
        cuts().append(i)


def block(d, i, j):
    """dimension of the sites [i, j) of a chain of local dimension d"""
    known = ctx().flags.setdefault('blocks', [])
    for e, a, b, n in known:
        if same(d, e) and same(a, i) and same(b, j):
            return n
    n = fresh_dim('n')
    known.append((d, i, j, n))
    return n


def eye3(D):
    """the empty product"""
    e = sym.eye(D)
    return SArr([e.axes[0], (), e.axes[1]], e.terms)


def site3(A):
    """a site tensor (d, l, r) as (l, d, r)"""
    return A.transpose(1, 0, 2)


def chain(ts):
    """product of (left, block, right) tensors with the blocks joined"""
    r = ts[0]
    for t in ts[1:]:
        x = sym.tensordot(r, t, [2], [0])           # l, b1, b2, r
        r = SArr([x.axes[0], x.axes[1]+x.axes[2], x.axes[3]], x.terms)
    return r


class Part:
    def __init__(self, kind, lo, hi, val, off=0, flag=None, cap=None):
        self.kind, self.lo, self.hi, self.val, self.off, self.flag, self.cap = kind, lo, hi, val, off, flag, cap

    def cut(self, lo, hi):
        return Part(self.kind, lo, hi, self.val, self.off, self.flag, self.cap)

    def same(self, o):
        return self.kind == o.kind and self.val is o.val and same(self.off, o.off) and same(self.lo, o.lo) and same(self.hi, o.hi)


def repeat(x, n):
    """[x] * n"""
    if len(x) != 1:
        raise Unsupported('repetition of a list')
    return SymSeq.fn(n, lambda k: x[0])


class SymSeq:
    """a list of symbolic length"""

    def __init__(self, parts, length):
        self.parts, self.length = parts, length

    @staticmethod
    def of(fam):
        return SymSeq([Part('fam', fam.lo, fam.hi, fam)], fam.hi)

    @staticmethod
    def fn(length, f):
        return SymSeq([Part('fn', 0, length, Memo(f))], length)

    def copy(self):
        return SymSeq(list(self.parts), self.length)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = []
        for p in self.parts:
            if p.kind == 'site':
                p = Part('site', p.lo, p.hi, p.val.copy())
            elif p.kind == 'fn':
                raise Unsupported('deep copy')
            r.append(p)
        return SymSeq(r, self.length)

    # -- indexing
    def norm(self, i):
        if not isinstance(i, (int, Dim)) or isinstance(i, bool):
            raise Unsupported('index of a sequence: %r' % (i,))
        if i < 0:
            i = i+self.length
            if i < 0:
                raise IndexError('list index out of range')
        elif not i < self.length:
            raise IndexError('list index out of range')
        return i

    def find(self, i):
        for n, p in enumerate(self.parts):
            if n == len(self.parts)-1 or i < p.hi:
                return n, p
        raise IndexError

    def isolate(self, i):
        """make i a part of its own (sites of families become known by index)"""
        n, p = self.find(i)
        if p.kind == 'site':
            return n
        if p.kind == 'fam':
            v = p.val.site(i+p.off)
        elif p.kind == 'fn':
            v = p.val(i)
            if not isinstance(v, SArr):
                raise Unsupported('entry of a computed list')
        else:
            raise Unsupported('site inside a passed segment')
        new = [p.cut(p.lo, i), Part('site', i, i+1, v), p.cut(i+1, p.hi)]
        new = [q for q in new if q.kind == 'site' or not same(q.lo, q.hi)]
        self.parts[n:n+1] = new
        return [k for k, q in enumerate(self.parts) if q.kind == 'site' and q.val is v and same(q.lo, i)][0]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        i = self.norm(i)
        n, p = self.find(i)
        if p.kind == 'fn':
            return p.val(i)
        return self.parts[self.isolate(i)].val

    def slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                src = self.copy()
                return SymSeq.fn(self.length, lambda k: src[src.length-1-k])
            raise Unsupported('slice of a sequence')
        lo = 0 if s.start is None else s.start
        hi = self.length if s.stop is None else s.stop
        if lo < 0:
            lo = lo+self.length
            if lo < 0:
                lo = 0
        if hi < 0:
            hi = hi+self.length
        if not hi <= self.length:
            hi = self.length
        n = hi-lo
        if not isinstance(n, Dim):
            return [self[lo+k] for k in range(max(n, 0))]
        src = self.copy()
        out = []
        for p in src.parts:
            a, b = (p.lo if p.lo >= lo else lo), (p.hi if p.hi <= hi else hi)
            if a < b:
                q = p.cut(a-lo, b-lo)
                q.off = p.off+lo if p.kind == 'fam' else p.off
                if p.kind == 'fn':
                    q.val = Memo(lambda k, f=p.val: f(k+lo))
                if p.kind == 'seg' and not (same(a, p.lo) and same(b, p.hi)):
                    raise Unsupported('slice through a passed segment')
                out.append(q)
        return SymSeq(out, n)

    def __setitem__(self, i, v):
        i = self.norm(i)
        n, p = self.find(i)
        if p.kind == 'fn' or (p.kind == 'fam' and not any(same(j, i+p.off) for j, _ in p.val.sites)):
            new = [p.cut(p.lo, i), Part('val', i, i+1, v), p.cut(i+1, p.hi)]
            self.parts[n:n+1] = [q for q in new if q.kind == 'val' or not same(q.lo, q.hi)]
            for q in self.parts:
                if q.kind == 'val':
                    q.kind = 'site' if isinstance(v, SArr) else 'fn'
                    if q.kind == 'fn':
                        q.val = Memo(lambda k, v=v: v)
            return
        n = self.isolate(i)
        self.parts[n] = Part('site', i, i+1, v)

    def __delitem__(self, i):
        i = self.norm(i)
        n = self.isolate(i)
        out = self.parts[:n]
        for p in self.parts[n+1:]:
            q = p.cut(p.lo-1, p.hi-1)
            if p.kind == 'fam':
                q.off = p.off+1
            if p.kind == 'fn':
                q.val = Memo(lambda k, f=p.val: f(k+1))
            out.append(q)
        self.parts, self.length = out, self.length-1

    def append(self, v):
        self.parts.append(Part('site', self.length, self.length+1, v) if isinstance(v, SArr) else Part('fn', self.length, self.length+1, Memo(lambda k: v)))
        self.length = self.length+1

    def __add__(self, o):
        r = self.copy()
        if isinstance(o, list):
            for x in o:
                r.append(x)
            return r
        if not isinstance(o, SymSeq):
            return NotImplemented
        for p in o.parts:
            q = p.cut(p.lo+self.length, p.hi+self.length)
            if p.kind == 'fam':
                q.off = p.off-self.length
            if p.kind == 'fn':
                q.val = Memo(lambda k, f=p.val: f(k-self.length))
            r.parts.append(q)
        r.length = self.length+o.length
        return r

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = SymSeq([], 0)
        for x in o:
            r.append(x)
        return r+self

    def reverse(self):
        raise Unsupported('reverse of a sequence')

    def __len__(self):
        if isinstance(self.length, Dim):
            raise Unsupported('len() of a sequence of symbolic length')
        return self.length

    def __iter__(self):
        return iter(SymIter(0, self.length, lambda k: self[k]))

    def __reversed__(self):
        return iter(SymIter(0, self.length, lambda k: self[k], True))

    # -- specification side
    def bond(self, i):
        """bond dimension to the left of site i"""
        if i == self.length:
            p = self.parts[-1]
            return p.val.bond(p.hi+p.off) if p.kind == 'fam' or p.kind == 'fn' and hasattr(p.val, 'bond') else p.val.shape[2]
        for p in self.parts:
            if p.lo <= i and i < p.hi:
                if p.kind == 'fam':
                    return p.val.bond(i+p.off)
                if p.kind == 'site':
                    return p.val.shape[1]
                if p.kind == 'seg' and same(p.lo, i):
                    return p.val.shape[0]
                if p.kind == 'fn' and hasattr(p.val, 'bond'):
                    return p.val.bond(i)
                raise Unsupported('bond inside a segment')
        raise Unsupported('position of bond %s' % show(i))

    def product(self, lo, hi):
        """(left, block, right) product of the sites [lo, hi)"""
        out = []
        for p in ([] if lo == hi else self.cover(lo, hi)):
            a, b = p.lo, p.hi
            if p.kind == 'fam':
                out.append(p.val.seg(a+p.off, b+p.off))
            elif p.kind == 'site':
                out.append(site3(p.val))
            elif p.kind == 'seg':
                out.append(p.val)
            elif hasattr(p.val, 'product'):
                out.append(p.val.product(a, b))
            else:
                raise Unsupported('product of computed entries')
        return chain(out) if out else eye3(self.bond(lo))

    def full(self):
        return self.product(0, self.length)

    def unchanged_outside(self, base, lo, hi):
        """sites outside [lo, hi) are those of base (same length)"""
        if not same(self.length, base.length):
            return 'length'
        for a, b in ((0, lo), (hi, self.length)):
            if same(a, b):
                continue
            x, y = self.cover(a, b), base.cover(a, b)
            # cut at each other's points
            pts = sorted_points([p.lo for p in x+y]+[p.hi for p in x+y])
            for u, v in zip(pts, pts[1:]):
                p, q = piece(x, u, v), piece(y, u, v)
                if p is None or q is None:
                    return 'parts do not line up'
                if p.kind == q.kind and p.val is q.val and same(p.off, q.off):
                    continue
                if p.kind == 'site' and q.kind == 'fam' and any(same(i, u+q.off) and not (s-p.val).nf() for i, s in q.val.sites):
                    continue
                if q.kind == 'site' and p.kind == 'fam' and any(same(i, u+p.off) and not (s-q.val).nf() for i, s in p.val.sites):
                    continue
                if p.kind == q.kind == 'site' and p.val.ndim == q.val.ndim and all(same(i, j) for i, j in zip(p.val.shape, q.val.shape)) and not (p.val-q.val).nf():
                    continue
                return 'changed between %s and %s' % (show(u), show(v))
        return ''

    def cover(self, a, b):
        """the parts of [a, b), cut at its ends (positions are decided, on paths of their own if need be)"""
        out = []
        for p in self.parts:
            if p.hi <= a or b <= p.lo:
                continue
            lo = a if p.lo <= a else p.lo
            hi = b if b <= p.hi else p.hi
            if p.kind == 'seg' and not (same(lo, p.lo) and same(hi, p.hi)):
                raise Unsupported('part of a passed segment')
            if p.kind == 'site':
                lo, hi = p.lo, p.hi
            out.append(p.cut(lo, hi))
        return out


def sorted_points(ps):
    out = []
    for p in ps:
        if any(same(p, q) for q in out):
            continue
        k = 0
        while k < len(out) and le(out[k], p):
            k += 1
        if k < len(out) and not le(p, out[k]):
            raise Unsupported('order of indices')
        out.insert(k, p)
    return out


def piece(ps, u, v):
    for p in ps:
        if le(p.lo, u) and le(v, p.hi):
            return p
    return None


class Memo:
    def __init__(self, f):
        self.f, self.known = f, []

    def __call__(self, i):
        for j, v in self.known:
            if same(i, j):
                return v
        v = self.f(i)
        self.known.append((i, v))
        return v


# ------------------------------------------------------------------ iteration

def symbolic(x):
    return isinstance(x, (SymSeq, SymIter)) or (getattr(x, 'data', None).__class__ is SymSeq and hasattr(type(x), '__getitem__') and not hasattr(type(x), '__iter__'))


def as_iter(x):
    if isinstance(x, SymIter):
        return x
    if isinstance(x, SymSeq):
        return SymIter(0, x.length, lambda k: x[k])
    if symbolic(x):         # a class with __getitem__ over its list
        return SymIter(0, x.data.length, lambda k: x[k])
    raise Unsupported('iteration of %s' % type(x).__name__)


class SymIter:
    """lo <= k < hi, upwards or downwards, yielding at(k)"""

    def __init__(self, lo, hi, at=None, down=False):
        self.lo, self.hi, self.at, self.down = lo, hi, at or (lambda k: k), down

    @property
    def n(self):
        return self.hi-self.lo

    def item(self, p):
        """p-th item"""
        return self.at(self.hi-1-p if self.down else self.lo+p)

    def rev(self):
        return SymIter(self.lo, self.hi, self.at, not self.down)

    def __getitem__(self, s):
        if isinstance(s, slice):
            if s.step == -1 and s.start is None and s.stop is None:
                return self.rev()
            if s.step in (None, 1) and not self.down:
                lo, hi = self.lo, self.hi
                if s.stop is not None:
                    t = s.stop+lo if s.stop >= 0 else s.stop+hi
                    if t <= hi:
                        hi = t
                if s.start is not None:
                    t = s.start+lo if s.start >= 0 else s.start+hi
                    lo = t if t <= hi else hi
                return SymIter(lo, hi, self.at)
            if s.step in (None, 1) and s.start is None and isinstance(s.stop, int) and s.stop < 0:
                return SymIter(self.lo-s.stop, self.hi, self.at, True)
            raise Unsupported('slice of an iteration')
        if s < 0:
            s = s+self.n
        return self.item(s)

    def __len__(self):
        raise Unsupported('len() of a symbolic iteration')

    def __reversed__(self):
        return iter(self.rev())

    def __iter__(self):
        return LoopIter(self)

    def seq(self):
        """as a list"""
        if self.down:
            return SymSeq.fn(self.n, lambda p: self.item(p))
        return SymSeq.fn(self.n, lambda p: self.at(self.lo+p))


def p_range(*a):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if st == 1:
        return SymIter(lo, hi)
    if st == -1:
        return SymIter(hi+1, lo+1, None, True)
    raise Unsupported('step of a symbolic range')


def p_enumerate(x, start=0):
    it = as_iter(x)
    if it.down:
        return SymIter(0, it.n, lambda p: (p+start, it.item(p)))
    return SymIter(it.lo, it.hi, lambda k: (k-it.lo+start, it.at(k)))


def p_zip(xs):
    its = [as_iter(x) for x in xs]
    n = its[0].n
    for i in its[1:]:
        if not same(i.n, n):
            raise Unsupported('zip of sequences of different lengths')
    return SymIter(0, n, lambda p: tuple(i.item(p) for i in its))


def p_list(x):
    if isinstance(x, SymSeq):
        return x.copy()
    it = as_iter(x)
    return SymIter(it.lo, it.hi, it.at, it.down)


def listcomp(f, it, star):
    """[f(x) for x in it] of a symbolic iteration"""
    g = (lambda t: f(*t)) if star else f
    if isinstance(it, SymSeq) and not star:
        out = []
        for p in it.parts:
            if p.kind == 'site':
                v = f(p.val)
                out.append(Part('site', p.lo, p.hi, v) if isinstance(v, SArr) else Part('fn', p.lo, p.hi, Memo(lambda k, v=v: v)))
            elif p.kind == 'fam' and identity_on(f, p):
                out.append(p)
            else:
                one = SymSeq([p.cut(p.lo, p.hi)], it.length)
                out.append(Part('fn', p.lo, p.hi, Memo(lambda k, one=one: f(one[k]))))
        return SymSeq(out, it.length)
    src = as_iter(it)
    return SymSeq.fn(src.n, lambda p: g(src.item(p)))


def p_sum(x, start=0):
    """the sum of a list of symbolic length: an unknown the specification compares entry by entry (Total)"""
    x = x if isinstance(x, SymSeq) else as_iter(x).seq()
    k = fresh_index('q', 0, x.length)
    v = lift(x[k])
    s = gen('sum%d' % len(sums()), v.axes)
    sums().append((x, s, k))
    return s if not isinstance(start, SArr) and start == 0 else start+s


def sums():
    return ctx().flags.setdefault('sums', [])


def identity_on(f, p):
    fam = p.val
    x = gen('probe', [fam.split or (fam.d,), (fresh_dim('u'),), (fresh_dim('v'),)])
    try:
        return f(x) is x
    except Unsupported:
        return False


# ------------------------------------------------------------------ the loop rule

def set_local(frame, name, v):
    frame.f_locals[name] = v
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def body_stores(frame):
    """names the body of the running for statement binds, loop targets included"""
    code = frame.f_code
    ins = list(dis.get_instructions(code))
    at = frame.f_lasti
    fi = None
    for n, i in enumerate(ins):
        if i.offset == at and i.opname == 'FOR_ITER':
            fi = n
    if fi is None:
        for n, i in enumerate(ins):
            if i.opname == 'FOR_ITER' and i.offset <= at:
                fi = n
    if fi is None:
        raise Unsupported('loop without FOR_ITER')
    end = ins[fi].argval
    return [i.argval for i in ins[fi+1:] if i.offset < end and i.opname in ('STORE_FAST', 'STORE_DEREF', 'STORE_FAST_LOAD_FAST')]


class Loop:
    """base class of invariants; subclasses describe what they cover"""
    locals_ = ()        # locals described
    attrs = ()          # (object, attribute) pairs the body may write, left unknown unless set by havoc

    def begin(self, frame, it):
        pass

    def havoc(self, frame, k):
        """state at index k (before iteration k); k = it.end after the loop"""

    def check(self, frame, k):
        """the state at index k"""

    def owned(self):
        """lists and arrays the invariant accounts for"""
        return []


class LoopIter:
    def __init__(self, it):
        self.it, self.state = it, 0

    def __iter__(self):
        return self

    def __next__(self):
        c = ctx()
        frame = sys._getframe(1)
        it = self.it
        if self.state == 0:
            q = c.flags.get('loops')
            named = c.flags.get('loops_in', {}).get(frame.f_code.co_name)
            if named:
                inv = self.inv = named()
            elif not q:
                raise Unsupported('a loop of symbolic length without an invariant')
            else:
                inv = self.inv = q.pop(0)
            self.c = c.flags['contract']
            self.start, self.end = (it.hi-1, it.lo-1) if it.down else (it.lo, it.hi)
            self.names = body_stores(frame)
            self.entry = dict(frame.f_locals)
            inv.names, inv.entry, inv.it, inv.end, inv.start = self.names, self.entry, it, self.end, self.start
            inv.c = self.c
            inv.begin(frame, it)
            inside = c.decide(z3.Bool('loop%d' % len(c.taken)), 'inside loop %d' % c.flags.setdefault('nloop', 0))
            c.flags['nloop'] += 1
            c.assumed.add('loop rule (partial correctness of the invariants; python ranges terminate)')
            for n in set(self.names):
                if n in self.entry and n not in inv.locals_:
                    set_local(frame, n, Poison(n))
            for o, a in inv.attrs:
                setattr(o, a, Poison(a))
            if inside:
                k = fresh_index('k', it.lo, it.hi)
                self.k = k
                inv.havoc(frame, k)
                self.heap = heap(frame, inv)
                self.state = 1
                return it.at(k)
            if not (it.lo <= it.hi):
                raise StopIteration        # empty range: nothing happened
            inv.havoc(frame, self.end)
            self.state = 2
            raise StopIteration
        if self.state == 1:
            inv = self.inv
            n = self.k-1 if it.down else self.k+1
            inv.check(frame, n)
            bad = changed(self.heap, heap(frame, inv))
            if bad:
                raise Unsupported('the loop body writes %s, which its invariant does not describe' % bad)
            raise PathEnd('loop step checked')
        raise StopIteration


def heap(frame, inv):
    """lists, arrays and repository objects reachable from the frame's locals"""
    own = {id(x) for x in inv.owned()}
    attrs = {(id(o), a) for o, a in inv.attrs}
    out, keep, seen = {}, [], set()
    names = set(inv.names) | set(inv.locals_)

    def walk(x, path, depth):
        if depth > 6 or id(x) in seen or id(x) in own:
            return
        if isinstance(x, SArr):
            seen.add(id(x))
            keep.append(x)
            out[('arr', id(x.root))] = (x.root.ver, path)
        elif isinstance(x, list):
            seen.add(id(x))
            keep.append(x)
            out[('list', id(x))] = (tuple(map(id, x)), path)
            for n, y in enumerate(x):
                walk(y, '%s[%d]' % (path, n), depth+1)
        elif isinstance(x, SymSeq):
            seen.add(id(x))
            keep.append(x)
            out[('seq', id(x))] = (tuple((id(p.val), p.kind) for p in x.parts if p.kind == 'site') and None, path)
        elif isinstance(x, dict):
            for k, y in x.items():
                walk(y, '%s[%r]' % (path, k), depth+1)
        elif isinstance(x, tuple):
            for k, y in enumerate(x):
                walk(y, '%s[%r]' % (path, k), depth+1)
        elif hasattr(x, '__dict__') and type(x).__module__.startswith('xmps'):
            seen.add(id(x))
            keep.append(x)
            for k, y in vars(x).items():
                if (id(x), k) not in attrs:
                    out[('attr', id(x), k)] = (id(y), path+'.'+k)
                    keep.append(y)
                walk(y, path+'.'+k, depth+1)
    for n, v in frame.f_locals.items():
        if n not in names:
            walk(v, n, 0)
        elif not isinstance(v, (SArr,)):
            walk(v, n, 0)
    out['keep'] = keep
    return out


def changed(a, b):
    for k, v in a.items():
        if k == 'keep':
            continue
        if k in b and b[k][0] != v[0]:
            return v[1]
    for k in b:
        if k != 'keep' and k[0] == 'attr' and k not in a and any(x[:2] == k[:2] for x in a if x != 'keep'):
            return b[k][1]
    return ''


def iso_factor(M, hand):
    """M = T G with T^H T = 1 (hand 'l') or M = G T with T T^H = 1 (hand 'r'); M: (left, block, right).  The inner dimension is
    unknown: every pair of this kind is covered."""
    l, b, r = M.axes
    rows, cols = (l+b, r) if hand == 'l' else (l, b+r)
    rows, cols = list(rows), list(cols)
    c = ctx()
    n = c.flags['niso'] = c.flags.get('niso', 0)+1
    outer = dprod(cols if hand == 'l' else rows)
    k = 1 if same(outer, 1) else fresh_dim('e')
    if isinstance(k, Dim):
        c.assume(zz(k) <= zz(outer))
    R, Cc = shim.names('r', len(rows)), shim.names('c', len(cols))
    ks = shim.nslot(k)
    kk = shim.names('k', len(ks))
    Mm = SArr([tuple(rows), tuple(cols)], M.terms)
    if hand == 'l':
        T = Atom('T%d' % n, rows+ks)
        G = Atom('G%d' % n, ks+cols)
        shim.iso_rule('T^H T = 1', T, range(len(rows)), range(len(rows), len(rows)+len(ks)))
        sym.add_rule(Rule('T G = old', [(T, False, R+kk), (G, False, kk+Cc)], set(kk), shim.rhs_of(Mm, R+Cc)))
        shim.half_rule('T^H old = G', T, True, R, Mm, (R, Cc), kk, [(1, {}, [(G, False, kk+Cc)], [], {})])
        shim.sq_rule('|G|^2 = |old|^2', G, Mm)
        return of_atom(T, [l, b, (k,)]), of_atom(G, [(k,), r])
    T = Atom('T%d' % n, ks+cols)
    G = Atom('G%d' % n, rows+ks)
    shim.iso_rule('T T^H = 1', T, range(len(ks), len(ks)+len(cols)), range(len(ks)))
    sym.add_rule(Rule('G T = old', [(G, False, R+kk), (T, False, kk+Cc)], set(kk), shim.rhs_of(Mm, R+Cc)))
    shim.half_rule('old T^H = G', T, 'front', Cc, Mm, (R, Cc), kk, [(1, {}, [(G, False, R+kk)], [], {})])
    shim.sq_rule('|G|^2 = |old|^2', G, Mm)
    return of_atom(T, [(k,), b, r]), of_atom(G, [l, (k,)])


class Sweep(Loop):
    """an orthogonalising sweep over m.data: the sites passed so far form an isometry T, the product of the original ones is
    T G (or G T), the site reached is the original one times G, the others are untouched.  After the last site of the chain the
    factor is m.<norm> if the code records it."""

    def __init__(self, m, hand, norm='norm_', extra=('canonical', 'orthogonal', 'oc'), fresh=None, tail=1):
        """tail: how many of the sites passed last are known one by one after the loop; fresh: a list; after the loop the chain is an arbitrary one of isometric sites (its product and the old one are related
        by the invariant: that is the caller's argument), and a copy is appended to the list"""
        self.m, self.hand, self.norm, self.fresh, self.tail = m, hand, norm, fresh, tail
        self.attrs = [(m, a) for a in extra]+([(m, norm)] if norm else [])

    cap = None
    factor = staticmethod(iso_factor)

    def owned(self):
        return [self.m.data]

    def begin(self, frame, it):
        if it.down != (self.hand == 'r'):
            raise Unsupported('sweep in the other direction')
        self.base = self.m.data.copy()
        self.seq = self.m.data

    def put(self, parts):
        self.m.data = self.seq
        self.seq.parts[:] = [p for p in parts if not same(p.lo, p.hi)]

    def havoc(self, frame, k):
        b, L = self.base, self.base.length
        lo, hi = (self.it.lo, k) if self.hand == 'l' else (k+1, self.it.hi)
        pass
        if k == self.start:
            # nothing passed yet
            G = sym.eye(b.bond(k if self.hand == 'l' else hi))
            self.put(b.cover(0, lo)+b.cover(hi, L))
            if k == self.end and (k == L if self.hand == 'l' else k == -1) and self.norm:
                raise Unsupported('empty chain')
            return
        if same(k, self.end) and self.fresh is not None:
            fam = isofam(b, self.hand, cap=self.cap)
            self.put([Part('fam', 0, L, fam)])
            self.fresh.append(self.seq.copy())
            if self.norm:
                setattr(self.m, self.norm, gen('factor', [(1,), (1,)]))
            return
        if same(k, self.end):
            # the sites passed last by themselves
            t = self.tail
            while t > 1 and not lo+t <= hi:
                t -= 1
            left = self.hand == 'l'
            x, y = (lo, hi-t) if left else (lo+t, hi)
            src = b.copy()
            mid, G = [], None
            if not x == y:
                T, G = self.factor(b.product(x, y), self.hand)
                mid = [Part('seg', x, y, T, flag=self.hand, cap=self.cap)]
            for q in range(t, 0, -1):
                at = hi-q if left else lo+q-1
                old = src[at]
                if G is not None:
                    old = lift(G)@old if left else old@lift(G)
                Q, G = self.factor(site3(old), self.hand)
                Q = [Part('site', at, at+1, site3(Q))]
                mid = mid+Q if left else Q+mid
            self.put(b.cover(0, lo)+mid+b.cover(hi, L))
        else:
            T, G = self.factor(b.product(lo, hi), self.hand)
            self.put(b.cover(0, lo)+[Part('seg', lo, hi, T, flag=self.hand, cap=self.cap)]+b.cover(hi, L))
        if self.hand == 'l':
            if hi < L:
                self.seq[hi] = lift(G)@b.copy()[hi]
            elif self.norm:
                setattr(self.m, self.norm, G)
        else:
            if lo > 0:
                self.seq[lo-1] = b.copy()[lo-1]@lift(G)
            elif self.norm:
                setattr(self.m, self.norm, G)

    def check(self, frame, k):
        c, b, m = self.c, self.base, self.m
        L = b.length
        if m.data is not self.seq:
            raise Unsupported('the list of tensors was replaced inside the loop')
        lo, hi = (self.it.lo, k) if self.hand == 'l' else (k+1, self.it.hi)
        M, T = b.product(lo, hi), m.data.product(lo, hi)
        j = hi-1 if self.hand == 'l' else lo
        A = m.data[j]
        nm = 'sweep: '
        (c.left_iso if self.hand == 'l' else c.right_iso)(nm+'the site just passed is an isometry', A)
        Th = T.conj()
        if self.hand == 'l':
            G = sym.tensordot(Th, M, [0, 1], [0, 1])
            back = sym.tensordot(T, G, [2], [0])
            gram = sym.tensordot(Th, T, [0, 1], [0, 1])
            at, edge = hi, (hi < L)
        else:
            G = sym.tensordot(M, Th, [1, 2], [1, 2])
            back = sym.tensordot(G, T, [1], [0])
            gram = sym.tensordot(T, Th, [1, 2], [1, 2])
            at, edge = lo-1, (lo > 0)
        c.true(nm+'bonds do not grow', c.le(T.shape[2] if self.hand == 'l' else T.shape[0], M.shape[2] if self.hand == 'l' else M.shape[0]))
        c.eq(nm+'passed sites form an isometry', gram, sym.eye(gram.shape[0]))
        self.kept(c, nm, back, M)
        if edge:
            want = (G@b.copy()[at]) if self.hand == 'l' else (b.copy()[at]@G)
            c.eq(nm+'the next site takes the factor', m.data[at], want)
            bad = m.data.unchanged_outside(b, min_(lo, at), max_(hi, at+1))
        else:
            if self.norm:
                c.eq(nm+'the factor is recorded', getattr(m, self.norm), G)
            bad = m.data.unchanged_outside(b, lo, hi)
        c.record(nm+'other sites are untouched', not bad, bad)

    def kept(self, c, nm, back, M):
        c.eq(nm+'the product is kept', back, M)


def iso_cut(M, hand, D):
    """T, an arbitrary isometry whose inner dimension is at most D and the outer one, and G = T^H M (hand 'l') or M T^H (hand 'r');
    an outer dimension of one is not cut"""
    l, b, r = M.axes
    outer = dprod(r if hand == 'l' else l)
    if same(outer, 1):
        return iso_factor(M, hand)
    rows, cols = (list(l+b), list(r)) if hand == 'l' else (list(l), list(b+r))
    c = ctx()
    n = c.flags['niso'] = c.flags.get('niso', 0)+1
    k = fresh_dim('e')
    c.assume(zz(k) <= zz(outer))
    c.assume(zz(k) <= zz(D))
    ks = shim.nslot(k)
    if hand == 'l':
        T = Atom('T%d' % n, rows+ks)
        shim.iso_rule('T^H T = 1', T, range(len(rows)), range(len(rows), len(rows)+len(ks)))
        T = of_atom(T, [l, b, (k,)])
        return T, sym.tensordot(T.conj(), M, [0, 1], [0, 1])
    T = Atom('T%d' % n, ks+cols)
    shim.iso_rule('T T^H = 1', T, range(len(ks), len(ks)+len(cols)), range(len(ks)))
    T = of_atom(T, [(k,), b, r])
    return T, sym.tensordot(M, T.conj(), [1, 2], [1, 2])


class Cut(Sweep):
    """a truncating sweep: the sites passed so far form an isometry T with bonds of at most D, the site reached is the original one
    times T^H (original product of the passed sites): the state is the original one projected on what T spans"""

    def __init__(self, m, hand, norm, D, **k):
        Sweep.__init__(self, m, hand, norm, **k)
        self.D = D
        self.factor = lambda M, hand: iso_cut(M, hand, D)
        self.cap = D

    def havoc(self, frame, k):
        Sweep.havoc(self, frame, k)
        if not same(k, self.end):
            at = k
            self.arrived = lift(self.seq.copy()[at])

    def kept(self, c, nm, back, M):
        pass

    def check(self, frame, k):
        Sweep.check(self, frame, k)
        c = self.c
        left = self.hand == 'l'
        A = lift(self.m.data[k-1 if left else k+1])
        c.true('sweep: bond within the limit', c.le(A.shape[2 if left else 1], self.D))
        old = self.arrived
        if same(old.shape[2 if left else 1], 1):
            a, o = site3(A), site3(old)
            if left:
                back = sym.tensordot(a, sym.tensordot(a.conj(), o, [0, 1], [0, 1]), [2], [0])
            else:
                back = sym.tensordot(sym.tensordot(o, a.conj(), [1, 2], [1, 2]), a, [1], [0])
            c.eq('sweep: an outer bond is not cut', back, o)


def isofam(b, hand, name='B', cap=None):
    """an arbitrary chain of isometric sites as long as b"""
    f = b.parts[0].val if b.parts[0].kind == 'fam' else None
    d = f.d if f is not None else b.parts[0].val.shape[0]
    return Fam(name, 0, b.length, d, 1, 1, iso=hand, split=next((p for p in [ctx().flags.get('split')] if p and same(dprod(p), d)), None), cap=cap)


class Gauged:
    """sites V_i^H B_i V_i+1 of a chain B, with V_i(i) a unitary"""

    def __init__(self, base, V):
        self.base, self.V, self.f = base, V, self
        self.known = []

    def __call__(self, i):
        for j, v in self.known:
            if same(i, j):
                return v
        B = self.base[i]
        a, b = self.V(i), self.V(i+1)
        v = sym.tensordot(sym.tensordot(B, a.conj(), [1], [0]), b, [1], [0])      # d, a, b
        self.known.append((i, v))
        return v

    def bond(self, i):
        return self.base.bond(i)

    def product(self, lo, hi):
        P = self.base.product(lo, hi)
        x = sym.tensordot(self.V(lo).conj(), P, [0], [0])
        return sym.tensordot(x, self.V(hi), [2], [0])


class Accum(Loop):
    """an accumulated array B: iteration k adds something whose image under `view` is term(k).  After the loop B is an array
    recorded with ctx().flags['accum']."""

    def __init__(self, checks, what='sum'):
        """checks(c, entry, k, increment): the clauses an increment has to satisfy"""
        self.checks, self.what = checks, what

    def begin(self, frame, it):
        self.carried = [n for n in dict.fromkeys(self.names) if isinstance(self.entry.get(n), (SArr, np.ndarray))]
        if len(self.carried) != 1:
            raise Unsupported('accumulators of the loop: %s' % (self.carried,))
        self.locals_ = self.carried
        self.start_value = lift(self.entry[self.carried[0]])
        self.c.eq('%s: starts from zero' % self.what, self.start_value, self.start_value*0)
        self.other = [v for n, v in frame.f_locals.items() if isinstance(v, list)]
        self.lens = [len(v) for v in self.other]

    def owned(self):
        return self.other

    def havoc(self, frame, k):
        n = len(ctx().flags.setdefault('accum', []))
        self.B = gen('accumulated%d' % n, self.start_value.axes)
        ctx().flags['accum'].append((self.B.copy(), dict(self.entry)))
        self.k = k
        self.before = self.B.copy()
        set_local(frame, self.carried[0], self.B)

    def check(self, frame, k):
        B = lift(frame.f_locals[self.carried[0]])
        self.checks(self.c, self.entry, self.k, B-self.before)


class Spectra(Loop):
    """the sweep that brings the environments of a chain of isometries B to diagonal form.  hand 'l' (left isometries): going
    down, at bond i the environment X_i of the sites [i, L) is V_i L_i V_i^H; the sites passed are V_i^H B_i V_i+1.  hand 'r':
    the same from the left, with X_i the environment of the sites [0, i) and the lists shifted by one."""

    def __init__(self, m, hand, names=('Vs', 'Ls', 'V', 'S')):
        self.m, self.hand, self.ln = m, hand, names
        self.locals_ = names
        self.attrs = []

    def owned(self):
        return [self.m.data]+list(self.lists)

    def env(self, i):
        if self.hand == 'l':
            x = self.base.product(i, self.base.length)
            return sym.tensordot(x, x.conj(), [1, 2], [1, 2])
        x = self.base.product(0, i)
        return sym.tensordot(x.conj(), x, [0, 1], [0, 1])

    def begin(self, frame, it):
        if it.down != (self.hand == 'l') or any(n not in frame.f_locals for n in self.ln):
            raise Unsupported('sweep of the spectra')
        self.seq, self.base = self.m.data, self.m.data.copy()
        L = self.base.length
        self.lists = [frame.f_locals[n] for n in self.ln[:2]]
        if any(not isinstance(x, SymSeq) or not same(x.length, L) for x in self.lists):
            raise Unsupported('lists of the sweep of the spectra')
        self.empty = [list(x.parts) for x in self.lists]
        edge = L if self.hand == 'l' else 0
        for n in self.ln[2:]:
            self.c.eq('spectra: %s at the start' % n, frame.f_locals[n], sym.eye(1))
        self.diag = self.c.mod('xmps.tensor').diagonalise
        self.pairs = []
        self.edge = edge
        self.gauge = Gauged(self.base, lambda i: self.pair(i)[0])

    def pair(self, i):
        """an eigenbasis and the spectrum of the environment at bond i"""
        for j, p in self.pairs:
            if same(i, j):
                return p
        if i == self.edge:
            p = (sym.eye(1), sym.eye(1))
        else:
            p = tuple(lift(x) for x in self.diag(self.env(i)))
        self.pairs.append((i, p))
        return p

    def bond(self, k):
        """bond belonging to entry k of the lists"""
        return k if self.hand == 'l' else k+1

    def havoc(self, frame, k):
        L = self.base.length
        lo, hi = (k+1, L) if self.hand == 'l' else (0, k)
        self.lo, self.hi = lo, hi
        done = not lo == hi
        rest = self.base.cover(0, lo) if self.hand == 'l' else self.base.cover(hi, L)
        mine = [Part('fn', lo, hi, self.gauge)] if done else []
        self.m.data = self.seq
        self.seq.parts[:] = rest+mine if self.hand == 'l' else mine+rest
        for n, (x, e) in enumerate(zip(self.lists, self.empty)):
            one = SymSeq(list(e), L)
            rest = one.cover(0, lo) if self.hand == 'l' else one.cover(hi, L)
            mine = [Part('fn', lo, hi, Memo(lambda i, n=n: self.pair(self.bond(i))[n]))] if done else []
            x.parts[:] = [p for p in (rest+mine if self.hand == 'l' else mine+rest) if not same(p.lo, p.hi)]
            set_local(frame, self.ln[n], x)
        p = self.pair(self.bond(k+1) if self.hand == 'l' else self.bond(k-1))
        for n, v in zip(self.ln[2:], p):
            set_local(frame, n, v)
        self.marks = [(y, [(q.kind, q.val) for q in y.parts]) for y in [self.seq]+self.lists]
        self.k = k

    def check(self, frame, k):
        c, k, nm = self.c, self.k, 'spectra: '
        Vs, Ls = self.lists
        if self.m.data is not self.seq or any(frame.f_locals[n] is not x for n, x in zip(self.ln, self.lists)):
            raise Unsupported('a list was replaced inside the loop')
        i = self.bond(k)
        B = self.base[k]
        X = self.env(i)
        V, S = Vs[k], Ls[k]
        one = sym.eye(X.shape[0])
        c.eq(nm+'the new basis is unitary', sym.tensordot(V.conj(), V, [0], [0]), one)
        c.eq(nm+'the new basis is complete', sym.tensordot(V, V.conj(), [1], [1]), one)
        c.eq(nm+'the environment is diagonal in it', sym.tensordot(sym.tensordot(V.conj(), X, [0], [0]), V, [1], [0]), S)
        c.eq(nm+'the spectrum is diagonal', S, shim.np_shim.diag(shim.np_shim.diag(S)))
        c.descending(nm+'the spectrum descends', shim.np_shim.diag(S))
        j = self.bond(k+1) if self.hand == 'l' else self.bond(k-1)
        W = self.pair(j)[0]
        a, b = (V, W) if self.hand == 'l' else (W, V)
        want = sym.tensordot(sym.tensordot(B, a.conj(), [1], [0]), b, [1], [0])
        c.eq(nm+'the site is put into both bases', self.seq[k], want)
        for n, v in zip(self.ln[2:], (V, S)):
            c.eq(nm+'%s is carried on' % n, frame.f_locals[n], v)
        for y, old in self.marks:
            for p in y.parts:
                if p.kind == 'site' and same(p.lo, k):
                    continue
                if not any(p.val is v for _, v in old) and not (p.kind == 'site' and any(s is p.val for f in [q for q in self.base.parts if q.kind == 'fam'] for _, s in f.val.sites)):
                    raise Unsupported('the loop writes other entries')


class Same(Loop):
    """a loop that rewrites entries of m.data and of other lists by equal values"""

    def __init__(self, m, near=(-1, 0)):
        self.m, self.near = m, near

    def begin(self, frame, it):
        code = frame.f_code
        self.seqs = [self.m.data]+[v for n, v in frame.f_locals.items() if isinstance(v, SymSeq) and v is not self.m.data]
        self.old = [s.copy() for s in self.seqs]

    def owned(self):
        return self.seqs

    def havoc(self, frame, k):
        for s, o in zip(self.seqs, self.old):
            s.parts[:] = o.parts
        self.k = k

    def check(self, frame, k):
        for n, (s, o) in enumerate(zip(self.seqs, self.old)):
            if not same(s.length, o.length):
                raise Unsupported('the length of a list changes')
            o = o.copy()
            for p in s.parts:
                if p.kind == 'site' and not any(p.val is q.val for q in o.parts):
                    self.c.eq('list %d: entry rewritten by its own value' % n, p.val, o[p.lo])
                elif p.kind != 'site' and not any(p.val is q.val for q in o.parts):
                    raise Unsupported('the loop rewrites a run of entries')


class Fold(Loop):
    """an accumulated array: before iteration k it is value(k).  The accumulator is the array the body rebinds that was bound
    before the loop."""

    def __init__(self, value, what='accumulator'):
        self.value, self.what = value, what

    def begin(self, frame, it):
        self.carried = [n for n in dict.fromkeys(self.names) if isinstance(self.entry.get(n), (SArr, np.ndarray))]
        if len(self.carried) != 1:
            raise Unsupported('accumulators of the loop: %s' % (self.carried,))
        self.locals_ = self.carried
        self.c.eq('%s at the start' % self.what, self.entry[self.carried[0]], self.value(self.start+1 if it.down else self.start))

    def havoc(self, frame, k):
        set_local(frame, self.carried[0], self.value(k+1 if self.it.down else k).copy())

    def check(self, frame, k):
        self.c.eq('%s after a step' % self.what, frame.f_locals[self.carried[0]], self.value(k+1 if self.it.down else k))


class Build(Loop):
    """a list computed before the loop whose entries the body replaces one by one: entry k becomes value(k)"""

    def __init__(self, value, what='entry'):
        self.value, self.what = value, what

    def begin(self, frame, it):
        self.seq = [v for n, v in frame.f_locals.items() if isinstance(v, SymSeq) and all(p.kind == 'fn' for p in v.parts)]
        if len(self.seq) != 1 or not (same(self.seq[0].length, it.n) and same(it.lo, 0)):
            raise Unsupported('the list being built')
        self.seq = self.seq[0]
        self.initial = [p for p in self.seq.parts]

    def owned(self):
        return [self.seq]

    def havoc(self, frame, k):
        if same(k, self.end):
            self.seq.parts[:] = [Part('fn', 0, self.seq.length, Memo(self.value))]
        else:
            first = [Part('fn', p.lo, p.hi, Memo(p.val.f)) for p in self.initial]
            self.k = k
            self.seq.parts[:] = first

    def check(self, frame, k):
        k = self.k
        for p in self.seq.parts:
            if p.kind == 'site' and not same(p.lo, k) or p.kind == 'fn' and any(not same(j, k) for j, _ in p.val.known):
                raise Unsupported('another entry of the list is used')
        self.c.eq('%s computed by the body' % self.what, self.seq[k], self.value(k))


class Lists(Loop):
    """lists the body appends to, one entry per iteration: entry j of the i-th list (in the order the function binds them) is
    values[i](j)"""

    def __init__(self, *values, what='lists'):
        self.values, self.what = values, what

    def begin(self, frame, it):
        self.values = [(lambda k, f=f: f(k, self.entry)) if f.__code__.co_argcount-len(f.__defaults__ or ()) == 2 else f for f in self.values]
        code = frame.f_code
        order = list(dict.fromkeys(code.co_varnames+code.co_cellvars))
        first = {}
        for n, i in enumerate(dis.get_instructions(code)):
            if i.opname in ('STORE_FAST', 'STORE_DEREF'):
                first.setdefault(i.argval, n)
        cand = [n for n in frame.f_locals if n in first and isinstance(frame.f_locals[n], list) and n not in code.co_varnames[:code.co_argcount]]
        cand.sort(key=first.get)
        cand = cand[-len(self.values):]
        if len(cand) != len(self.values):
            raise Unsupported('lists built by the loop: %s' % (cand,))
        self.locals_ = self.lists = cand
        self.n0 = []
        for n, f in zip(cand, self.values):
            v = frame.f_locals[n]
            self.n0.append(len(v))
            for j, x in enumerate(v):
                self.c.eq('%s: %s[%d] at the start' % (self.what, n, j), x, f(j))
        self.now = []

    def owned(self):
        return self.now

    def at(self, k):
        return self.it.hi-1-k if self.it.down else k-self.it.lo

    def havoc(self, frame, k):
        self.now = []
        for n, f, m in zip(self.lists, self.values, self.n0):
            s = SymSeq.fn(self.at(k)+m, f)
            self.now.append(s)
            set_local(frame, n, s)
        self.k = k

    def check(self, frame, k):
        for n, f, m, s in zip(self.lists, self.values, self.n0, self.now):
            if frame.f_locals[n] is not s:
                raise Unsupported('a list was replaced inside the loop')
            if not same(s.length, self.at(k)+m) or len(s.parts) != 2 or s.parts[0].kind != 'fn' or not same(s.parts[0].hi, self.at(self.k)+m):
                raise Unsupported('not one new entry per iteration')
            self.c.eq('%s: the new entry of %s' % (self.what, n), s[s.length-1], f(s.length-1))


def edges(k, L):
    """the first, second and last positions on paths of their own"""
    for j in (0, 1, L-1, L-2):
        k == j


def min_(a, b):
    return a if le(a, b) else b


def max_(a, b):
    return a if le(b, a) else b
