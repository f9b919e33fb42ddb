"""Symbolic side of the contract language."""
import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from dims import Dim, Ctx, ctx, Unsupported, PathEnd, Restart, dprod, dkey, same, zz, show
import sym, shim, load, api, band, loops
from sym import SArr, SList, Term, Atom, gen, lift

LOADER = None


def loader():
    global LOADER
    if LOADER is None:
        LOADER = load.Loader()
    return LOADER


def np_diag_of(v):
    return shim.np_diag(v)


class SymC(api.Common):
    symbolic = True

    def __init__(self, ctx):
        self.c = ctx
        self.np = shim.np_shim
        self.la = shim.sp_linalg
        self.ob = []            # (name, ok, detail)
        self.snaps = []
        self.dims = {}
        self.seen = {}
        self.patched = []

    def mod(self, name):
        return loader().load(name)

    def dim(self, name, lo=1, hi=None):
        if name not in self.dims:
            self.dims[name] = Dim.atom(name, lo, user=True)
            if isinstance(self.dims[name], Dim):
                if hi is not None:
                    self.c.cons.append(self.c.z[name] <= hi)
                self.c.fixed()
        return self.dims[name]

    # -- chains of any length
    def length(self, name, lo=1):
        n = Dim.atom(name, lo)
        self.dims[name] = n
        return n

    def index(self, name, lo, hi):
        """any lo <= i < hi"""
        i = Dim.atom(name, None)
        self.dims[name] = i
        self.c.assume(zz(lo) <= zz(i))
        self.c.assume(zz(i) < zz(hi))
        return i

    def chain(self, name, L, d, left=1, right=1, standard=False, flat=False, split=None):
        """standard: no bond exceeds d times its neighbours; flat: all bonds are one; split: a site is made of parts of these dimensions"""
        return loops.SymSeq.of(loops.Fam(name, 0, L, d, left, right, standard=standard, flat=flat, split=split))

    def vectors(self, seq, d):
        """the vectors of a flat chain"""
        return loops.SymSeq.fn(seq.length, lambda i: seq[i].reshape(d))

    def centred(self, name, L, d, k):
        """a chain of unit norm with its centre at site k: left isometries before it, right ones after it"""
        A = loops.Fam(name+'l', 0, k, d, 1, loops.fresh_dim('Dl') if not k == 0 else 1, iso='l')
        B = loops.Fam(name+'r', k+1, L, d, loops.fresh_dim('Dr') if not k+1 == L else 1, 1, iso='r')
        loops.cut(k)
        C = gen(name+'c', [(d,), (A.bond(k),), (B.bond(k+1),)])
        (at, _, _), = C.terms[0].facs
        shim.iso_rule('unit centre', at, range(len(at.legs)), [])
        P = loops.Part
        parts = [P('fam', 0, k, A), P('site', k, k+1, C), P('fam', k+1, L, B)]
        return loops.SymSeq([q for q in parts if not same(q.lo, q.hi)], L)

    def isochain(self, name, L, d, hand):
        """a chain of isometries"""
        return loops.SymSeq.of(loops.Fam(name, 0, L, d, iso=hand))

    def loops_in(self, **invs):
        """invariants of the loops of the named functions (makers)"""
        self.c.flags['loops_in'] = dict(self.c.flags.get('loops_in', {}), **invs)
        self.c.flags['contract'] = self

    def loops(self, *invs):
        """invariants of the loops met from here on, in the order they are entered"""
        self.c.flags['loops'] = self.c.flags.get('loops', [])+list(invs)
        self.c.flags['contract'] = self

    def inv(self, kind, *a, **k):
        return getattr(loops, kind)(*a, **k)

    def family(self, name, n, *axes):
        """a list of n arbitrary arrays"""
        return loops.SymSeq.fn(n, lambda i: gen('%s[%s]' % (name, show(i)), [a if isinstance(a, tuple) else (a,) for a in axes]))

    def combine(self, terms):
        """entry by entry sum of multiples of lists of equal length"""
        ts = [(z, x.copy()) for z, x in terms]
        return loops.SymSeq.fn(ts[0][1].length, lambda i: sum([lift(x[i])*z for z, x in ts[1:]], lift(ts[0][1][i])*ts[0][0]))

    def total(self, name, n, f):
        """sum of f(i), i < n: the code must have formed a sum of n terms; the terms are compared at an arbitrary index"""
        for x, s, i in loops.sums():
            if same(x.length, n):
                self.eq(name, x[i], f(i))
                return s
        self.record(name, False, 'no sum of that length is formed')
        return gen('nosum', [])

    def accumulated(self, name, b, view, n, f):
        """view(b) is the sum of f(k), k < n: b is an array accumulated under the invariant that says so, or zero like every term"""
        b = lift(b)
        for B, entry in self.c.flags.get('accum', []):
            if not (B-b).nf() if B.ndim == b.ndim and all(same(x, y) for x, y in zip(B.shape, b.shape)) else False:
                return self.record(name, True)
        k = loops.fresh_index('i', 0, n)
        self.eq(name, view(b), f(k)*0)
        self.eq(name, f(k), f(k)*0)

    def listcopy(self, seq):
        return seq.copy()

    def len(self, seq):
        return seq.length

    def whole(self, seq):
        """(left, all sites, right)"""
        return seq.full()

    def span(self, seq, i, j):
        return seq.product(i, j)

    def each_iso(self, name, seq, lo, hi, hand):
        bad = ''
        if not same(lo, hi):
            for p in seq.cover(lo, hi):
                if p.kind == 'seg' and p.flag == hand or p.kind == 'fam' and p.val.iso == hand or same(p.lo, p.hi):
                    continue
                if p.kind == 'site':
                    (self.left_iso if hand == 'l' else self.right_iso)(name+', single site', p.val)
                else:
                    bad = 'sites [%s, %s)' % (show(p.lo), show(p.hi))
        self.record(name, not bad, bad)

    def each_bond(self, name, seq, D):
        """no bond exceeds D"""
        bad = ''
        for p in seq.cover(0, seq.length):
            if p.kind == 'site':
                ok = all(loops.le(n, D) for n in p.val.shape[1:])
            else:
                ok = p.kind in ('seg', 'fam') and same(getattr(p.val if p.kind == 'fam' else p, 'cap', None), D) or same(p.lo, p.hi)
            bad = bad or ('' if ok else 'sites [%s, %s)' % (show(p.lo), show(p.hi)))
        self.record(name, not bad, bad)

    def untouched(self, name, seq, base, lo, hi):
        """sites outside [lo, hi) are those of base"""
        bad = seq.unchanged_outside(base, lo, hi)
        self.record(name, not bad, bad)

    def same(self, a, b):
        return same(a, b)

    def atmost(self, a, b):
        """precondition on sizes: a <= b"""
        if isinstance(a, Dim) or isinstance(b, Dim):
            self.c.assume(zz(a) <= zz(b))
            self.c.fixed()
        elif a > b:
            raise PathEnd('sizes outside the precondition')

    def one(self, d):
        return same(d, 1)

    def arr(self, name, *shape, real=False, herm=False):
        return gen(name, [(s,) for s in shape], real=real, herm=herm)

    def scalar(self, name, real=False):
        return sym.scalar_atom(name, real)

    def eye(self, n):
        return sym.eye(n)

    def zeros(self, *shape):
        return sym.zeros(tuple((x,) for x in shape))

    def eyes(self, slots):
        return sym.eye(tuple(slots))

    # -- callee contracts
    def replace(self, owner, name, fn):
        """the callee is represented by its contract from here to the end of the path"""
        self.patched.append((owner, name, owner.__dict__[name]))
        setattr(owner, name, fn)

    def uninterpreted(self, owner, name):
        """the callee is an arbitrary function of its arguments (equal arguments, equal results); it returns a new state with
        tensors of the shapes of the one it is asked about"""
        self.c.assumed.add('%s.%s taken as an arbitrary function of its arguments' % (owner.__name__, name))
        memo, calls = {}, []

        def key(x):
            if isinstance(x, (list, tuple)):
                return tuple(key(y) for y in x)
            if isinstance(x, SArr):
                return x.key()
            if isinstance(x, loops.SymSeq):     # equal at an arbitrary index: equal
                return (show(x.length), lift(x[at(x.length)]).key())
            return repr(x)

        def at(n):
            f = self.c.flags.setdefault('anywhere', {})
            if show(n) not in f:
                f[show(n)] = loops.fresh_index('any', 0, n)
            return f[show(n)]

        def field(n):
            return lambda i, x: gen('%s%d[%s]' % (name, n, show(i)), [(m,) for m in lift(x).shape])

        def fn(self_, *a, **k):
            kk = (key(self_.data if isinstance(self_.data, loops.SymSeq) else list(self_.data)), key(a), tuple(sorted((n, key(v)) for n, v in k.items())))
            if isinstance(self_.data, loops.SymSeq):
                if kk not in memo:
                    x, f = self_.data.copy(), field(len(memo))
                    memo[kk] = loops.SymSeq.fn(x.length, lambda i: f(i, x[i]))
                return type(self_)(memo[kk].copy())
            if kk not in memo:
                memo[kk] = [gen('%s%d_%d' % (name, len(memo), i), [(n,) for n in lift(x).shape]) for i, x in enumerate(self_.data)]
            return type(self_)(list(memo[kk]))
        self.replace(owner, name, fn)

    def same_ray(self, owner, *names):
        """callees represented by the part of their contract used here: the state they return spans the same ray"""
        for n in names:
            self.c.assumed.add('%s.%s by its contract: the same ray' % (owner.__name__, n))
            self.replace(owner, n, lambda self_, *a, **k: self_)

    always = replace

    def restore(self):
        for owner, name, old in reversed(self.patched):
            setattr(owner, name, old)
        self.patched = []

    def callee(self, owner, name, make, *args):
        """a callee represented by its contract: it returns some value (made here), recorded as an assumption"""
        v = make()
        self.c.assumed.add('result of %s.%s taken as given' % (owner.__name__, name))
        self.replace(owner, name, lambda self_, *a, **k: v)
        return v

    def solves(self, name, K, lhs, src, like):
        """K solves lhs(K) = src: the linear system the code solved for K has this matrix (on every vector) and this side"""
        t = shim.single(lift(K))
        s = self.c.flags.get('solved', {}).get(t.facs[0][0].id) if t is not None and len(t.facs) == 1 else None
        if s is None:
            raise Unsupported('not the solution of a recorded linear system')
        M, b, x = s
        # the recorded solution in the same layout as K: read M and b off through it
        self.eq(name+': what is returned', K, x.reshape(*lift(K).shape) if lift(x-lift(K).reshape(*x.shape)).nf() == {} else x.reshape(*lift(K).shape).T)
        X = like('X')
        self.eq(name+': left-hand side', M@X.reshape(*x.shape), lift(lhs(X)).reshape(*x.shape))
        self.eq(name+': right-hand side', b, lift(src).reshape(*x.shape))

    def num(self, x):
        x = lift(x)
        return x.reshape(()) if x.ndim else x

    def canonical(self, I, name, d, D, hand, diagonal=True):
        """a left (right) canonical tensor with its fixed points l, r (both diagonal, tr(l r) = 1); eigs is represented by
        its contract on it. diagonal=False: in any unitary gauge, where the fixed point is any positive hermitian matrix"""
        c = self.c
        c.assumed.add('contract of TransferMatrix.eigs (discharged in C14 from that of scipy.sparse.linalg.eigs): dominant eigenpair, tr(l r) = 1')
        A = self.arr(name, d, D, D)
        at = shim.single(A).facs[0][0]
        s = sym.Atom('s_'+name, (D,), real=True, meta=dict(nonneg=True))
        a = sym.scalar_atom('a_'+name, True, True)
        S = np_diag_of(sym.of_atom(s, [(D,)]))
        E = sym.eye(D)
        R = sym.Rule
        sym.add_rule(R('sum of squared Schmidt coefficients', [(s, False, ('k',)), (s, False, ('k',))], {'k'}, [(1, {}, [], [], {})]), False)
        if hand == 'l':
            shim.iso_rule('A^H A = 1', at, (0, 1), (2,))
            sym.add_rule(R('A s^2 A^H = s^2', [(at, False, ('p', 'a', 'b')), (s, False, ('b',)), (s, False, ('b',)), (at, True, ('p', 'd', 'b'))], {'p', 'b'},
                           [(1, {}, [(s, False, ('a',)), (s, False, ('a',))], [('a', 'd')], {})]), False)
            l, r = a*E, S@S/a
        else:
            shim.iso_rule('A A^H = 1', at, (0, 2), (1,))
            sym.add_rule(R('A^T s^2 A^* = s^2', [(at, False, ('p', 'b', 'a')), (s, False, ('b',)), (s, False, ('b',)), (at, True, ('p', 'b', 'd'))], {'p', 'b'},
                           [(1, {}, [(s, False, ('a',)), (s, False, ('a',))], [('a', 'd')], {})]), False)
            l, r = S@S/a, a*E

        if not diagonal:
            if hand != 'l':
                raise Unsupported('right canonical tensor in another gauge')
            p = gen('p_'+name, [(D,), (D,)], herm=True)
            pa = shim.single(p).facs[0][0]
            pa.meta = dict(posdef=True)
            sym.add_rule(R('A p A^H = p', [(at, False, ('p', 'a', 'b')), (pa, False, ('b', 'c')), (at, True, ('p', 'd', 'c'))], {'p', 'b', 'c'},
                           [(1, {}, [(pa, False, ('a', 'd'))], [], {})]), False)
            sym.add_rule(R('tr p = 1', [(pa, False, ('a', 'a'))], {'a'}, [(1, {}, [], [], {})]), False)
            l, r = a*E, p/a

        def eigs(tm, l0=None, r0=None):
            if (lift(tm.A)-A).nf():
                raise Unsupported('fixed points of another tensor')
            return 1, l, r
        self.replace(I.TransferMatrix, 'eigs', eigs)
        return A, l, r

    def injective(self, name, d, D, unit=False):
        return self.arr(name, d, D, D)

    def fixed_points(self, I, unit=False):
        """contract of TransferMatrix.eigs for an injective tensor: eta > 0, l and r hermitian, positive definite, with
        sum_s A_s r A_s^H = eta r, sum_s A_s^T l A_s^* = eta l, tr(l r) = 1"""
        c = self.c
        c.assumed.add('contract of TransferMatrix.eigs (discharged in C14 from that of scipy.sparse.linalg.eigs): dominant eigenpair, hermitian positive eigenmatrices of an injective tensor, tr(l r) = 1')

        def eigs(tm, l0=None, r0=None):
            A = lift(tm.A)

            def make():
                t = shim.single(A)
                if t is None or len(t.facs) != 1 or t.scal or t.coef != 1:
                    raise Unsupported('fixed points of a composite tensor')
                (at, cj, ls), = t.facs
                D = A.shape[1]
                n = len(c.atoms)
                eta = 1 if unit else sym.scalar_atom('eta%d' % n, True, True)
                l = gen('l%d' % n, [(D,), (D,)], herm=True)
                r = gen('r%d' % n, [(D,), (D,)], herm=True)
                la, ra = [shim.single(x).facs[0][0] for x in (l, r)]
                la.meta, ra.meta = dict(posdef=True), dict(posdef=True)
                sc = {} if unit else dict(lift(eta).terms[0].scal)
                x = {l_: 'v%d' % i for i, l_ in enumerate(t.outs)}

                def leg(vs):
                    m = dict(zip(t.outs, vs))
                    return tuple(m[q] for q in ls)
                R = sym.Rule
                # A(s,a,b) r(b,c) A*(s,d,c) = eta r(a,d)
                sym.add_rule(R('A r A^H = eta r', [(at, cj, leg(('s', 'a', 'b'))), (ra, False, ('b', 'c')), (at, not cj, leg(('s', 'd', 'c')))], {'s', 'b', 'c'},
                               [(1, sc, [(ra, False, ('a', 'd'))], [], {})]))
                # A(s,b,a) l(b,c) A*(s,c,d) = eta l(a,d)
                sym.add_rule(R('A^T l A^* = eta l', [(at, cj, leg(('s', 'b', 'a'))), (la, False, ('b', 'c')), (at, not cj, leg(('s', 'c', 'd')))], {'s', 'b', 'c'},
                               [(1, sc, [(la, False, ('a', 'd'))], [], {})]))
                sym.add_rule(R('tr(l r) = 1', [(la, False, ('a', 'b')), (ra, False, ('b', 'a'))], {'a', 'b'}, [(1, {}, [], [], {})]))
                return eta, l, r
            return sym.memo(('fixed', A.key()), make)
        self.replace(I.TransferMatrix, 'eigs', eigs)

    def dominant(self, I):
        """contract of scipy.sparse.linalg.eigs(k=1) on a completely positive map X -> sum K_s X K_s^H of an injective tensor: an
        eigenvector, of norm one, of the eigenvalue of largest modulus. Of a general map X -> sum A_s X B_s^H nothing more is known. By the Perron-Frobenius theorem for such maps that eigenvalue is
        positive, its eigenvectors are the multiples of one positive definite matrix, and the adjoint has the same eigenvalue.
        The phase of the returned vector is arbitrary (written sign/u with Re u > 0: any phase but exactly +-i)"""
        c = self.c
        c.assumed.add('scipy.sparse.linalg.eigs returns an eigenvector of the eigenvalue of largest modulus')

        def eigs(op, k=1, v0=None, **kw):
            n, = op.shape[:1]
            if k != 1:
                raise Unsupported('several eigenvectors')
            (mono, m), = n.p.items()
            slots = tuple(Dim({(a,): 1}) for a in mono)
            if m != 1 or len(slots) != 2:
                raise Unsupported('eigenvectors of an operator of this shape')
            X = gen('x%d' % len(c.atoms), [slots])
            xa = shim.single(X).facs[0][0]
            t = shim.single(lift(op.matvec(X)))
            if t is None or t.scal or t.coef != 1 or len(t.facs) != 3:
                raise Unsupported('eigenvectors of this operator')
            xs = [f for f in t.facs if f[0] is xa]
            ks = [f for f in t.facs if f[0] is not xa]
            if len(xs) != 1 or xs[0][1] or len(ks) != 2:
                raise Unsupported('eigenvectors of this operator')
            (p, q), (a, b) = xs[0][2], t.outs
            K = [f for f in ks if p in f[2] and a in f[2]]
            Kc = [f for f in ks if q in f[2] and b in f[2]]
            if len(K) != 1 or len(Kc) != 1 or K[0] is Kc[0]:
                raise Unsupported('eigenvectors of this operator')
            positive = K[0][0] is Kc[0][0] and K[0][1] != Kc[0][1] and (K[0][2].index(p), K[0][2].index(a)) == (Kc[0][2].index(q), Kc[0][2].index(b))
            fix = lambda pa, sc: sym.add_rule(sym.Rule('fixed point', fac(pa), inner(pa), [(1, sc, [(pa, False, (a, b))], [], {})]))
            fac = lambda pa: [(f[0], f[1], tuple(f[2])) for f in ks]+[(pa, False, (p, q))]
            inner = lambda pa: {l for f in fac(pa) for l in f[2]}-{a, b}

            def other():
                j = len(c.atoms)
                eta = sym.scalar_atom('mu%d' % j)
                V = gen('eigenvector%d' % j, [slots[:1], slots[1:]])
                va = shim.single(V).facs[0][0]
                fix(va, dict(lift(eta).terms[0].scal))
                sym.add_rule(sym.Rule('unit vector', [(va, False, ('a', 'b')), (va, True, ('a', 'b'))], {'a', 'b'}, [(1, {}, [], [], {})]), False)
                return eta, V
            if not positive:
                eta, V = other()
                return self.np.array([eta]), V.reshape(n, 1)

            c.assumed.add('Perron-Frobenius theorem for completely positive maps of injective tensors')
            c.assumed.add('an eigenvector of ARPACK has no phase of exactly +-i')

            def make():
                j = len(c.atoms)
                eta = c.flags.setdefault(('eta', K[0][0].id), sym.scalar_atom('eta%d' % j, True, True))
                P = gen('fixed%d' % j, [slots[:1], slots[1:]], herm=True)
                pa = shim.single(P).facs[0][0]
                pa.meta = dict(posdef=True)
                sc = dict(lift(eta).terms[0].scal)
                fix(pa, sc)
                u = Atom('u%d' % j, (), 'scal', meta=dict(phase=True, right_half=True))
                sg = Atom('sg%d' % j, (), 'scal', real=True, meta=dict(sign=True))
                return eta, P, u, sg
            eta, P, u, sg = sym.memo(('dominant', K[0][0].id, K[0][1], tuple(K[0][2].index(x) for x in (p, a))), make)
            z = SArr([], [Term(1, {(sg, False): 1, (u, False): -1}, [], ())])
            v = (z*P).reshape(n, 1)
            return self.np.array([eta]), v
        self.replace(I, 'eigs', eigs)

    def const(self, a):
        return lift(a)

    def spin(self):
        """every spin 1/2, 1, 3/2, ..."""
        return band.Ix((band.n-1)/2)

    def spineye(self, S):
        return band.eye(2*S.e+1)

    def spindiag(self, S):
        return band.diag(band.Vec(S.e-band.r, 2*S.e+1))

    def allocs(self):
        """arrays the code allocates to fill in are symbolic from the start"""
        self.c.flags['alloc'] = True

    def precondition(self, text):
        """a precondition of the contract, recorded with the evidence"""
        self.c.assumed.add('precondition: '+text)

    def descending(self, name, v):
        """non-negative entries in descending order: singular values, or the eigenvalues of eigh read backwards"""
        t = shim.single(lift(v))
        if len(lift(v).slots()) == 0:
            return self.record(name, True)
        ok = t is not None and t.coef == 1 and not t.scal
        if ok and t.facs:
            vec = [f for f in t.facs if f[0].kind == 'gen']
            inj = [f for f in t.facs if f[0].kind == 'inj']
            ok = len(vec) == 1 and len(vec)+len(inj) == len(t.facs) and len(vec[0][2]) == 1 and vec[0][0].meta is not None
            if ok:
                rev = sum(bool(f[0].meta.get('rev')) for f in inj) % 2
                ok = bool(vec[0][0].meta.get('sorted')) and not rev or bool(vec[0][0].meta.get('ascending')) and rev
        self.record(name, ok, '' if ok else 'not shown to descend: %s' % (str(t)[:200]))

    def assume(self, cond):
        """cond: a comparison of dimensions, evaluated without forking"""
        self.c.assume(cond() if callable(cond) else cond)

    def le(self, a, b):
        return zz(a) <= zz(b)

    def record(self, name, ok, detail=''):
        k = self.seen.get(name, 0)
        self.seen[name] = k+1
        if k:
            name = '%s #%d' % (name, k+1)
        self.ob.append((name, bool(ok), detail))

    def eq(self, name, a, b):
        if isinstance(a, band.Band) or isinstance(b, band.Band):
            if not (isinstance(a, band.Band) and isinstance(b, band.Band)):
                raise Unsupported('a matrix of symbolic size against another array')
            d = 'different sizes' if band.sp.expand(a.size-b.size) != 0 else (a-b).nonzero(2)
            self.vac = getattr(self, 'vac', 0)+1
            return self.record(name, not d, d or '')
        a, b = lift(a), lift(b)
        if a.ndim != b.ndim:
            return self.record(name, False, 'rank %d against %d' % (a.ndim, b.ndim))
        for x, y in zip(a.shape, b.shape):
            if not same(x, y):
                return self.record(name, False, 'shape (%s) against (%s)' % (', '.join(map(show, a.shape)), ', '.join(map(show, b.shape))))
        for i in range(a.ndim):
            a, b = sym.match_axes(a, i, b, i)
        d = self.residual(a-b)
        if not d:
            self.vac = getattr(self, 'vac', 0)+(1 if a.nf() else 0)
        self.record(name, not d, '' if not d else 'residual of %d terms, e.g. %s' % (len(d), str(next(iter(d.values())))[:300]))

    def residual(self, x):
        d = x.nf()
        if d:
            d = sym.dense_const(d)
        if d:
            d = sym.block_zero(x)
        if d:
            d = sym.expand_concrete(d)
        return d

    def size(self, *a):
        return 1

    def zero(self, name, a, scale=1):
        d = self.residual(lift(a))
        self.record(name, not d, '' if not d else 'residual of %d terms, e.g. %s' % (len(d), str(next(iter(d.values())))[:300]))

    def true(self, name, cond, detail=''):
        if isinstance(cond, z3.BoolRef):
            cond = self.c.entails(cond)
        elif callable(cond):
            cond = cond()
        self.record(name, cond, detail)

    def shape(self, name, a, shape):
        ok = len(a.shape) == len(shape) and all(same(x, y) for x, y in zip(a.shape, shape))
        self.record(name, ok, '' if ok else '(%s) against (%s)' % (', '.join(map(show, a.shape)), ', '.join(map(show, shape))))

    # -- frames
    def arrays(self, x, depth=0):
        if isinstance(x, SArr):
            return [x]
        if isinstance(x, SList):
            return [x.arr]
        if isinstance(x, (list, tuple)) and depth < 6:
            return [z for y in x for z in self.arrays(y, depth+1)]
        if isinstance(x, dict) and depth < 6:
            return [z for y in x.values() for z in self.arrays(y, depth+1)]
        if hasattr(x, '__dict__') and type(x).__module__.startswith('xmps') and depth < 6:
            return [z for k, y in sorted(vars(x).items()) for z in self.arrays(y, depth+1)]
        return []

    def snap(self, *objs):
        arrs = [a for o in objs for a in self.arrays(o)]
        return [(o, api.flatten(o.data) if hasattr(o, 'data') and isinstance(getattr(o, 'data'), list) else None) for o in objs], [(a, a.root, a.root.ver, a.terms) for a in arrs]

    def unchanged(self, name, tok):
        objs, arrs = tok
        bad = [str(a.terms)[:80] for a, r, v, t in arrs if r.ver != v]
        for o, data in objs:
            if data is not None:
                now = api.flatten(o.data)
                if len(now) != len(data):
                    bad.append('number of tensors changed')
                    continue
                for x, y in zip(data, now):
                    if x is y or not isinstance(x, SArr):
                        continue
                    if x.ndim != y.ndim or not all(same(p, q) for p, q in zip(x.shape, y.shape)) or (SArr(x.axes, x.terms)-SArr(y.axes, y.terms)).nf():
                        bad.append('a tensor was replaced')
        self.record(name, not bad, '; '.join(bad))

    def disjoint(self, name, a, b):
        ra = {x.root.id for x in self.arrays(a)}
        rb = {x.root.id for x in self.arrays(b)}
        self.record(name, not (ra & rb) and (ra or rb), 'shared buffers' if ra & rb else '')

    def proportional(self, name, a, b, unit=False):
        """the same ray: a and b are non-zero and a[i] b[j] = a[j] b[i] for all entries (no scalar has to be found)"""
        a, b = lift(a), lift(b)
        if a.ndim != b.ndim or not all(same(x, y) for x, y in zip(a.shape, b.shape)):
            return self.record(name, False, 'shape')
        for i in range(a.ndim):
            a, b = sym.match_axes(a, i, b, i)
        if not a.nf() or not b.nf():
            return self.record(name, False, 'zero state')
        n = a.ndim
        p = shim.np_shim.tensordot(a, b, 0)
        d = (p-p.transpose(*(list(range(n, 2*n))+list(range(n))))).nf()
        if d:
            d = sym.expand_concrete(d)
        if d:
            # or b = z a for a product z of one-by-one factors the code itself computed
            for z in self.witnesses():
                if not (z*a-b).nf() or not (a-z*b).nf():
                    d = {}
                    break
        self.record(name, not d, '' if not d else 'not parallel: %d terms, e.g. %s' % (len(d), str(next(iter(d.values())))[:300]))


    def witnesses(self):
        import itertools
        groups = {}
        for a in self.c.atoms:
            if a.legs == () and a.meta and 'of' in a.meta:
                groups.setdefault(id(a.meta['of'][2]), []).append(a)
        gs = []
        for g in groups.values():
            if g[0].meta['of'][0] == 'eigh':      # the phase of a one-by-one eigenvector
                gs.append([[]]+[[(a, cj)] for a in g if not a.real for cj in (False, True)])
            elif len(g) == 3:      # u, s, v of a one-by-one svd
                gs.append([[], g, [g[0], g[1]], [g[1], g[2]], [g[1]], [g[0]], [g[2]], [g[0], g[2]]])
            else:
                gs.append([[]]+[list(x) for r in range(1, len(g)+1) for x in itertools.combinations(g, r)])
        out = []
        for combo in itertools.islice(itertools.product(*gs), 600):
            out.append(SArr([], [Term(1, {}, [(a[0], a[1], ()) if isinstance(a, tuple) else (a, False, ()) for y in combo for a in y], ())]))
        return out


def run_case(k, max_paths=200, limit=150.0, only=None):
    """every path of one contract; returns a result dictionary"""
    t0 = time.time()
    res = {'contract': k.label(), 'prop': k.prop, 'bounded': k.bounded, 'obligations': [], 'paths': 0, 'assumed': set(), 'functions': set(),
           'np': set(), 'solver_s': 0.0, 'queries': 0, 'rules': {}, 'nonzero': 0, 'unsupported': [], 'completed': 0}
    todo = [([], None, ())]
    repo = load.REPO
    while todo:
        pre, sub, base = todo.pop()
        res['paths'] += 1
        if res['paths'] > max_paths or time.time()-t0 > limit:
            res['unsupported'].append('paths or time exhausted (%d paths, %.0f s)' % (res['paths'], time.time()-t0))
            break
        with Ctx(pre, sub, base) as c:
            s = SymC(c)
            tag = 'p%d' % res['paths']

            def prof(frame, ev, arg):
                if ev == 'call' and frame.f_code.co_filename.startswith(repo) and '<' not in frame.f_code.co_name:
                    res['functions'].add(os.path.relpath(frame.f_code.co_filename, repo)+': '+frame.f_code.co_qualname)
            err, ended = None, False
            sys.setprofile(prof)
            try:
                k.fn(s, **k.params)
                ended = True
            except PathEnd:
                pass
            except Restart as e:
                sys.setprofile(None)
                todo += [(p, sub, base) for p in c.pending]
                todo.append(([], e.args[0], e.args[1]))
                continue
            except Unsupported as e:
                err = ('unsupported', str(e)+' @ '+where(e, repo))
            except RecursionError as e:
                err = ('unsupported', 'recursion')
            except z3.Z3Exception as e:
                err = ('unsupported', 'z3: %s' % e)
            except Exception as e:
                err = ('exception', '%s: %s @ %s' % (type(e).__name__, e, where(e, repo)))
            finally:
                sys.setprofile(None)
                s.restore()
            todo += [(p, sub, base) for p in c.pending]
            if not c.feasible():
                continue
            if ended:
                res['completed'] += 1
            for name, ok, detail in s.ob:
                o = {'name': '%s/%s/%s/%s' % (k.prop, k.label(), tag, name), 'ok': ok, 'detail': detail, 'path': list(c.path_notes), 'clause': name}
                if not ok:
                    o['dims'] = model(c, s)
                    o['data'] = c.flags.get('data', 0)
                res['obligations'].append(o)
            if err:
                o = {'name': '%s/%s/%s/no error' % (k.prop, k.label(), tag), 'ok': False, 'detail': '%s: %s' % err, 'path': list(c.path_notes), 'clause': 'no error',
                     'dims': model(c, s), 'kind': err[0], 'data': c.flags.get('data', 0)}
                res['obligations'].append(o)
            else:
                res['obligations'].append({'name': '%s/%s/%s/no error' % (k.prop, k.label(), tag), 'ok': True, 'detail': '', 'path': list(c.path_notes), 'clause': 'no error'})
            res['assumed'] |= c.assumed
            res['np'] |= c.flags.get('np', set())
            res['solver_s'] += c.solver_s
            res['queries'] += c.nq
            res['nonzero'] += getattr(s, 'vac', 0)
            for r, n in c.flags.get('used', {}).items():
                res['rules'][r] = res['rules'].get(r, 0)+n
    if not res['completed'] and not any(o['clause'] == 'no error' and not o['ok'] for o in res['obligations']):
        res['unsupported'].append('no path reaches the end of the contract')
    res['wall'] = time.time()-t0
    for f in ('assumed', 'functions', 'np'):
        res[f] = sorted(res[f])
    return res


def where(e, repo):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(repo)]
    if fr:
        f = fr[-1]
        return '%s:%d' % (os.path.relpath(f.filename, repo), f.lineno)
    f = tb[-1]
    return '%s:%d' % (os.path.basename(f.filename), f.lineno)


def model(c, s):
    """small values of the contract's dimensions that follow this path"""
    o = z3.Optimize()
    o.set('timeout', 3000)
    o.add(*c.cons)
    o.add(*[c.z[n] == v for n, v in c.subst.items() if n in c.z])
    zs = [c.z[n] for n in s.dims if n in c.z]
    if zs:
        o.minimize(z3.Sum(*zs) if len(zs) > 1 else zs[0])
    if o.check() != z3.sat:
        return None
    m = o.model()
    return {n: d if not isinstance(d, Dim) else m.eval(c.z[n], model_completion=True).as_long() for n, d in s.dims.items()}
