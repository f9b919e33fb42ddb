"""Run-time contracts on the real code of /repo (runs under /opt/venv/bin/python).

A *case* is one contract clause group: it builds a valid input from a seeded
generator G, calls the real function(s), and asserts postconditions against an
independent dense-vector oracle.  A case is replayed from (property, name, seed).
"""
import os, sys, json, time, signal, hashlib, traceback, random as _random, io, contextlib
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('TQDM_DISABLE', '1')
import warnings
warnings.filterwarnings('ignore')
REPO = os.environ.get('XMPS_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy as np

CASES = {}          # property -> list of Case


class Fail(Exception):
    def __init__(self, clause, info=''):
        super().__init__(clause)
        self.clause, self.info = clause, info


class Skip(Exception):
    pass


class Case:
    def __init__(self, prop, fn, quick, thorough, weight=1.0):
        self.prop, self.fn, self.quick, self.thorough = prop, fn, quick, thorough
        self.name = fn.__name__


def case(prop, quick=40, thorough=None):
    def deco(fn):
        CASES.setdefault(prop, []).append(Case(prop, fn, quick, thorough or quick*10))
        return fn
    return deco


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:6], 'big')


class G:
    """Seeded generator; every named draw is recorded for the replay file."""

    def __init__(self, seed, hints=None, idx=0):
        self.seed = seed
        self.idx = idx
        self.py = _random.Random(seed)
        self.rng = np.random.default_rng(seed)
        np.random.seed(seed % (2**32))
        self.drawn = {}
        self.hints = hints or {}
        self.checks = 0

    def _rec(self, name, v):
        k, n = name, 1
        while k in self.drawn:
            n += 1
            k = '%s#%d' % (name, n)
        if k in self.hints:
            v = self.hints[k]
        self.drawn[k] = v
        return v

    def int(self, name, lo, hi):
        return self._rec(name, self.py.randint(lo, hi))

    def pick(self, name, options):
        options = list(options)
        i = self.py.randrange(len(options))
        v = self._rec(name, options[i] if isinstance(options[i], (int, float, str, bool, type(None), list, tuple)) else i)
        return options[v] if not isinstance(options[i], (int, float, str, bool, type(None), list, tuple)) else v

    def bool(self, name, p=.5):
        return self._rec(name, self.py.random() < p)

    def real(self, name, lo=-1., hi=1.):
        return self._rec(name, self.py.uniform(lo, hi))

    def cplx(self, *shape):
        return self.rng.standard_normal(shape)+1j*self.rng.standard_normal(shape)

    def re(self, *shape):
        return self.rng.standard_normal(shape)

    def unitary(self, n):
        q = np.linalg.qr(self.cplx(n, n))[0]
        t = self.py.random()
        if t > .3:
            return q
        if t < .06:
            return np.diag(np.exp(2j*np.pi*self.rng.random(n)))
        if t < .12:
            return np.eye(n)[self.rng.permutation(n)].astype(complex)
        if t < .18:
            return np.linalg.qr(self.re(n, n))[0]
        if t < .24:
            return np.exp(2j*np.pi*self.rng.random())*np.eye(n)
        return np.eye(n)

    def herm(self, n):
        a = self.cplx(n, n)
        a = a+a.conj().T
        t = self.py.random()
        if t > .36:
            return a
        if t < .06:
            return np.diag(np.diag(a)).real
        if t < .12:
            return a.real
        if t < .18:
            return 1j*a.imag
        if t < .24:
            w = self.vec(n)
            return np.outer(w, w.conj())
        if t < .30:
            e = np.zeros((n, n), complex)
            i, j = self.py.randrange(n), self.py.randrange(n)
            e[i, j] = 1.
            return e+e.T if i != j else e
        return np.eye(n)*self.py.choice([1., -2., 1j*0+3.])

    def terms(self, n, k):
        """n hermitian matrices of size k: all different, one object shared, equal copies, some zero"""
        t = self.pick('terms', ['different', 'different', 'shared', 'shared', 'equal', 'two kinds', 'some zero'])
        if t == 'shared':
            return [self.herm(k)]*n
        if t == 'equal':
            h = self.herm(k)
            return [h.copy() for _ in range(n)]
        if t == 'two kinds':
            h = [self.herm(k), self.herm(k)]
            return [h[self.py.randrange(2)] for _ in range(n)]
        if t == 'some zero':
            return [self.herm(k) if self.py.random() < .6 else np.zeros((k, k)) for _ in range(n)]
        return [self.herm(k) for _ in range(n)]

    def op(self, n):
        """any square matrix; sometimes of a special form"""
        t = self.py.random()
        if t < .5:
            return self.cplx(n, n)
        if t < .6:
            return self.unitary(n)
        if t < .7:
            return self.herm(n)
        if t < .76:
            return self.re(n, n)
        if t < .82:
            e = np.zeros((n, n))
            e[self.py.randrange(n), self.py.randrange(n)] = 1.
            return e
        if t < .88:
            return np.triu(self.cplx(n, n), 1)
        if t < .94:
            return np.diag(self.cplx(n))
        return self.py.choice([1e-7, 1e6])*self.cplx(n, n)

    def vec(self, n):
        v = self.cplx(n)
        return v/np.linalg.norm(v)

    # ---- assertions
    def same(self, clause, got, want, rtol=1e-13):
        """the same numbers, entry by entry and part by part (for data that is only moved)"""
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Fail(clause, 'shape %s, expected %s' % (got.shape, want.shape))
        for a, b in ((got.real, want.real), (got.imag, want.imag)):
            if not np.all(np.abs(a-b) <= rtol*np.abs(b)):
                raise Fail(clause, 'max deviation %.3e' % np.max(np.abs(a-b)))

    def ok(self, clause, cond, info=''):
        self.checks += 1
        if not bool(cond):
            raise Fail(clause, str(info)[:600])

    def close(self, clause, got, want, tol=1e-8, scale=None):
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Fail(clause, 'shape %s, expected %s' % (got.shape, want.shape))
        if got.size == 0:
            return
        if not (np.all(np.isfinite(got))):
            raise Fail(clause, 'non finite entries')
        s = scale if scale is not None else max(1.0, float(np.max(np.abs(want))))
        e = float(np.max(np.abs(got-want)))
        if not e <= tol*s:
            raise Fail(clause, 'max deviation %.3e (tolerance %.1e, scale %.2e); got %s expected %s' % (
                e, tol, s, np.array2string(got.ravel()[:4], precision=6), np.array2string(want.ravel()[:4], precision=6)))

    def fid(self, clause, v, w, tol=1e-8):
        """v and w are the same ray"""
        self.checks += 1
        v, w = np.ravel(v), np.ravel(w)
        if v.shape != w.shape:
            raise Fail(clause, 'different Hilbert spaces %s %s' % (v.shape, w.shape))
        nv, nw = np.linalg.norm(v), np.linalg.norm(w)
        if not (np.isfinite(nv) and np.isfinite(nw) and nv > 0 and nw > 0):
            raise Fail(clause, 'norms %r %r' % (nv, nw))
        # 1-|<v|w>| loses half the digits: compare the vectors themselves
        ph = np.vdot(w, v)
        if abs(ph) == 0:
            raise Fail(clause, 'orthogonal states')
        e = np.linalg.norm(v/nv - w/nw*(ph/abs(ph)))
        if not e <= tol:
            raise Fail(clause, 'states differ: distance %.3e' % e)


class Timeout(Exception):
    pass


def run_case(c, seed, hints=None, idx=0, limit=60):
    """-> dict(status=ok|fail|skip, ...)"""
    g = G(seed, hints, idx)
    out = {'case': c.name, 'seed': seed, 'property': c.prop, 'idx': idx}

    def h(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(limit)
    t = time.time()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
            c.fn(g)
        out['status'] = 'ok'
    except Skip:
        out['status'] = 'skip'
    except Fail as e:
        out.update(status='fail', clause=e.clause, info=e.info)
    except Timeout:
        out.update(status='fail', clause='returns', info='no result after %d s' % limit)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(REPO) for f in tb)
        out.update(status='fail', clause='does not raise',
                   info=''.join(traceback.format_exception_only(type(e), e))[:300] + ' at ' +
                   ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb)), in_repo=inrepo)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out['drawn'] = g.drawn
    out['checks'] = g.checks
    out['t'] = time.time()-t
    return out


# ------------------------------------------------------------------ oracles
def dense(As):
    """state vector of a list of (d, Dl, Dr) tensors (outer bonds summed as a trace when both are 1)"""
    out = np.ones((1, As[0].shape[1]), dtype=complex)
    out = np.eye(As[0].shape[1], dtype=complex)[:, None, :]     # (l, phys, r)
    for A in As:
        A = np.asarray(A)
        out = np.einsum('lpa,sab->lpsb', out, A).reshape(out.shape[0], -1, A.shape[2])
    if out.shape[0] == 1 and out.shape[2] == 1:
        return out[0, :, 0]
    return out


def op_on(op, sites, L, d):
    """dense operator acting as op (on contiguous sites[0]..) in a chain of L"""
    k = len(sites)
    return np.kron(np.kron(np.eye(d**sites[0]), op), np.eye(d**(L-sites[0]-k)))


def apply_dense(v, op, sites, L, d):
    """apply op on arbitrary (ordered) distinct sites of dense vector v"""
    k = len(sites)
    v = v.reshape([d]*L)
    O = op.reshape([d]*(2*k))
    v = np.tensordot(O, v, [list(range(k, 2*k)), list(sites)])
    return np.moveaxis(v, list(range(k)), list(sites)).reshape(-1)


def rdm(v, sites, L, d):
    v = v.reshape([d]*L)
    keep = list(sites)
    rest = [i for i in range(L) if i not in keep]
    m = v.transpose(keep+rest).reshape(d**len(keep), -1)
    return m@m.conj().T


def schmidt(v, cut, L, d):
    return np.linalg.svd(v.reshape(d**cut, -1), compute_uv=False)


def ham_dense(hs, d):
    L = len(hs)+1
    return sum(np.kron(np.kron(np.eye(d**i), h), np.eye(d**(L-i-2))) for i, h in enumerate(hs))


# ------------------------------------------------------------------ states
KINDS = ['std', 'std', 'irregular', 'irregular', 'product', 'ghz', 'w', 'padded', 'deficient', 'degenerate']


def std_bonds(L, d, D):
    return [min(d**n, D, d**(L-n)) for n in range(L+1)]


def gauge(g, As, well=True):
    """insert random invertible gauges on the inner bonds"""
    As = [a.copy() for a in As]
    for b in range(1, len(As)):
        D = As[b].shape[1]
        X = g.unitary(D)
        if well:
            X = X @ np.diag(np.exp(g.rng.uniform(-.5, .5, D)))
        As[b-1] = As[b-1]@X
        As[b] = np.linalg.inv(X)@As[b]
    return As


def texture(g, As):
    """entries of special forms, on which a shortcut for a special case would act"""
    t = g.pick('texture', ['plain']*6+['almost real', 'imaginary', 'sparse', 'integers', 'phases', 'positive', 'repeated', 'graded'])
    if t in ('almost real', 'imaginary', 'phases') and not np.iscomplexobj(As[0]):
        return As
    if t == 'almost real':
        return [a.real+1e-9j*a.imag for a in As]
    if t == 'imaginary':
        return [1j*a.real for a in As]
    if t == 'sparse':
        return [a*(g.rng.random(a.shape) < .7) for a in As]
    if t == 'integers':
        return [np.round(2*a) for a in As]
    if t == 'phases':
        return [a.real*np.exp(2j*np.pi*g.rng.random()) for a in As]
    if t == 'graded':       # Schmidt values of very different sizes
        return [a*(1. if i == len(As)-1 else 10.**-g.rng.uniform(0, 4, a.shape[2])) for i, a in enumerate(As)]
    if t == 'positive':
        return [np.abs(a) for a in As]
    if t == 'repeated':     # a translation invariant bulk
        bulk = {}
        return [bulk.setdefault(a.shape, a).copy() for a in As]
    return As


def merged(As):
    """equal neighbours become one array object (as when a bulk tensor is written once)"""
    out = []
    for a in As:
        out.append(next((b for b in out if b.shape == a.shape and b.dtype == a.dtype and np.array_equal(a, b)), a))
    return out


def cp(As):
    """copies, one array staying one array"""
    new = {}
    return [new.setdefault(id(a), a.copy(order='K')) for a in As]


def bulk(g, As):
    """sometimes the same tensor on several sites: equal copies or one object"""
    if not g.bool('bulk', .3):
        return As
    k = g.pick('how', ['one object', 'one object', 'copies', 'neighbours'])
    seen, out = {}, []
    for i, a in enumerate(As):
        if k == 'neighbours' and g.py.random() < .4:
            seen.pop(a.shape, None)
        b = seen.setdefault(a.shape, a)
        out.append(b.copy() if k == 'copies' else b)
    return out


def raw_state(g, Lmin=1, Lmax=6, ds=(2, 3), Dmax=5, kinds=KINDS, L=None, d=None, real=None, dense_cap=4096, scales=True):
    """list of tensors of a finite chain, of one of several structural kinds"""
    d = g.pick('d', ds) if d is None else d
    L = g.int('L', Lmin, Lmax) if L is None else L
    while d**L > dense_cap:
        L -= 1
    kind = g.pick('kind', kinds)
    real = g.bool('real', .2) if real is None else real
    rnd = (lambda *s: g.re(*s)) if real else (lambda *s: g.cplx(*s))
    if kind in ('std', 'padded', 'deficient'):
        D = g.int('D', 1, Dmax)
        b = std_bonds(L, d, D)
        As = [rnd(d, b[i], b[i+1]) for i in range(L)]
        if kind == 'padded':
            e = [0]+[g.int('pad', 0, 2) for _ in range(L-1)]+[0]
            As = [np.pad(A, [(0, 0), (0, e[i]), (0, e[i+1])]) for i, A in enumerate(As)]
        if kind == 'deficient' and L > 1:
            k = g.int('bond', 1, L-1)
            n = As[k].shape[1]
            P = np.outer(rnd(n), rnd(n)) if n > 1 else np.eye(n)
            As[k] = np.einsum('ab,sbc->sac', P, As[k])
    elif kind == 'irregular':
        b = [1]+[g.int('b', 1, Dmax) for _ in range(L-1)]+[1]
        As = [rnd(d, b[i], b[i+1]) for i in range(L)]
    elif kind == 'product':
        As = [rnd(d, 1, 1) for _ in range(L)]
    elif kind == 'ghz':
        c = np.ones(d)
        As = []
        for i in range(L):
            A = np.zeros((d, d, d), dtype=float if real else complex)
            for s in range(d):
                A[s, s, s] = 1
            As.append(A)
        As[0] = As[0].sum(1, keepdims=True) if L > 1 else As[0].sum(1, keepdims=True).sum(2, keepdims=True)
        if L > 1:
            As[-1] = As[-1].sum(2, keepdims=True)
    elif kind == 'w':
        As = []
        for i in range(L):
            A = np.zeros((d, 2, 2), dtype=float if real else complex)
            A[0] = np.eye(2)
            A[1, 0, 1] = 1
            As.append(A)
        As[0] = As[0][:, :1, :]
        As[-1] = As[-1][:, :, 1:]
    elif kind == 'degenerate':
        # maximally entangled pairs across chosen cuts: flat spectra
        D = min(d**(L//2), Dmax) if L > 1 else 1
        b = std_bonds(L, d, max(D, 1))
        As = []
        for i in range(L):
            m = d*b[i]
            A = np.zeros((d, b[i], b[i+1]), dtype=complex)
            if m >= b[i+1]:
                U = g.unitary(m)[:, :b[i+1]]
                A = U.reshape(d, b[i], b[i+1])
            else:
                U = g.unitary(b[i+1])[:m, :]
                A = U.reshape(d, b[i], b[i+1])
            As.append(A)
        As = [A.real.copy() if real else A for A in As]
    if kind in ('ghz', 'w', 'degenerate') and g.bool('gauge', .5) and not real:
        As = gauge(g, As, well=kind != 'degenerate')
    if kind in ('std', 'irregular', 'product', 'padded'):
        As = texture(g, As)
    sc = g.pick('scale', [1., 1., 1., 1., 1e-2, 30., 'tiny', 'huge', 'uneven'] if scales else [1., 1., 1e-2, 30.])
    if sc in ('tiny', 'huge'):
        k = g.int('scaled site', 0, L-1)
        As = [a*(1e-9 if sc == 'tiny' else 1e7) if i == k else a for i, a in enumerate(As)]
    elif sc == 'uneven':
        As = [a*10.**g.int('exponent', -3, 3) for a in As]
    elif sc != 1.:
        As = [a*sc for a in As]
    if g.bool('strided', .15):
        As = [np.asfortranarray(a) for a in As]
    g.kind, g.L, g.d = kind, L, d
    return As


PRE = ['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'right_orthogonalise', 'mixed_orthogonalise',
       'left_no_rank', 'right_no_rank', 'left_no_sweep', 'right_no_sweep', 'E', 'E_', 'rho', 'part_left', 'part_right', 'entropy']


def fmps(g, normalise=False, minnorm=1e-9, pre=True, **kw):
    """-> (fMPS, dense vector).  Inputs are non-zero states; with pre, also states that carry what earlier gauge changes left behind."""
    from xmps.fMPS import fMPS
    for _ in range(20):
        As = raw_state(g, **kw)
        v = dense(As)
        sc = np.prod([np.linalg.norm(a) for a in As])
        if np.linalg.norm(v) > minnorm*sc:
            break
    else:
        raise Skip()
    if normalise:
        n = np.linalg.norm(v)
        As = [a/n**(1/len(As)) for a in As]
        v = v/n
    data = [a.copy(order='K') for a in As]
    if g.drawn.get('texture') == 'repeated' and g.bool('one array'):
        data = merged(data)
    m = fMPS(data)
    if pre and g.bool('gauged', .35):
        m, _ = history(g, m, v, g.int('gauge moves', 1, 2), allow=PRE)
        w = dense(m.data)
        g.fid('the gauge moves before the operation keep the ray', w, v, 1e-7)
        v = w
        if normalise:
            n = np.linalg.norm(v)
            if abs(n-1) > 1e-12:
                m.data[0], v = m.data[0]/n, v/n
    return m, v


def left_iso(A):
    return np.einsum('sab,sac->bc', A.conj(), A)


def right_iso(A):
    return np.einsum('sab,scb->ac', A, A.conj())


# histories: a sequence of public operations, with the dense state they should leave behind
def history(g, m, v, n=None, unitary=True, allow=None, truncating=False):
    """apply a random sequence of operations to m; return (m, v) with v the expected ray"""
    L, d = len(m.data), m.data[0].shape[0]
    ops = ['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'right_orthogonalise',
           'mixed_orthogonalise', 'apply', 'apply_two_site', 'setitem', 'E', 'E_', 'Es', 'E_k', 'rho', 'copy', 'entropy',
           'part_left', 'part_right', 'deserialize', 'mul', 'overlap', 'left_no_rank', 'right_no_rank', 'left_no_sweep', 'right_no_sweep']
    if allow:
        ops = [o for o in ops if o in allow]
    n = g.int('nops', 1, 4) if n is None else n
    for _ in range(n):
        o = g.pick('op', ops)
        if o in ('left_canonicalise', 'right_canonicalise', 'left_orthogonalise', 'right_orthogonalise'):
            getattr(m, o)()
        elif o in ('mixed_canonicalise', 'mixed_orthogonalise'):
            getattr(m, o)(g.int('oc', 0, L-1))
        elif o == 'part_left' and L > 1:
            m.left_orthogonalise(to=g.int('to', 1, L-1))
        elif o == 'part_right' and L > 1:
            m.right_orthogonalise(fr=g.int('fr', 1, L-1))
        elif o == 'apply':
            U, s = g.unitary(d) if g.bool('unitary') else g.cplx(d, d), g.int('site', 0, L-1)
            if g.bool('at centre', .3) and isinstance(getattr(m, 'oc', None), int) and 0 <= m.oc < L:
                s = m.oc
            m = m.apply((U, s))
            v = apply_dense(v, U, [s], L, d)
        elif o == 'apply_two_site' and L > 1 and d == 2:
            i = g.int('i', 0, L-2)
            j = g.int('j', i+1, L-1)
            U = g.unitary(4) if g.bool('unitary', .7) else g.cplx(4, 4)
            m = m.apply_two_site((U, (i, j)), which=g.pick('which', ['l', 'r']))
            v = apply_dense(v, U, [i, j], L, d)
        elif o == 'setitem':
            s, U = g.int('site', 0, L-1), g.unitary(d) if g.bool('unitary') else g.cplx(d, d)
            m[s] = np.tensordot(U, m[s], [1, 0])
            v = apply_dense(v, U, [s], L, d)
        elif o == 'E':
            m.E(g.herm(d), g.int('site', 0, L-1))
        elif o == 'E_':
            m.E_(g.herm(d), g.int('site', 0, L-1))
        elif o == 'Es':
            m.Es([g.herm(d)], g.int('site', 0, L-1))
        elif o == 'E_k':
            k = g.int('k', 1, min(3, L))
            s = g.int('site', 0, L-k)
            m.E_k(g.herm(d**k), list(range(s, s+k)))
        elif o == 'rho':
            k = g.int('k', 1, min(2, L))
            s = g.int('site', 0, L-k)
            m.rho(list(range(s, s+k)))
        elif o == 'copy':
            m = m.copy()
        elif o == 'entropy' and L > 1:
            m.entanglement_entropy(g.int('bond', 1, L-1))
        elif o == 'mul':
            m = m.mul(g.pick('c', [2., -1., 1j, .3-.4j]))
        elif o == 'deserialize':
            m = m.deserialize(m.serialize(), structure=[a.shape for a in m.data])
        elif o == 'overlap':
            m.overlap(m)
        elif o in ('left_no_rank', 'right_no_rank'):
            getattr(m, o.split('_')[0]+'_canonicalise')(minD=False)
        elif o in ('left_no_sweep', 'right_no_sweep'):
            getattr(m, o.split('_')[0]+'_canonicalise')(sweep_back=False)
    return m, v


FORMS = ['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'right_orthogonalise', 'mixed_orthogonalise',
         'left_no_rank', 'right_no_rank', 'left_no_sweep', 'right_no_sweep', 'entropy', 'E', 'E_']
CHANGES = ['apply', 'apply_two_site', 'setitem', 'mul']


def form_change_form(g, m, v):
    """bring into some form, change the state, perhaps bring into some form again: what an earlier form left behind must not matter"""
    for ops in (FORMS, CHANGES, FORMS):
        m, v = history(g, m, v, g.int('how many', 0 if ops is FORMS else 1, 2), allow=ops)
    return m, v
