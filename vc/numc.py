"""Numeric side of the contract language: the real code under the repository's own interpreter.

numc.py IN.json OUT.json : IN = list of {"prop","label","seed","draws","dims"}; runs each contract with random entries and
dimensions (the first draw with the given dims, if any) and reports every failed clause.
"""
import sys, os, json, traceback, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('XMPS_REPO', '/repo')
sys.path.insert(0, REPO)
import numpy as np
import scipy.linalg as sla
import api


class Skip(Exception):
    pass


class NumC(api.Common):
    symbolic = False

    def __init__(self, seed, dims=None, big=False):
        self.rng = np.random.RandomState(seed % (2**32))
        self.np, self.la = np, sla
        self.ob, self.seen, self.undo = [], {}, []
        self.given = dims or {}
        self.dims = {}

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def dim(self, name, lo=1, hi=None):
        if name not in self.dims:
            if name in self.given:
                v = int(self.given[name])
            else:
                v = int(self.rng.randint(max(lo, 1 if self.rng.rand() < .25 else 2) if lo <= 2 else lo, max(lo, 3)+1))
                if hi is not None:
                    v = min(v, hi)
            self.dims[name] = v
        return self.dims[name]

    # -- chains of any length
    def length(self, name, lo=1):
        self.dims[name] = int(self.given[name]) if name in self.given else int(self.rng.randint(lo, max(lo, 1)+5))
        return self.dims[name]

    def index(self, name, lo, hi):
        if hi <= lo:
            raise Skip()
        self.dims[name] = int(self.given[name]) if name in self.given else int(self.rng.randint(lo, hi))
        if not lo <= self.dims[name] < hi:
            raise Skip()
        return self.dims[name]

    def vectors(self, seq, d):
        return [x.reshape(d) for x in seq]

    def chain(self, name, L, d, left=1, right=1, standard=False, flat=False, split=None):
        D = [left]+[1 if flat else int(self.rng.randint(1, 4)) for _ in range(L-1)]+[right]
        if standard:
            for _ in range(L):
                for i in range(1, L):
                    D[i] = min(D[i], d*D[i-1], d*D[i+1])
        return [self.arr(name, d, D[i], D[i+1]) for i in range(L)]

    def centred(self, name, L, d, k):
        As = self.chain(name, L, d)
        R = np.eye(1)
        for i in range(k):
            x = np.einsum('ab,sbc->sac', R, As[i])
            q, R = np.linalg.qr(x.reshape(-1, x.shape[2]))
            As[i] = q.reshape(d, x.shape[1], -1)
        S = np.eye(1)
        for i in range(L-1, k, -1):
            x = np.einsum('sab,bc->sac', As[i], S)
            q, r = np.linalg.qr(x.transpose(0, 2, 1).reshape(-1, x.shape[1]))
            As[i], S = q.reshape(d, x.shape[2], -1).transpose(0, 2, 1), r.T
        x = np.einsum('ab,sbc,cd->sad', R, As[k], S)
        As[k] = x/np.linalg.norm(x)
        return As

    def isochain(self, name, L, d, hand):
        As = self.centred(name, L, d, L-1 if hand == 'l' else 0)
        return As

    def loops(self, *invs):
        pass

    def loops_in(self, **invs):
        pass

    def inv(self, kind, *a, **k):
        return None

    def family(self, name, n, *axes):
        return [self.arr('%s%d' % (name, i), *[int(np.prod(a)) for a in axes]) for i in range(n)]

    def combine(self, terms):
        return [sum(z*x[i] for z, x in terms) for i in range(len(terms[0][1]))]

    def total(self, name, n, f):
        self.record(name, True, '')
        return sum(f(i) for i in range(n))

    def accumulated(self, name, b, view, n, f):
        self.eq(name, view(b), sum(f(k) for k in range(n)))

    def each_bond(self, name, seq, D):
        self.record(name, all(max(x.shape[1:]) <= D for x in seq), '')

    def listcopy(self, seq):
        return [np.array(x) for x in seq]

    def len(self, seq):
        return len(seq)

    def whole(self, seq):
        return self.span(seq, 0, len(seq))

    def span(self, seq, i, j):
        if i == j:
            D = seq[i].shape[1] if i < len(seq) else seq[i-1].shape[2]
            return np.eye(D).reshape(D, 1, D)
        r = seq[i].transpose(1, 0, 2)
        for x in seq[i+1:j]:
            r = np.einsum('apb,qbc->apqc', r, x)
            r = r.reshape(r.shape[0], -1, r.shape[3])
        return r

    def each_iso(self, name, seq, lo, hi, hand):
        bad = ''
        for i in range(lo, hi):
            A = seq[i]
            G = np.einsum('pab,pac->bc', A.conj(), A) if hand == 'l' else np.einsum('pab,pcb->ac', A, A.conj())
            if np.abs(G-np.eye(len(G))).max() > 1e-8:
                bad = 'site %d' % i
        self.record(name, not bad, bad)

    def untouched(self, name, seq, base, lo, hi):
        bad = '' if len(seq) == len(base) else 'length'
        for i in range(len(base)):
            if not bad and not lo <= i < hi and (seq[i].shape != base[i].shape or not np.array_equal(seq[i], base[i])):
                bad = 'site %d' % i
        self.record(name, not bad, bad)

    def atmost(self, a, b):
        if a > b:
            raise Skip()

    def one(self, d):
        return d == 1

    def arr(self, name, *shape, real=False, herm=False):
        a = np.asarray(self.rng.randn(*shape))
        if not real:
            a = a+1j*self.rng.randn(*shape)
        if herm:
            k = len(shape)//2
            a = a+np.conj(np.transpose(a, list(range(k, 2*k))+list(range(k))))
        a = np.asarray(a)
        return np.asarray(a/np.sqrt(max(a.size, 1))*1.7*(1, 1, 100., .01)[getattr(self, 'style', 0) % 4])

    def scalar(self, name, real=False):
        z = self.rng.randn()
        return z if real else z+1j*self.rng.randn()

    def eye(self, n):
        return np.eye(n)

    def zeros(self, *shape):
        return np.zeros(shape)

    def replace(self, owner, name, fn):
        pass

    def uninterpreted(self, owner, name):
        pass

    def same_ray(self, owner, *names):
        pass

    def always(self, owner, name, fn):
        self.undo.append((owner, name, owner.__dict__[name]))
        setattr(owner, name, fn)

    def fixed_points(self, I, unit=False):
        pass

    def callee(self, owner, name, make, *args):
        v = getattr(args[0], name)(*args[1:])
        old = owner.__dict__[name]
        # the same value again (the real one starts from a random guess)
        self.undo.append((owner, name, old))
        setattr(owner, name, lambda self_, *a, **k: v)
        return v

    def solves(self, name, K, lhs, src, like):
        self.eq(name+': what is returned', lhs(K), src)
        self.eq(name+': left-hand side', 0, 0)
        self.eq(name+': right-hand side', 0, 0)

    def num(self, x):
        return np.ravel(x)[0]

    def canonical(self, I, name, d, D, hand, diagonal=True):
        m = I.iMPS([self.injective(name, d, D)]).canonicalise(hand)
        A = m.data[0]
        if not diagonal:
            Q = np.linalg.qr(self.rng.randn(D, D)+1j*self.rng.randn(D, D))[0]
            A = Q.conj().T@A@Q
        _, l, r = I.TransferMatrix(A).eigs()
        return A, l, r

    def injective(self, name, d, D, unit=False):
        for _ in range(50):
            A = self.arr(name, d, D, D)
            w = np.sort(np.abs(np.linalg.eigvals(np.einsum('sab,scd->acbd', A, A.conj()).reshape(D*D, D*D))))[::-1]
            if w[1] < .9*w[0]:
                return A/np.sqrt(w[0]) if unit else A
        raise Skip()

    def dominant(self, I):
        pass

    def eyes(self, slots):
        return np.eye(int(np.prod(slots)))

    def spin(self):
        return .5*self.rng.randint(1, 12)

    def spineye(self, S):
        return np.eye(int(2*S+1))

    def spindiag(self, S):
        return np.diag(np.arange(S, -S-1, -1))

    def allocs(self):
        pass

    def const(self, a):
        return np.asarray(a)

    def precondition(self, text):
        pass

    def descending(self, name, v):
        v = np.real(np.asarray(v))
        self.record(name, np.all(np.diff(v) <= 1e-9*max(1, np.abs(v).max())) and v.min() > -1e-9, str(v)[:200])

    def assume(self, cond):
        if callable(cond):
            cond = cond()
        if not cond:
            raise Skip()

    def le(self, a, b):
        return a <= b

    def record(self, name, ok, detail=''):
        k = self.seen.get(name, 0)
        self.seen[name] = k+1
        if k:
            name = '%s #%d' % (name, k+1)
        self.ob.append((name, bool(ok), detail))

    def eq(self, name, a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.record(name, False, 'shape %s against %s' % (a.shape, b.shape))
        s = max(np.abs(a).max() if a.size else 0, np.abs(b).max() if b.size else 0, 1e-6)
        e = np.abs(a-b).max()/s if a.size else 0
        self.record(name, e < 1e-7, 'relative difference %.3g' % e)

    def zero(self, name, a, scale=1.0):
        a = np.asarray(a)
        e = np.abs(a).max()/scale if a.size else 0
        self.record(name, e < 1e-7, 'size %.3g' % e)

    def size(self, *a):
        return float(np.prod([max(np.abs(x).max(), 1e-300) for x in a if np.asarray(x).size]))

    def true(self, name, cond, detail=''):
        if callable(cond):
            cond = cond()
        self.record(name, bool(cond), detail)

    def shape(self, name, a, shape):
        self.record(name, tuple(a.shape) == tuple(shape), '%s against %s' % (tuple(a.shape), tuple(shape)))

    def arrays(self, x, depth=0):
        if isinstance(x, np.ndarray):
            return [x] if x.dtype != object else [z for y in x.flat for z in self.arrays(y, depth+1)]
        if isinstance(x, (list, tuple)) and depth < 6:
            return [z for y in x for z in self.arrays(y, depth+1)]
        if isinstance(x, dict) and depth < 6:
            return [z for y in x.values() for z in self.arrays(y, depth+1)]
        if hasattr(x, '__dict__') and type(x).__module__.startswith('xmps') and depth < 6:
            return [z for k, y in sorted(vars(x).items()) for z in self.arrays(y, depth+1)]
        return []

    def snap(self, *objs):
        arrs = [a for o in objs for a in self.arrays(o)]
        return [(o, [np.array(x) for x in api.flatten(o.data)] if isinstance(getattr(o, 'data', None), list) else None) for o in objs], [(a, a.copy()) for a in arrs]

    def unchanged(self, name, tok):
        objs, arrs = tok
        bad = ['an array was written'] if any(a.shape != b.shape or not np.array_equal(a, b) for a, b in arrs) else []
        for o, data in objs:
            if data is not None:
                now = [np.asarray(x) for x in api.flatten(o.data)]
                if len(now) != len(data) or any(x.shape != y.shape or np.abs(x-y).max() > 1e-10*max(np.abs(x).max(), 1e-9) for x, y in zip(data, now) if x.size or y.size):
                    bad.append('the tensors changed')
        self.record(name, not bad, '; '.join(bad))

    def disjoint(self, name, a, b):
        A, B = self.arrays(a), self.arrays(b)
        sh = any(np.shares_memory(x, y) for x in A for y in B)
        self.record(name, not sh, 'shared memory' if sh else '')

    def proportional(self, name, a, b, unit=False):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.record(name, False, 'shape')
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        if na < 1e-12 or nb < 1e-12:
            return self.record(name, False, 'zero state')
        e = 1-abs(np.vdot(a, b))/(na*nb)
        self.record(name, abs(e) < 1e-9, 'one minus overlap %.3g' % e)


def run(k, seed, dims=None, style=0):
    c = NumC(seed, dims)
    c.style = style
    random.seed(seed)
    np.random.seed(seed % (2**32))
    try:
        k.fn(c, **k.params)
    except Skip:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if f.filename.startswith(REPO)]
        c.ob.append(('no error', False, '%s: %s @ %s' % (type(e).__name__, e, ('%s:%d' % (os.path.basename(fr[-1].filename), fr[-1].lineno)) if fr else tb[-1].filename+':%d' % tb[-1].lineno)))
    else:
        c.ob.append(('no error', True, ''))
    finally:
        for o, n, old in reversed(c.undo):
            setattr(o, n, old)
    return {'dims': c.dims, 'ob': c.ob, 'seed': seed}


def main():
    jobs = json.load(open(sys.argv[1]))
    import warnings
    warnings.simplefilter('ignore')
    byl = {}
    for k in api.load():
        byl[(k.prop, k.label())] = k
    out = []
    for j in jobs:
        k = byl[(j['prop'], j['label'])]
        r = {'prop': j['prop'], 'label': j['label'], 'ran': 0, 'clauses': 0, 'failed': []}
        # undirected draws first, then (for replays) the dimensions of every failing path at several scales
        plan = [(None, 0)]*j.get('draws', 2)+[(d, st) for d in j.get('dims') or [] for st in (0, 1, 2, 3)]
        for n, (d, st) in enumerate(plan):
            for retry in range(20):
                x = run(k, j['seed']+1000*n+7919*retry, d, st)
                if x is not None or d:
                    break
            if x is None:
                continue
            r['ran'] += 1
            r['clauses'] += len(x['ob'])
            for name, ok, detail in x['ob']:
                if not ok:
                    r['failed'].append({'clause': name, 'detail': detail, 'dims': x['dims'], 'seed': x['seed']})
        out.append(r)
        with open(sys.argv[2]+'.part', 'w') as f:
            json.dump(out, f, default=str)
        os.replace(sys.argv[2]+'.part', sys.argv[2])


if __name__ == '__main__':
    main()
