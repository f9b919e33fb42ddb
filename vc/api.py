"""The contract language.  A contract is a function of `c`; the same body runs

 * symbolically (SymC): over the repository's unmodified source with numpy / scipy replaced by the symbolic kernel;
   every c.eq / c.iso / ... is an obligation that must hold for all tensor entries and all admissible dimensions;
 * numerically (NumC): on the real code with random entries and dimensions, to replay failed obligations and as a
   cross-check of the kernel.
"""
CONTRACTS = []


def flatten(x):
    """the entries of nested lists"""
    return [z for y in x for z in (flatten(y) if isinstance(y, (list, tuple)) else [y])]


class Contract:
    def __init__(self, fn, prop, name, params, tier, bounded, note):
        self.fn, self.prop, self.name, self.params, self.tier, self.bounded, self.note = fn, prop, name, params, tier, bounded, note

    def label(self):
        return self.name+('[%s]' % ','.join('%s=%s' % kv for kv in self.params.items()) if self.params else '')


def contract(props, name, bounded=None, tier='quick', note='', grid=({},), thorough=()):
    """props: ids the contract counts for; grid: parameter dictionaries run in both tiers; thorough: only in the thorough tier"""
    props = props.split() if isinstance(props, str) else props

    def deco(fn):
        for p in props:
            for g in grid:
                CONTRACTS.append(Contract(fn, p, name, dict(g), tier, bounded, note))
            for g in thorough:
                CONTRACTS.append(Contract(fn, p, name, dict(g), 'thorough', bounded, note))
        return fn
    return deco


def load():
    if not CONTRACTS:
        import importlib, os
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'contracts')
        import sys
        sys.path.insert(0, d)
        for f in sorted(os.listdir(d)):
            if f.startswith('k_') and f.endswith('.py'):
                importlib.import_module(f[:-3])
    return CONTRACTS


def of_prop(prop, tier):
    return [k for k in load() if k.prop == prop and (tier == 'thorough' or k.tier == 'quick')]


class Common:
    """helpers written once over c.np"""

    def mps(c, name, L, d=None, D=None, cls=None, cplx=True, edge=1):
        """a generic finite matrix product state: every tensor of shape (d, D_i, D_i+1) with arbitrary entries"""
        F = cls or c.mod('xmps.fMPS').fMPS
        T = c.tensors(name, L, d, D, cplx=cplx)
        return F(T)

    def tensors(c, name, L, d=None, D=None, cplx=True):
        d = d if d is not None else c.dim('d')
        D = D or [1]+[c.dim('D%s%d' % (name, i)) for i in range(1, L)]+[1]
        return [c.arr('%s%d' % (name, i), d, D[i], D[i+1], real=not cplx) for i in range(L)]

    def dense(c, tensors):
        """the state vector of a chain, one index per site (specification: the product of the matrices)"""
        np = c.np
        r = tensors[0]
        for x in tensors[1:]:
            r = np.tensordot(r, x, ([r.ndim-1], [1]))
        # axes: i0, left, i1, ..., in-1, right
        n = len(tensors)
        perm = [1, 0]+list(range(2, n+1))+[n+1]
        r = np.transpose(r, perm)
        if not (c.one(r.shape[0]) and c.one(r.shape[n+1])):
            raise AssertionError('open chain')
        return r[(0,)+(slice(None),)*n+(0,)]

    def open(c, tensors):
        """as dense, with the outer bonds kept: (left, i0..in-1, right)"""
        np = c.np
        r = tensors[0]
        for x in tensors[1:]:
            r = np.tensordot(r, x, ([r.ndim-1], [1]))
        n = len(tensors)
        return np.transpose(r, [1, 0]+list(range(2, n+1))+[n+1])

    def same(c, a, b):
        return bool(a == b)

    def vdot(c, a, b):
        np = c.np
        n = a.ndim
        return np.tensordot(np.conj(a), b, (list(range(n)), list(range(n))))

    def op(c, o, v, sites):
        """apply o (in,out with outputs first, one index per site) to sites of the dense tensor v"""
        np = c.np
        k = len(sites)
        r = np.tensordot(o, v, (list(range(k, 2*k)), list(sites)))
        return np.moveaxis(r, list(range(k)), list(sites))

    def isometry(c, name, A, axes, keep):
        """sum over `axes` of conj(A) A is the identity on `keep`"""
        np = c.np
        G = np.tensordot(np.conj(A), A, (list(axes), list(axes)))
        c.eq(name, G, c.eye(A.shape[keep]))

    def left_iso(c, name, A):
        c.isometry(name, A, (0, 1), 2)

    def right_iso(c, name, A):
        c.isometry(name, A, (0, 2), 1)
