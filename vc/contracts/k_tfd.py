"""thermofield doubles (C22)"""
from api import contract

M = 'xmps.fMPS'
BL = 'chain length'
LS123 = [dict(L=n) for n in (1, 2, 3)]
LS23 = [dict(L=n) for n in (2, 3)]


def doubled(c, L, D=None, name='A'):
    """a thermofield double with arbitrary tensors; square bonds D_i^2 when D is None, else the bonds given"""
    F = c.mod(M)
    d = c.dim('d')
    if D is None:
        D = [1]+[c.dim('D%d' % i) for i in range(1, L)]+[1]
        T = [c.arr('%s%d' % (name, i), d, d, D[i], D[i], D[i+1], D[i+1]).reshape(d*d, D[i]*D[i], D[i+1]*D[i+1]) for i in range(L)]
    else:
        T = [c.arr('%s%d' % (name, i), d, d, D[i], D[i+1]).reshape(d*d, D[i], D[i+1]) for i in range(L)]
    return F.fTFD(T), d


def pairs(c, v, L, d):
    """the state vector with one index per copy and site: (l0, r0, l1, r1, ...)"""
    return v.reshape(*[d]*(2*L))


def swapped(c, v, L):
    return c.np.transpose(v, [k for i in range(L) for k in (2*i+1, 2*i)])


@contract('C22', 'from_fMPS', BL, grid=LS123)
def _(c, L):
    F = c.mod(M)
    d = c.dim('d')
    m = c.mps('A', L, d)
    m = F.fMPS(m.data, d=d, D=None)
    t0 = c.snap(m)
    t = F.fTFD().from_fMPS(m)
    v = c.dense(m.data)
    w = c.np.transpose(c.np.tensordot(v, v, 0), [k for i in range(L) for k in (i, L+i)])
    c.eq('the state on both copies', pairs(c, c.dense(t.data), L, d), w)
    c.true('sizes', lambda: t.L == L and t.d == d*d)
    for i in range(L):
        c.shape('site %d' % i, t.data[i], (d*d, m.data[i].shape[1]*m.data[i].shape[1], m.data[i].shape[2]*m.data[i].shape[2]))
    c.unchanged('the source is kept', t0)


@contract('C22', 'symmetry', BL, grid=LS123)
def _(c, L):
    t, d = doubled(c, L)
    t0 = c.snap(t)
    v = c.dense(t.data)
    s = t.symmetry()
    c.eq('the copies are exchanged', pairs(c, c.dense(s.data), L, d), swapped(c, pairs(c, v, L, d), L))
    for i, (a, b) in enumerate(zip(s.symmetry().data, t.data)):
        c.eq('an involution at site %d' % i, a, b)
    y = t.symmetrise()
    for i, (a, b) in enumerate(zip(y.data, y.symmetry().data)):
        c.eq('symmetrised site %d is symmetric' % i, a, b)
    w = pairs(c, c.dense(y.data), L, d)
    c.eq('the symmetrised state is symmetric', swapped(c, w, L), w)
    c.unchanged('the state is kept', t0)


def side(c, op, lr, v, L, i, d):
    """op on one copy of site i of the state vector"""
    return c.op(op, pairs(c, v, L, d), [2*i+lr])


@contract('C22', 'E on either copy', BL, grid=[dict(L=n, i=i, lr=k) for n in (1, 2, 3) for i in range(n) for k in (0, 1)])
def _(c, L, i, lr):
    D = [1]+[c.dim('D%d' % j) for j in range(1, L)]+[1]
    t, d = doubled(c, L, D)
    v = c.dense(t.data)
    op = c.arr('op', d, d)
    e = t.E(op, i, lr)
    w = c.dense(t.data)
    z = c.vdot(pairs(c, w, L, d), side(c, op, lr, w, L, i, d))
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    c.proportional('which is the same ray', w, v)
    c.eq('of unit norm', c.vdot(w, w), 1)


@contract('C22', 'Es on either copy', BL, grid=[dict(L=n, i=i, lr=k) for n in (1, 2) for i in range(n) for k in (0, 1)])
def _(c, L, i, lr):
    D = [1]+[c.dim('D%d' % j) for j in range(1, L)]+[1]
    t, d = doubled(c, L, D)
    v = c.dense(t.data)
    ops = [c.arr('op%d' % j, d, d) for j in range(2)]
    e = t.Es(ops, i, lr)
    w = c.dense(t.data)
    for j in range(2):
        z = c.vdot(pairs(c, w, L, d), side(c, ops[j], lr, w, L, i, d))
        c.eq('expectation value %d in the state it leaves' % j, e[j], z)
    c.proportional('which is the same ray', w, v)


@contract('C22', 'both copies of a pure state', BL, grid=[dict(L=n, i=i) for n in (1, 2) for i in range(n)])
def _(c, L, i):
    """an observable of either copy of |m>|m> is that of m"""
    F = c.mod(M)
    d = c.dim('d')
    m = c.mps('A', L, d)
    m = F.fMPS(m.data, d=d, D=None)
    v = c.dense(m.data)
    t = F.fTFD().from_fMPS(m)
    op = c.arr('op', d, d)
    w = pairs(c, c.dense(t.data), L, d)
    z = c.vdot(v, c.op(op, v, [i]))
    for lr in (0, 1):
        c.eq('copy %d' % lr, c.vdot(w, c.op(op, w, [2*i+lr])), z*c.vdot(v, v))
    n = t.norm()
    c.eq('norm', n, c.vdot(v, v)*c.vdot(v, v))


@contract('C22', 'overlap of doubled states is the squared overlap', BL, grid=LS123)
def _(c, L):
    F = c.mod(M)
    d = c.dim('d')
    a, b = [F.fMPS(c.mps(n, L, d).data, d=d, D=None) for n in 'AB']
    o = F.fTFD().from_fMPS(a).overlap(F.fTFD().from_fMPS(b))
    z = c.vdot(c.dense(b.data), c.dense(a.data))
    c.eq('square of the overlap', o, z*z)


@contract('C22', 'local_overlap', BL+', local dimension of one copy (two)', grid=[dict(L=n, i=i, k=k, double=w) for n, i, k in ((1, 0, 1), (2, 0, 1), (2, 1, 1), (2, 0, 2), (3, 1, 2)) for w in (False, True)])
def _(c, L, i, k, double):
    np = c.np
    F = c.mod(M)
    c.dims['d'] = 2
    D = [1]+[c.dim('D%d' % j, 2) for j in range(1, L)]+[1]
    t, d = doubled(c, L, D)
    p = c.mps('B', L, 2, [1]*(L+1))
    v = c.dense(t.data)
    s = list(range(i, i+k))
    e = t.local_overlap(p, s, double=double)
    w = c.dense(t.data)
    x = y = pairs(c, w, L, 2)
    for j in s:
        f = p.data[j][:, 0, 0]
        P = np.tensordot(f, np.conj(f), 0)
        y = c.op(P, y, [2*j+1])
        if double:
            y = c.op(P, y, [2*j])
    z = c.vdot(x, y)
    c.eq('expectation value of the projections', e*2, z+np.conj(z))
    c.proportional('of the same ray', w, v)
    c.eq('of unit norm', c.vdot(w, w), 1)


@contract('C22', 'approx_overlap', BL, grid=[dict(L=3, double=w) for w in (False, True)])
def _(c, L, double):
    """over the contract of local_overlap: the mean over the partition"""
    F = c.mod(M)
    if not c.symbolic:
        c.dims['d'] = 2
    t, d = doubled(c, L, [1]+[c.dim('D%d' % j, 2) for j in range(1, L)]+[1])
    p = c.mps('B', L, d, [1]*(L+1))
    A = [[0, 1], [2], [1]]
    z = [c.scalar('z%d' % i, real=True) if c.symbolic else t.local_overlap(p, s, double) for i, s in enumerate(A)]
    bad = []

    def local(self, other, sites, double=False):
        if self is not t or other is not p or double != want or list(sites) not in A:
            bad.append(sites)
        return z[A.index(list(sites))]
    want = double
    c.replace(F.fTFD, 'local_overlap', local)
    e = t.approx_overlap(p, A, double=double)
    c.true('called with the given states and sites', not bad)
    c.eq('average of the local overlaps', e*3, z[0]+z[1]+z[2])


@contract('C22', 'sum of doubled states', BL, grid=LS123)
def _(c, L):
    x, d = doubled(c, L, [1]+[c.dim('Da%d' % j) for j in range(1, L)]+[1])
    y, d = doubled(c, L, [1]+[c.dim('Db%d' % j) for j in range(1, L)]+[1], 'B')
    t0 = c.snap(x, y)
    s = x.add(y)
    c.eq('sum of the state vectors', c.dense(s.data), c.dense(x.data)+c.dense(y.data))
    c.true('kind', isinstance(s, c.mod(M).fTFD))
    c.unchanged('both are kept', t0)


@contract('C22', 'elementwise arithmetic of doubled states', BL, grid=LS23)
def _(c, L):
    D = [1]+[c.dim('D%d' % j) for j in range(1, L)]+[1]
    (a, d), (b, d) = doubled(c, L, D), doubled(c, L, D, 'B')
    t = c.snap(a, b)
    z = c.scalar('z')
    p, m, q, r, e = a+b, a-b, a*z, a.__rmul__(z), a/z
    for k in (p, m, q, r, e):
        c.true('kind', isinstance(k, c.mod(M).fTFD))
    for i in range(L):
        c.eq('+ at site %d' % i, p.data[i], a.data[i]+b.data[i])
        c.eq('- at site %d' % i, m.data[i], a.data[i]-b.data[i])
        c.eq('* at site %d' % i, q.data[i], z*a.data[i])
        c.eq('right * at site %d' % i, r.data[i], z*a.data[i])
        c.eq('/ at site %d' % i, e.data[i]*z, a.data[i])
    c.unchanged('both states are kept', t)


@contract('C22', 'random doubled states', BL, grid=[dict(L=n, pure=p) for n in (2, 3, 4) for p in (True, False)])
def _(c, L, pure):
    F = c.mod(M)
    d, D = (c.dim('d'), c.dim('D')) if pure else (2, 2)
    t = F.fTFD().random(L, d, D, pure=pure)
    c.true('length', t.L == L and len(t.data) == L)
    c.true('local dimension', lambda: c.same(t.data[0].shape[0], d*d))
    c.true('open ends', lambda: c.one(t.data[0].shape[1]) and c.one(t.data[-1].shape[2]))
    for i in range(L-1):
        c.true('bond %d' % i, lambda: c.same(t.data[i].shape[2], t.data[i+1].shape[1]))
        c.true('bond %d within the limit' % i, lambda: t.data[i].shape[2] <= D*D)


# ---------------------------------------------------------------- C23

@contract('C23', 'Vidal form and back', BL, grid=LS123)
def _(c, L):
    """full-rank states"""
    np = c.np
    F = c.mod(M)
    c.replace(F, 'rank', lambda M: M.shape[0])
    c.precondition('the environments have full rank')
    m = c.mps('A', L)
    m = F.fMPS(m.data, d=m.data[0].shape[0], D=None)
    v = c.dense(m.data)
    t = F.vfMPS().from_fMPS(m)
    c.true('one pair per site', len(t.data) == L)
    c.true('local dimension', lambda: c.same(t.d, m.data[0].shape[0]))
    e = c.eye(1)
    for i, (S, G) in enumerate(t.data):
        c.eq('bond matrix %d is the spectrum' % i, S, e)
        c.eq('bond matrix %d is diagonal' % i, S, np.diag(np.diag(S)))
        c.descending('bond matrix %d descends' % i, np.diag(S))
        B = np.einsum('ab,bsc->sac', S, np.swapaxes(G, 0, 1))
        c.right_iso('pair %d multiplies to a right canonical tensor' % i, B)
        e = np.einsum('sab,ac,scd->bd', np.conj(B), e, B)
    r = t.to_fMPS()
    c.proportional('round trip', c.dense(r.data), v)
    c.eq('of unit norm', c.vdot(c.dense(r.data), c.dense(r.data)), 1)


@contract('C22', 'dA_dt', BL, grid=[dict(L=n, full=f) for n in (2, 3) for f in (False, True)])
def _(c, L, full):
    """both copies evolve with the Hamiltonian: the derivative is that of the chain of pairs (C11) under H x 1 + 1 x H"""
    np = c.np
    c.precondition('the state has full rank: every left environment is positive definite')
    if c.symbolic:
        c.c.flags['full_rank_null'] = True
    D = [1]+[c.dim('D%d' % j) for j in range(1, L)]+[1]
    t, d = doubled(c, L, D)
    for A in t.data:
        c.atmost(A.shape[2], d*d*A.shape[1])
        c.atmost(A.shape[1], d*d*A.shape[2])
    n = L if full else 2
    hs = [c.arr('h%d' % k, *[d]*(2*n)) for k in range(L-n+1)]
    def both(h):
        i, j = list(range(0, 4*n, 2)), list(range(1, 4*n, 2))       # legs of the copies, rows then columns
        one = sum([[c.eye(d), [j[k], j[n+k]]] for k in range(n)], [])
        two = sum([[c.eye(d), [i[k], i[n+k]]] for k in range(n)], [])
        return (np.einsum(h, i, *one, list(range(4*n)))+np.einsum(h, j, *two, list(range(4*n)))).reshape(*[np.prod([d]*(2*n))]*2)
    flat = [h.reshape(*[np.prod([d]*n)]*2) for h in hs]
    t0 = c.snap(t, flat)
    B = t.dA_dt(flat[0] if full else flat, fullH=full)
    c.unchanged('the state and the Hamiltonian are kept', t0)
    m = c.mod(M).fMPS([A for A in t.data], d*d)
    want = m.dA_dt(both(hs[0]) if full else [both(h) for h in hs], fullH=full)
    for k in range(L):
        c.eq('site %d' % k, B.data[k], want.data[k])


@contract('C22', 'copy', BL, grid=LS123)
def _(c, L):
    """a copy is a thermofield double with the same tensors"""
    t, d = doubled(c, L)
    t0 = c.snap(t)
    s = t.copy()
    c.true('kind', lambda: type(s) is type(t) and s.L == t.L)
    for i in range(L):
        c.eq('site %d' % i, s.data[i], t.data[i])
    c.unchanged('the source is kept', t0)
