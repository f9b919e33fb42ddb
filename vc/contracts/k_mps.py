from api import contract

LS = [dict(L=n) for n in (1, 2, 3, 4)]
LS2 = [dict(L=n) for n in (2, 3, 4)]
LS23 = [dict(L=n) for n in (2, 3)]
LS123 = [dict(L=n) for n in (1, 2, 3)]
BL = 'chain length'


# ---------------------------------------------------------------- C01 orthogonalisation

@contract('C01', 'left_orthogonalise', BL, grid=LS)
def _(c, L):
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.left_orthogonalise()
    w = c.dense(m.data)
    c.eq('state times recorded norm is the old state', w*m.norm_[0, 0], v)
    for i in range(L):
        c.left_iso('site %d is a left isometry' % i, m.data[i])
    c.true('returns itself', r is m)
    c.eq('unit norm', c.vdot(w, w), 1)


@contract('C01', 'right_orthogonalise', BL, grid=LS)
def _(c, L):
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.right_orthogonalise()
    w = c.dense(m.data)
    c.eq('state times recorded norm is the old state', w*m.norm_[0, 0], v)
    for i in range(L):
        c.right_iso('site %d is a right isometry' % i, m.data[i])
    c.true('returns itself', r is m)
    c.eq('unit norm', c.vdot(w, w), 1)


@contract('C01', 'mixed_orthogonalise', BL, grid=[dict(L=n, oc=o) for n in (1, 2, 3, 4) for o in range(n)])
def _(c, L, oc):
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.mixed_orthogonalise(oc)
    w = c.dense(m.data)
    c.eq('state times recorded norm is the old state', w*m.norm_, v)
    for i in range(oc):
        c.left_iso('site %d is a left isometry' % i, m.data[i])
    for i in range(oc+1, L):
        c.right_iso('site %d is a right isometry' % i, m.data[i])
    c.eq('unit centre', c.vdot(m.data[oc], m.data[oc]), 1)
    c.eq('unit norm', c.vdot(w, w), 1)
    c.true('returns itself', r is m)


@contract('C01', 'partial sweeps', BL, grid=[dict(L=n, fr=f, to=t) for n in (3, 4) for f in range(n) for t in range(f+1, n) if (f, t) != (0, n)][:9])
def _(c, L, fr, to):
    m = c.mps('A', L)
    T = list(m.data)
    v = c.dense(m.data)
    m.left_orthogonalise(fr=fr, to=to)
    c.eq('left sweep keeps the state', c.dense(m.data), v)
    for i in range(fr, to):
        c.left_iso('site %d is a left isometry' % i, m.data[i])
    for i in list(range(fr))+list(range(to+1, L)):
        c.eq('site %d outside the left range is untouched' % i, m.data[i], T[i])
    m = c.mps('B', L)
    T = list(m.data)
    v = c.dense(m.data)
    m.right_orthogonalise(fr=fr+1, to=to+1)
    c.eq('right sweep keeps the state', c.dense(m.data), v)
    for i in range(fr+1, to+1):
        c.right_iso('site %d is a right isometry' % i, m.data[i])
    for i in list(range(fr))+list(range(to+1, L)):
        c.eq('site %d outside the right range is untouched' % i, m.data[i], T[i])


# ---------------------------------------------------------------- C02 canonicalisation (first sweep)

@contract('C02', 'right_canonicalise without sweeping back', BL, grid=LS)
def _(c, L):
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.right_canonicalise(sweep_back=False)
    w = c.dense(m.data)
    c.proportional('ray kept', w, v)
    for i in range(L):
        c.right_iso('site %d is a right isometry' % i, m.data[i])
    c.eq('unit norm', c.vdot(w, w), 1)
    c.true('returns itself', r is m)


@contract('C02', 'left_canonicalise without sweeping back', BL, grid=LS)
def _(c, L):
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.left_canonicalise(sweep_back=False)
    w = c.dense(m.data)
    c.proportional('ray kept', w, v)
    for i in range(L):
        c.left_iso('site %d is a left isometry' % i, m.data[i])
    c.eq('unit norm', c.vdot(w, w), 1)
    c.true('returns itself', r is m)


@contract('C02', 'mixed_canonicalise', BL, grid=[dict(L=n, oc=o) for n in (1, 2, 3) for o in range(n)])
def _(c, L, oc):
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.mixed_canonicalise(oc)
    w = c.dense(m.data)
    c.proportional('ray kept', w, v)
    for i in range(oc):
        c.left_iso('site %d is a left isometry' % i, m.data[i])
    for i in range(oc+1, L):
        c.right_iso('site %d is a right isometry' % i, m.data[i])
    c.eq('unit centre', c.vdot(m.data[oc], m.data[oc]), 1)
    c.true('returns itself', r is m)


def sweep_contract(hand):
    def f(c, L):
        """full-rank states: no environment has a zero eigenvalue"""
        np = c.np
        F = c.mod('xmps.fMPS')
        c.replace(F, 'rank', lambda M: M.shape[0])
        c.precondition('the environments have full rank')
        m = c.mps('A', L)
        v = c.dense(m.data)
        r = getattr(m, hand+'_canonicalise')()
        c.true('returns itself', r is m)
        w = c.dense(m.data)
        c.proportional('ray kept', w, v)
        c.eq('unit norm', c.vdot(w, w), 1)
        c.true('one spectrum per bond', len(m.Ls) == L+1)
        for i in range(L):
            (c.left_iso if hand == 'left' else c.right_iso)('site %d is an isometry' % i, m.data[i])
        # environments from the other side are the recorded spectra
        e = c.eye(1)
        for k in range(L+1):
            i = k if hand == 'right' else L-k
            c.eq('environment at bond %d is the recorded spectrum' % i, e, m.Ls[i])
            c.eq('spectrum %d is diagonal' % i, m.Ls[i], np.diag(np.diag(m.Ls[i])))
            c.eq('spectrum %d sums to one' % i, np.trace(m.Ls[i]), 1)
            c.descending('spectrum %d descends' % i, np.diag(m.Ls[i]))
            if k < L:
                A = m.data[i if hand == 'right' else i-1]
                e = np.einsum('sab,ac,scd->bd', np.conj(A), e, A) if hand == 'right' else np.einsum('sab,bc,sdc->ad', A, e, np.conj(A))
    return f


contract('C02 C23', 'right_canonicalise with spectra', BL, grid=LS)(sweep_contract('right'))
contract('C02 C23', 'left_canonicalise with spectra', BL, grid=LS)(sweep_contract('left'))


# ---------------------------------------------------------------- C04

@contract('C04', 'recombine', 'chain length, local dimension', grid=[dict(L=1, d=2), dict(L=2, d=2), dict(L=2, d=3), dict(L=3, d=2)], thorough=[dict(L=4, d=2), dict(L=3, d=3)])
def _(c, L, d):
    m = c.mps('A', L, d=d)
    if c.symbolic:
        c.allocs()
    c.eq('amplitudes are the products of the matrices', m.recombine(), c.dense(m.data))


@contract('C04', 'left_from_state', BL, grid=LS123)
def _(c, L):
    F = c.mod('xmps.fMPS').fMPS
    d = c.dim('d')
    psi = c.arr('psi', *[d]*L)
    m = F().left_from_state(psi)
    c.true('length', len(m.data) == L and m.L == L)
    w = c.dense(m.data)
    c.proportional('the state is the tensor up to a scalar', w, psi)
    for i in range(L):
        c.left_iso('site %d is a left isometry' % i, m.data[i])
    c.eq('unit norm', c.vdot(w, w), 1)


@contract('C04', 'right_from_state', BL, grid=LS123)
def _(c, L):
    F = c.mod('xmps.fMPS').fMPS
    d = c.dim('d')
    psi = c.arr('psi', *[d]*L)
    m = F().right_from_state(psi)
    c.true('length', len(m.data) == L and m.L == L)
    w = c.dense(m.data)
    c.proportional('the state is the tensor up to a scalar', w, psi)
    for i in range(L):
        c.right_iso('site %d is a right isometry' % i, m.data[i])
    c.eq('unit norm', c.vdot(w, w), 1)


# ---------------------------------------------------------------- C05

@contract('C05', 'overlap', BL, grid=LS)
def _(c, L):
    d = c.dim('d')
    a, b = c.mps('A', L, d), c.mps('B', L, d)
    t = c.snap(a, b)
    o = a.overlap(b)
    c.eq('inner product of the state vectors', o, c.vdot(c.dense(b.data), c.dense(a.data)))
    c.unchanged('both states are kept', t)


@contract('C05', 'norm', BL, grid=LS)
def _(c, L):
    a = c.mps('A', L)
    t = c.snap(a)
    v = c.dense(a.data)
    c.eq('squared length', a.norm(), c.vdot(v, v))
    c.unchanged('the state is kept', t)


@contract('C05', 'full_overlap', 'chain length, local dimension', grid=[dict(L=1, d=2), dict(L=2, d=2), dict(L=3, d=2)])
def _(c, L, d):
    if c.symbolic:
        c.allocs()
    a, b = c.mps('A', L, d), c.mps('B', L, d)
    c.eq('inner product, conjugate-linear in the first', a.full_overlap(b), c.vdot(c.dense(a.data), c.dense(b.data)))


@contract('C05', 'product states', BL, grid=LS)
def _(c, L):
    F = c.mod('xmps.fMPS').fMPS
    d = c.dim('d')
    vs = [c.arr('v%d' % i, d) for i in range(L)]
    us = [c.arr('u%d' % i, d) for i in range(L)]
    np = c.np
    dense = vs[0]
    for x in vs[1:]:
        dense = np.tensordot(dense, x, 0)
    p = F().from_product_state(vs)
    c.eq('product of the vectors', c.dense(p.data), dense)
    ps = F().from_product_states([vs, us])
    c.true('two states', len(ps) == 2)
    c.eq('first of several', c.dense(ps[0].data), dense)
    dense2 = us[0]
    for x in us[1:]:
        dense2 = np.tensordot(dense2, x, 0)
    c.eq('second of several', c.dense(ps[1].data), dense2)
    a = c.mps('A', L, d)
    c.eq('overlap with a product state', a.product_state_overlap(vs), c.vdot(dense, c.dense(a.data)))


def pairs(L):
    return [list(range(i, j)) for i in range(L) for j in range(i+1, L+1)]


@contract('C05 C06', 'local_overlap', BL, grid=[dict(L=2, i=0, k=1), dict(L=2, i=1, k=1), dict(L=3, i=1, k=1), dict(L=2, i=0, k=2), dict(L=3, i=0, k=2), dict(L=3, i=1, k=2)])
def _(c, L, i, k):
    d = c.dim('d')
    DA, DB = [[1]+[c.dim('D%s%d' % (n, j), 2) for j in range(1, L)]+[1] for n in 'AB']
    a, b = c.mps('A', L, d, DA), c.mps('B', L, d, DB)
    v, w = c.dense(a.data), c.dense(b.data)
    s = list(range(i, i+k))
    rest = [j for j in range(L) if j not in s]
    np = c.np
    o = a.local_overlap(b, s)
    v_, w_ = c.dense(a.data), c.dense(b.data)
    ra = np.tensordot(v_, np.conj(v_), (rest, rest))
    rb = np.tensordot(w_, np.conj(w_), (rest, rest))
    tr = np.tensordot(ra, rb, (list(range(2*k)), list(range(k, 2*k))+list(range(k))))
    c.eq('trace of the product of the reduced density matrices', o, tr)
    c.eq('of states of unit norm', c.vdot(v_, v_), 1)
    c.eq('both', c.vdot(w_, w_), 1)
    c.proportional('first ray kept', v_, v)
    c.proportional('second ray kept', w_, w)


@contract('C05 C06', 'local_overlap with a product state', BL, grid=[dict(L=2, i=0, k=1, o=o) for o in (0, 1)]+[dict(L=2, i=0, k=2, o=o) for o in (0, 1)]+[dict(L=3, i=1, k=2, o=o) for o in (0, 1)])
def _(c, L, i, k, o):
    d = c.dim('d', 2)
    D = [1]+[c.dim('DA%d' % j, 2) for j in range(1, L)]+[1]
    a, b = c.mps('A', L, d, D), c.mps('B', L, d, [1]*(L+1))
    v = c.dense(a.data)
    s = list(range(i, i+k))
    t = c.snap(b)
    x = a.local_overlap(b, s) if o == 0 else b.local_overlap(a, s)
    u = w = c.dense(a.data)
    np = c.np
    for j in s:
        f = b.data[j][:, 0, 0]
        w = c.op(np.tensordot(f, np.conj(f), 0), w, [j])
    z = c.vdot(u, w)
    c.eq('expectation value of the projections', x, z)
    c.eq('in a state of unit norm', c.vdot(u, u), 1)
    c.proportional('first ray kept', u, v)
    c.unchanged('the product state is kept', t)


# ---------------------------------------------------------------- C06

def expect(c, v, op, sites):
    """<v|op|v>, op with output indices first"""
    return c.vdot(v, c.op(op, v, sites))


@contract('C06 C25', 'E', BL, grid=[dict(L=n, i=i) for n in (1, 2, 3, 4) for i in range(n)])
def _(c, L, i):
    d = c.dim('d')
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    op = c.arr('op', d, d)
    e = a.E(op, i)
    w = c.dense(a.data)
    z = expect(c, w, op, [i])
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    c.proportional('which is the same ray', w, v)
    c.eq('of unit norm', c.vdot(w, w), 1)


@contract('C06', 'E_', BL, grid=[dict(L=n, i=i) for n in (1, 2) for i in range(n)])
def _(c, L, i):
    d = c.dim('d')
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    op = c.arr('op', d, d)
    e = a.E_(op, i)
    w = c.dense(a.data)
    z = expect(c, w, op, [i])
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    c.proportional('which is the same ray', w, v)


@contract('C06', 'Es', BL, grid=[dict(L=n, i=i) for n in (1, 2) for i in range(n)])
def _(c, L, i):
    d = c.dim('d')
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    ops = [c.arr('op%d' % j, d, d) for j in range(2)]
    e = a.Es(ops, i)
    w = c.dense(a.data)
    for j in range(2):
        z = expect(c, w, ops[j], [i])
        c.eq('expectation value %d in the state it leaves' % j, e[j]*2, z+c.np.conj(z))
    c.proportional('which is the same ray', w, v)


@contract('C06', 'E_k', BL, grid=[dict(L=2, i=0, k=1), dict(L=2, i=0, k=2), dict(L=3, i=0, k=2), dict(L=3, i=1, k=2), dict(L=4, i=1, k=2), dict(L=3, i=0, k=3), dict(L=3, i=2, k=1)])
def _(c, L, i, k):
    d = c.dim('d')
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    op = c.arr('op', *[d]*(2*k))
    s = list(range(i, i+k))
    e = a.E_k(op.reshape(*[c.np.prod([d]*k)]*2) if k > 1 else op, s)
    w = c.dense(a.data)
    z = expect(c, w, op, s)
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    c.proportional('which is the same ray', w, v)
    c.eq('of unit norm', c.vdot(w, w), 1)


@contract('C06', 'E_k of a string', BL, grid=[dict(L=2, i=0, k=2), dict(L=3, i=1, k=2), dict(L=3, i=0, k=3)])
def _(c, L, i, k):
    d = c.dim('d')
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    ops = [c.arr('o%d' % j, d, d) for j in range(k)]
    s = list(range(i, i+k))
    e = a.E_k(list(ops), s, single_string=True)
    u = w = c.dense(a.data)
    for o, j in zip(ops, s):
        w = c.op(o, w, [j])
    z = c.vdot(u, w)
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    c.proportional('which is the same ray', u, v)
    c.eq('of unit norm', c.vdot(u, u), 1)


@contract('C06 C10', 'E_L', BL, grid=LS)
def _(c, L):
    d = c.dim('d')
    a = c.mps('A', L, d)
    t = c.snap(a)
    v = c.dense(a.data)
    op = c.arr('op', *[d]*(2*L))
    e = a.E_L(op)
    z = expect(c, v, op, list(range(L)))
    c.eq('expectation value of a full operator', e*2, z+c.np.conj(z))
    c.unchanged('the state is kept', t)


@contract('C06', 'rho', BL, grid=[dict(L=2, i=0, k=1), dict(L=2, i=1, k=1), dict(L=3, i=1, k=1), dict(L=2, i=0, k=2), dict(L=3, i=0, k=2), dict(L=3, i=1, k=2), dict(L=4, i=1, k=2)])
def _(c, L, i, k):
    d = c.dim('d', 2)
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    s = list(range(i, i+k))
    rest = [j for j in range(L) if j not in s]
    np = c.np
    r = a.rho(s, single_string=False)
    w = c.dense(a.data)
    want = np.tensordot(w, np.conj(w), (rest, rest))
    dk = np.prod([d]*k)
    c.shape('square', r, (dk, dk))
    c.eq('partial trace of the state it leaves', r.reshape(*[d]*(2*k)), want)
    c.proportional('which is the same ray', w, v)
    c.eq('hermitian', r, np.conj(r).T)
    c.eq('unit trace', np.trace(r), 1)


# ---------------------------------------------------------------- C07

@contract('C07 C25', 'apply', BL, grid=[dict(L=n, i=i) for n in (1, 2, 3) for i in range(n)])
def _(c, L, i):
    d = c.dim('d')
    a = c.mps('A', L, d)
    t = c.snap(a)
    v = c.dense(a.data)
    op = c.arr('op', d, d)
    b = a.apply((op, i))
    c.eq('the operator acts on that site', c.dense(b.data), c.op(op, v, [i]))
    c.unchanged('the original is kept', t)


@contract('C07', 'post_select', BL, grid=[dict(L=n, i=i, w=w) for n in (2, 3) for i in range(n) for w in (0, 1)])
def _(c, L, i, w):
    d = c.dim('d', 2)
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    b = a.post_select(i, w)
    want = v[tuple(w if j == i else slice(None) for j in range(L))]
    c.eq('the amplitude slice', c.dense(b.data), want)
    c.true('length', b.L == L-1 and len(b.data) == L-1)


@contract('C07', 'apply_two_site', 'chain length, local dimension', grid=[dict(L=n, i=i, d=d, which=w) for n, i, d in ((2, 0, 2), (3, 0, 2), (3, 1, 3), (4, 1, 2)) for w in 'lr'])
def _(c, L, i, d, which):
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    op = c.arr('op', d*d, d*d)
    b = a.apply_two_site((op, (i, i+1)), which)
    c.eq('the operator acts on the two sites', c.dense(b.data), c.op(op.reshape(d, d, d, d), v, [i, i+1]))


@contract('C07', 'apply_two_site at distance two', 'chain length, local dimension', grid=[dict(L=3, i=0, j=2, which=w) for w in 'lr'], thorough=[dict(L=4, i=1, j=3, which='l')])
def _(c, L, i, j, which):
    d = 2
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    op = c.arr('op', d*d, d*d)
    b = a.apply_two_site((op, (i, j)), which)
    c.eq('the operator acts on the two sites', c.dense(b.data), c.op(op.reshape(d, d, d, d), v, [i, j]))


@contract('C07', 'two-site split and merge', 'local dimension', grid=[dict(d=n) for n in (2, 3, 4, 5, 6)], thorough=[dict(d=n) for n in range(7, 17)], note='d enters through a search for two equal factors')
def _(c, d):
    M = c.mod('xmps.fMPS')
    D0, D1, D2 = c.dim('D0'), c.dim('D1'), c.dim('D2')
    A, B = c.arr('A', d, D0, D1), c.arr('B', d, D1, D2)
    np = c.np
    g = M.group_tensors([A, B])
    c.eq('group_tensors is the pair contraction', g.reshape(d, d, D0, D2), np.einsum('iab,jbc->ijac', A, B))
    T = c.arr('T', d*d, D0, D2)
    for f, iso in (('separate_tensor_qr', 'l'), ('separate_tensor_rq', 'r')):
        X, Y = getattr(M, f)(T)
        c.eq(f+' splits the pair', np.einsum('iab,jbc->ijac', X, Y), T.reshape(d, d, D0, D2))
        (c.left_iso if iso == 'l' else c.right_iso)(f+' leaves an isometry', X if iso == 'l' else Y)


# ---------------------------------------------------------------- C08

@contract('C08', 'add', BL, grid=LS)
def _(c, L):
    d = c.dim('d')
    a, b = c.mps('A', L, d), c.mps('B', L, d)
    t = c.snap(a, b)
    s = a.add(b)
    c.eq('sum of the state vectors', c.dense(s.data), c.dense(a.data)+c.dense(b.data))
    c.unchanged('both states are kept', t)
    for i in range(L):
        c.shape('bonds add at site %d' % i, s.data[i], (d, 1 if i == 0 else a.data[i].shape[1]+b.data[i].shape[1],
                                                       1 if i == L-1 else a.data[i].shape[2]+b.data[i].shape[2]))


@contract('C08', 'mul', BL, grid=LS)
def _(c, L):
    a = c.mps('A', L)
    t = c.snap(a)
    z = c.scalar('z')
    c.eq('scalar multiple of the state vector', c.dense(a.mul(z).data), z*c.dense(a.data))
    c.unchanged('the state is kept', t)


@contract('C08', 'elementwise arithmetic', BL, grid=LS23)
def _(c, L):
    d = c.dim('d')
    D = [1]+[c.dim('D%d' % i) for i in range(1, L)]+[1]
    a, b = c.mps('A', L, d, D), c.mps('B', L, d, D)
    t = c.snap(a, b)
    z = c.scalar('z')
    p, m, q, r, e = a+b, a-b, a*z, z*a if not c.symbolic else a.__rmul__(z), a/z
    for i in range(L):
        c.eq('+ at site %d' % i, p.data[i], a.data[i]+b.data[i])
        c.eq('- at site %d' % i, m.data[i], a.data[i]-b.data[i])
        c.eq('* at site %d' % i, q.data[i], z*a.data[i])
        c.eq('right * at site %d' % i, r.data[i], z*a.data[i])
        c.eq('/ at site %d' % i, e.data[i]*z, a.data[i])
    c.unchanged('both states are kept', t)


# ---------------------------------------------------------------- C09

@contract('C09', 'serialise and back', BL, grid=LS)
def _(c, L):
    d = c.dim('d')
    a = c.mps('A', L, d)
    F = c.mod('xmps.fMPS').fMPS
    shapes = [tuple(x.shape) for x in a.data]
    b = F().deserialize(a.serialize(), structure=shapes)
    for i in range(L):
        c.eq('site %d survives the complex vector' % i, b.data[i], a.data[i])
    b = F().deserialize(a.serialize(real=True), structure=shapes, real=True)
    for i in range(L):
        c.eq('site %d survives the real vector' % i, b.data[i], a.data[i])
    for i, s in enumerate(a.structure()):
        c.true('structure %d' % i, lambda: s[0] == a.data[i].shape[1] and s[1] == a.data[i].shape[2])


# ---------------------------------------------------------------- C10

@contract('C10', 'energy of a list of terms', BL, grid=LS2)
def _(c, L):
    d = c.dim('d')
    a = c.mps('A', L, d)
    v = c.dense(a.data)
    H = [c.arr('h%d' % i, d, d, d, d) for i in range(L-1)]
    t = c.snap(a, H)
    e = a.energy([h.reshape(d*d, d*d) for h in H])
    z = 0
    for i, h in enumerate(H):
        z = z+expect(c, v, h, [i, i+1])
    c.eq('sum of the terms per site', e*(2*L), z+c.np.conj(z))
    c.unchanged('state and terms are kept', t)


# ---------------------------------------------------------------- C24

@contract('C24', 'copy', BL, grid=LS23)
def _(c, L):
    a = c.mps('A', L)
    b = a.copy()
    for i in range(L):
        c.eq('site %d is equal' % i, b.data[i], a.data[i])
    c.true('the lists differ', b.data is not a.data)
    c.disjoint('no shared memory', a, b)


@contract('C24', 'a state made with a bond limit', BL, grid=LS23)
def _(c, L):
    """the list of tensors given, and the tensors in it, stay as they are"""
    given = c.mps('A', L).data
    keep = list(given)
    t = c.snap(keep)
    c.same_ray(c.mod('xmps.fMPS').fMPS, 'right_canonicalise')
    m = c.mod('xmps.fMPS').fMPS(given, D=2)
    c.true('the list is kept', len(given) == L and all(x is y for x, y in zip(given, keep)))
    c.unchanged('the tensors are kept', t)


@contract('C24', 'queries keep their arguments', BL, grid=LS23)
def _(c, L):
    d = c.dim('d')
    a, b = c.mps('A', L, d), c.mps('B', L, d)
    op = c.arr('op', d, d)
    H = [c.arr('h%d' % i, d*d, d*d) for i in range(L-1)]
    t = c.snap(a, b, op, H)
    a.overlap(b)
    a.norm()
    a.energy(H)
    a.apply((op, 0))
    a.add(b)
    a.mul(2.0)
    a.serialize()
    a.structure()
    a.get_envs()
    c.unchanged('states, operators and terms are kept', t)
    v = c.dense(a.data)
    a.E(op, 0)
    w = c.dense(a.data)
    c.proportional('an expectation value keeps the ray', w, v)
