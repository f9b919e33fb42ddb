"""Contracts for chains of any length: the loops of the real code are cut by invariants."""
from api import contract


@contract('C01', 'left_orthogonalise of any length')
def _(c):
    L = c.length('L')
    F = c.mod('xmps.fMPS').fMPS
    m = F(c.chain('A', L, c.dim('d')))
    old = c.listcopy(m.data)
    c.loops(c.inv('Sweep', m, 'l'))
    r = m.left_orthogonalise()
    c.eq('state times recorded norm is the old state', c.whole(m.data)*m.norm_[0, 0], c.whole(old))
    c.each_iso('every site is a left isometry', m.data, 0, L, 'l')
    w = c.whole(m.data)
    c.eq('unit norm', c.vdot(w, w), 1)
    c.true('returns itself', r is m)


@contract('C01', 'right_orthogonalise of any length')
def _(c):
    L = c.length('L')
    F = c.mod('xmps.fMPS').fMPS
    m = F(c.chain('A', L, c.dim('d')))
    old = c.listcopy(m.data)
    c.loops(c.inv('Sweep', m, 'r'))
    r = m.right_orthogonalise()
    c.eq('state times recorded norm is the old state', c.whole(m.data)*m.norm_[0, 0], c.whole(old))
    c.each_iso('every site is a right isometry', m.data, 0, L, 'r')
    w = c.whole(m.data)
    c.eq('unit norm', c.vdot(w, w), 1)
    c.true('returns itself', r is m)


@contract('C01', 'partial left sweep of any length')
def _(c):
    L = c.length('L', 2)
    F = c.mod('xmps.fMPS').fMPS
    m = F(c.chain('A', L, c.dim('d')))
    old = c.listcopy(m.data)
    fr = c.index('fr', 0, L-1)
    to = c.index('to', fr, L)
    c.loops(c.inv('Sweep', m, 'l'))
    r = m.left_orthogonalise(fr=fr, to=to)
    c.eq('the state is kept', c.span(m.data, fr, to+1), c.span(old, fr, to+1))
    c.untouched('sites outside the range are untouched', m.data, old, fr, to+1)
    c.each_iso('every site of the range is a left isometry', m.data, fr, to, 'l')
    c.true('returns itself', r is m)
    c.true('no centre is claimed', m.oc is None and not m.orthogonal and not m.canonical)


@contract('C01', 'partial right sweep of any length')
def _(c):
    L = c.length('L', 2)
    F = c.mod('xmps.fMPS').fMPS
    m = F(c.chain('A', L, c.dim('d')))
    old = c.listcopy(m.data)
    fr = c.index('fr', 1, L)
    to = c.index('to', fr, L+1)
    c.loops(c.inv('Sweep', m, 'r'))
    r = m.right_orthogonalise(fr=fr, to=to)
    c.eq('the state is kept', c.span(m.data, fr-1, to), c.span(old, fr-1, to))
    c.untouched('sites outside the range are untouched', m.data, old, fr-1, to)
    c.each_iso('every site of the range is a right isometry', m.data, fr, to, 'r')
    c.true('returns itself', r is m)
    c.true('no centre is claimed', m.oc is None and not m.orthogonal and not m.canonical)


@contract('C01', 'mixed_orthogonalise of any length')
def _(c):
    L = c.length('L')
    F = c.mod('xmps.fMPS').fMPS
    m = F(c.chain('A', L, c.dim('d')))
    old = c.listcopy(m.data)
    oc = c.index('oc', 0, L)
    c.loops(c.inv('Sweep', m, 'r'), c.inv('Sweep', m, 'l'))
    r = m.mixed_orthogonalise(oc)
    c.eq('state times recorded norm is the old state', c.whole(m.data)*m.norm_, c.whole(old))
    c.each_iso('sites before the centre are left isometries', m.data, 0, oc, 'l')
    c.each_iso('sites after the centre are right isometries', m.data, oc+1, L, 'r')
    c.eq('unit centre', c.vdot(m.data[oc], m.data[oc]), 1)
    w = c.whole(m.data)
    c.eq('unit norm', c.vdot(w, w), 1)
    c.true('returns itself', r is m)
    c.true('the centre is recorded', c.same(m.oc, oc) and m.orthogonal)


# ---------------------------------------------------------------- C05

def join(np, *ts):
    """(left, block, right) tensors one after the other"""
    r = ts[0]
    for t in ts[1:]:
        x = np.tensordot(r, t, ([2], [0]))
        r = x.reshape(x.shape[0], x.shape[1]*x.shape[2], x.shape[3])
    return r


@contract('C05', 'overlap of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    F = c.mod('xmps.fMPS').fMPS
    a, b = F(c.chain('A', L, d)), F(c.chain('B', L, d))
    np = c.np
    u, v = c.listcopy(a.data), c.listcopy(b.data)
    c.loops(c.inv('Fold', lambda k: np.tensordot(c.span(u, 0, k), np.conj(c.span(v, 0, k)), ([0, 1], [0, 1]))))
    o = a.overlap(b)
    c.eq('inner product of the state vectors', o, c.vdot(c.whole(v), c.whole(u)))
    c.untouched('left state is kept', a.data, u, 0, 0)
    c.untouched('right state is kept', b.data, v, 0, 0)


@contract('C05', 'norm of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    a = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    np = c.np
    u = c.listcopy(a.data)
    c.loops(c.inv('Fold', lambda k: np.tensordot(c.span(u, 0, k), np.conj(c.span(u, 0, k)), ([0, 1], [0, 1]))))
    c.eq('squared length', a.norm(), c.vdot(c.whole(u), c.whole(u)))
    c.untouched('the state is kept', a.data, u, 0, 0)


# ---------------------------------------------------------------- C06

def with_op(c, seq, i, op):
    s = c.listcopy(seq)
    s[i] = c.np.tensordot(op, s[i], ([1], [0]))
    return c.whole(s)


@contract('C06', 'E at any site of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    old = c.listcopy(m.data)
    i = c.index('i', 0, L)
    op = c.arr('op', d, d)
    c.loops(c.inv('Sweep', m, 'r'), c.inv('Sweep', m, 'l'))
    e = m.E(op, i)
    w = c.whole(m.data)
    z = c.vdot(w, with_op(c, m.data, i, op))
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    c.eq('which is the same ray', w*m.norm_, c.whole(old))
    c.eq('of unit norm', c.vdot(w, w), 1)


# ---------------------------------------------------------------- C07

@contract('C07 C25', 'apply at any site of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    a = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    old = c.listcopy(a.data)
    i = c.index('i', 0, L)
    op = c.arr('op', d, d)
    b = a.apply((op, i))
    c.eq('the operator acts on the site', c.whole(b.data), with_op(c, old, i, op))
    c.untouched('the state is kept', a.data, old, 0, 0)


@contract('C07', 'post_select at any site of any length', grid=[dict(w=0), dict(w=1)])
def _(c, w):
    L, d = c.length('L', 2), c.dim('d', 2)
    a = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    old = c.listcopy(a.data)
    i = c.index('i', 0, L)
    b = a.post_select(i, w)
    s = c.listcopy(old)
    c.eq('the amplitude slice', c.whole(b.data), join(c.np, c.span(s, 0, i), s[i][w:w+1].transpose(1, 0, 2), c.span(s, i+1, L)))
    c.true('length', c.same(b.L, L-1))


@contract('C07', 'apply_two_site anywhere, any length', 'local dimension, distance', grid=[dict(d=n, k=1, which=w) for n in (2, 3) for w in 'lr']+[dict(d=2, k=2, which=w) for w in 'lr'])
def _(c, d, k, which):
    np = c.np
    L = c.length('L', 1+k)
    a = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    old = c.listcopy(a.data)
    i = c.index('i', 0, L-k)
    op = c.arr('op', d*d, d*d)
    b = a.apply_two_site((op, (i, i+k)), which)
    mid = c.open([old[i+j] for j in range(k+1)])
    new = c.op(op.reshape(d, d, d, d), mid, [1, 1+k])
    new = new.reshape(new.shape[0], d**(k+1), new.shape[k+2])
    got = c.span(b.data, i, i+k+1)
    c.eq('the operator acts on the two sites', got, new)
    c.untouched('other sites are untouched', b.data, old, i, i+k+1)


# ---------------------------------------------------------------- C08

def stack(c, L, u, v):
    """blocks of the sum of two chains"""
    np = c.np

    def at(i):
        A, B = u[i], v[i]
        if i == 0:
            return np.concatenate([A, B], 2)
        if i == L-1:
            return np.concatenate([A, B], 1)
        Z = lambda x, y: np.zeros((A.shape[0], x.shape[1], y.shape[2]))
        return np.concatenate([np.concatenate([A, Z(A, B)], 2), np.concatenate([Z(B, A), B], 2)], 1)
    return at


@contract('C08', 'add of any length')
def _(c):
    np = c.np
    L, d = c.length('L', 2), c.dim('d')
    F = c.mod('xmps.fMPS').fMPS
    a, b = F(c.chain('A', L, d)), F(c.chain('B', L, d))
    u, v = c.listcopy(a.data), c.listcopy(b.data)
    c.loops(c.inv('Build', stack(c, L, u, v)))
    s = a.add(b)
    c.true('length', c.same(s.L, L))
    # the sum of the products, by induction over the site
    k = c.index('k', 0, L)
    if k == 0:
        c.eq('first site', s.data[0], np.concatenate([u[0], v[0]], 2))
    else:
        P, Q = c.span(u, 0, k), c.span(v, 0, k)
        acc = np.tensordot(np.concatenate([P, Q], 2), s.data[k], ([2], [1]))
        X, Y = np.tensordot(P, u[k], ([2], [1])), np.tensordot(Q, v[k], ([2], [1]))
        if k == L-1:
            c.eq('last site closes the sum', acc, X+Y)
        else:
            c.eq('arbitrary inner site carries both', acc, np.concatenate([X, Y], 3))
    c.untouched('left state is kept', a.data, u, 0, 0)
    c.untouched('right state is kept', b.data, v, 0, 0)


@contract('C08', 'mul of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    a = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    u = c.listcopy(a.data)
    z = c.scalar('z')
    b = a.mul(z)
    c.true('length', c.same(b.L, L))
    k = c.index('k', 0, L)
    if k == 0:
        c.eq('the first site is scaled', b.data[0], z*u[0])
    else:
        c.eq('every other site is kept', b.data[k], u[k])
    c.untouched('the state is kept', a.data, u, 0, 0)


# ---------------------------------------------------------------- C10

def left_env(c, u, k):
    """environment of the sites [0, k): (bra, ket)"""
    x = c.span(u, 0, k)
    return c.np.tensordot(c.np.conj(x), x, ([0, 1], [0, 1]))


def right_env(c, u, k):
    """environment of the sites [k, end): (ket, bra)"""
    x = c.span(u, k, c.len(u))
    return c.np.tensordot(x, c.np.conj(x), ([1, 2], [1, 2]))


def with_op2(c, seq, i, h):
    """the state vector with h, indexed (out, out, in, in), acting on sites i, i+1"""
    np = c.np
    mid = c.open([seq[i], seq[i+1]])
    mid = c.op(h, mid, [1, 2])
    mid = mid.reshape(mid.shape[0], mid.shape[1]*mid.shape[2], mid.shape[3])
    return join(np, c.span(seq, 0, i), mid, c.span(seq, i+2, c.len(seq)))


@contract('C10', 'energy of any length')
def _(c):
    np = c.np
    L, d = c.length('L', 2), c.dim('d')
    a = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    u = c.listcopy(a.data)
    H = c.family('h', L-1, (d, d), (d, d))

    def term(i):
        w = with_op2(c, u, i, H[i].reshape(d, d, d, d))
        return c.vdot(c.whole(u), w)

    c.loops(c.inv('Lists', lambda k: left_env(c, u, k), lambda k: right_env(c, u, L-k), what='environments'),
            c.inv('Lists', term, what='terms'))
    e = a.energy(H)
    z = c.total('every term is the expectation value of its hamiltonian', L-1, term)
    c.eq('sum of the terms per site', e*(2*L), z+np.conj(z))
    c.untouched('the state is kept', a.data, u, 0, 0)


# ---------------------------------------------------------------- C02

def parallel(c, name, w, v):
    """v is a multiple of w"""
    c.eq(name, w*c.vdot(w, v), v*c.vdot(w, w))


def canon(hand, norm):
    def f(c):
        L = c.length('L')
        m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, c.dim('d')))
        old = c.listcopy(m.data)
        c.loops(c.inv('Sweep', m, hand[0], norm))
        r = getattr(m, hand+'_canonicalise')(sweep_back=False)
        w = c.whole(m.data)
        parallel(c, 'ray kept', w, c.whole(old))
        c.each_iso('every site is an isometry', m.data, 0, L, hand[0])
        c.eq('unit norm', c.vdot(w, w), 1)
        c.true('returns itself', r is m)
    return f


contract('C02', 'left_canonicalise without sweeping back, any length')(canon('left', 'norm_'))
contract('C02', 'right_canonicalise without sweeping back, any length')(canon('right', None))


@contract('C02', 'mixed_canonicalise, any length', grid=[dict(sweep_back=False), dict(sweep_back=True)])
def _(c, sweep_back):
    L = c.length('L')
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, c.dim('d')))
    old = c.listcopy(m.data)
    oc = c.index('oc', 0, L)
    mid = []
    c.loops(c.inv('Sweep', m, 'r', None, fresh=mid), c.inv('Sweep', m, 'l', None))
    r = m.mixed_canonicalise(oc, sweep_back=sweep_back)
    w = c.whole(m.data)
    # the first sweep keeps the ray (its invariant), the second one the state it finds
    parallel(c, 'ray kept', w, c.whole(mid[0] if mid else old))
    c.each_iso('sites before the centre are left isometries', m.data, 0, oc, 'l')
    c.each_iso('sites after the centre are right isometries', m.data, oc+1, L, 'r')
    c.eq('unit centre', c.vdot(m.data[oc], m.data[oc]), 1)
    c.true('returns itself', r is m)


def spectra(hand):
    def f(c):
        """full-rank states: no environment has a zero eigenvalue"""
        np = c.np
        F = c.mod('xmps.fMPS')
        c.replace(F, 'rank', lambda M: M.shape[0])
        c.precondition('the environments have full rank')
        L = c.length('L')
        m = F.fMPS(c.chain('A', L, c.dim('d')))
        old = c.listcopy(m.data)
        mid = []
        h = hand[0]
        c.loops(c.inv('Sweep', m, h, 'norm_' if h == 'l' else None, fresh=mid), c.inv('Spectra', m, h), c.inv('Same', m))
        r = getattr(m, hand+'_canonicalise')()
        c.true('returns itself', r is m)
        w = c.whole(m.data)
        # the first sweep keeps the ray (its invariant); the rest keeps the state it leaves
        parallel(c, 'ray kept', w, c.whole(mid[0] if mid else old))
        c.eq('unit norm', c.vdot(w, w), 1)
        c.true('one spectrum per bond', c.same(c.len(m.Ls), L+1))
        k = c.index('bond', 0, L+1)
        k == 0 or k == 1 or k == L      # paths of their own
        e = left_env(c, m.data, k) if h == 'r' else right_env(c, m.data, k)
        s = m.Ls[k]
        c.eq('environment at any bond is the recorded spectrum', e, s)
        c.eq('spectrum is diagonal', s, np.diag(np.diag(s)))
        c.eq('spectrum sums to one', np.trace(s), 1)
        c.descending('spectrum descends', np.diag(s))
        i = c.index('site', 0, L)
        (c.left_iso if h == 'l' else c.right_iso)('every site is an isometry', m.data[i])
    return f


contract('C02 C23', 'left_canonicalise with spectra, any length')(spectra('left'))
contract('C02 C23', 'right_canonicalise with spectra, any length')(spectra('right'))


# ---------------------------------------------------------------- C06 (continued)

@contract('C06', 'E_ at any site of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    old = c.listcopy(m.data)
    i = c.index('i', 0, L)
    op = c.arr('op', d, d)
    mid = []
    c.loops(c.inv('Sweep', m, 'r', None, fresh=mid), c.inv('Sweep', m, 'l', None))
    e = m.E_(op, i)
    w = c.whole(m.data)
    z = c.vdot(w, with_op(c, m.data, i, op))
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    parallel(c, 'which is the same ray', w, c.whole(mid[0] if mid else old))
    c.eq('of unit norm', c.vdot(w, w), 1)


@contract('C06', 'Es at any site of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    i = c.index('i', 0, L)
    ops = [c.arr('op%d' % j, d, d) for j in range(2)]
    c.loops(c.inv('Sweep', m, 'r', None, fresh=[]), c.inv('Sweep', m, 'l', None))
    e = m.Es(ops, i)
    w = c.whole(m.data)
    for j in range(2):
        z = c.vdot(w, with_op(c, m.data, i, ops[j]))
        c.eq('expectation value %d in the state it leaves' % j, e[j]*2, z+c.np.conj(z))


def block_op(c, seq, i, k, ops):
    """the state vector with an operator, indexed (outs, ins), acting on the sites i .. i+k-1"""
    np = c.np
    mid = c.open([seq[i+j] for j in range(k)])
    mid = c.op(ops, mid, list(range(1, k+1)))
    n = 1
    for j in range(k):
        n = n*mid.shape[1+j]
    mid = mid.reshape(mid.shape[0], n, mid.shape[k+1])
    return join(np, c.span(seq, 0, i), mid, c.span(seq, i+k, c.len(seq)))


@contract('C06', 'E_k anywhere, any length', 'number of sites of the operator', grid=[dict(k=1), dict(k=2), dict(k=3)])
def _(c, k):
    L, d = c.length('L', k), c.dim('d')
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    old = c.listcopy(m.data)
    i = c.index('i', 0, L-k+1)
    op = c.arr('op', *[d]*(2*k))
    c.loops(c.inv('Sweep', m, 'r', tail=k), c.inv('Sweep', m, 'l'))
    e = m.E_k(op.reshape(*[c.np.prod([d]*k)]*2) if k > 1 else op, [i+j for j in range(k)])
    w = c.whole(m.data)
    z = c.vdot(w, block_op(c, m.data, i, k, op))
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    c.eq('which is the same ray', w*m.norm_, c.whole(old))
    c.eq('of unit norm', c.vdot(w, w), 1)


@contract('C06', 'rho anywhere, any length', 'number of sites kept', grid=[dict(k=1), dict(k=2)])
def _(c, k):
    np = c.np
    L, d = c.length('L', k), c.dim('d', 2)
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    old = c.listcopy(m.data)
    i = c.index('i', 0, L-k+1)
    c.loops(c.inv('Sweep', m, 'r', tail=k), c.inv('Sweep', m, 'l'))
    r = m.rho([i+j for j in range(k)], single_string=False)
    mid = c.open([m.data[i+j] for j in range(k)])
    lo, hi = c.span(m.data, 0, i), c.span(m.data, i+k, L)
    x = np.tensordot(np.tensordot(lo, mid, ([2], [0])), hi, ([2+k], [0]))      # 1, left, d.., right, 1
    ax = [0, 1, 2+k, 3+k]
    dk = np.prod([d]*k)
    c.eq('partial trace of the state it leaves', r.reshape(*[d]*(2*k)), np.tensordot(x, np.conj(x), (ax, ax)))
    w = c.whole(m.data)
    c.eq('which is the same ray', w*m.norm_, c.whole(old))
    c.eq('hermitian', r, np.conj(r).T)
    c.eq('unit trace', np.trace(r), 1)


# ---------------------------------------------------------------- C11

def right_env_of(c, u, k, L):
    """environment of the sites [k, L): (ket, bra)"""
    x = c.span(u, k, L)
    return c.np.tensordot(x, c.np.conj(x), ([1, 2], [1, 2]))


@contract('C11', 'get_envs of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, d))
    u = c.listcopy(m.data)
    c.loops_in(get_l=lambda: c.inv('Lists', lambda k: left_env(c, u, k), what='left environments'),
               get_r=lambda: c.inv('Lists', lambda k: right_env(c, u, L-k), what='right environments'))
    l, r = m.get_envs()
    k = c.index('k', 0, L+1)
    c.eq('left environment at any bond', l(k-1), left_env(c, u, k))
    c.eq('right environment at any bond', r(k-1), right_env(c, u, k))
    c.untouched('the state is kept', m.data, u, 0, 0)


def pair_op(c, h, A, B):
    """h, indexed (out, out, in, in), on two neighbouring tensors: (left, s, t, right)"""
    return c.op(h, c.open([A, B]), [1, 2])


def gradient(c, u, L, h, m, i):
    """derivative of <psi|h_m|psi> by the conjugate of site i"""
    np = c.np
    e, f = left_env(c, u, i), right_env_of(c, u, i+1, L)

    def run(lo, hi):
        """[lo, hi) with h at m inside"""
        mid = pair_op(c, h, u[m], u[m+1])
        mid = mid.reshape(mid.shape[0], mid.shape[1]*mid.shape[2], mid.shape[3])
        return join(np, c.span(u, lo, m), mid, c.span(u, m+2, hi))
    if m > i:
        x = run(i+1, L)
        g = np.tensordot(x, np.conj(c.span(u, i+1, L)), ([1, 2], [1, 2]))
        return np.einsum('xy,syb,bc->sxc', e, u[i], g)
    if m == i:
        g = right_env_of(c, u, i+2, L)
        mid = pair_op(c, h, u[i], u[i+1])
        return np.einsum('xy,ystb,tzw,bw->sxz', e, mid, np.conj(u[i+1]), g)
    if m == i-1:
        g = left_env(c, u, i-1)
        mid = pair_op(c, h, u[i-1], u[i])
        return np.einsum('xy,ystb,sxz,bc->tzc', g, mid, np.conj(u[i-1]), f)
    x = run(0, i)
    g = np.tensordot(np.conj(c.span(u, 0, i)), x, ([0, 1], [0, 1]))
    return np.einsum('xy,syb,bc->sxc', g, u[i], f)


@contract('C11', 'dA_dt at any site of any length', 'where the site is', grid=[dict(at=a) for a in ('first', 'second', 'inside', 'last')])
def _(c, at):
    """each term of the Hamiltonian enters the tensor of the derivative with -i times its projected gradient"""
    np = c.np
    c.precondition('the state has full rank: every left environment is positive definite')
    if c.symbolic:
        c.c.flags['full_rank_null'] = True
    L, d = c.length('L', dict(first=2, second=3, inside=4, last=2)[at]), c.dim('d', 2)
    F = c.mod('xmps.fMPS').fMPS
    m = F(c.chain('A', L, d, standard=True))
    u = c.listcopy(m.data)
    H = c.family('h', L-1, (d, d), (d, d))
    l, r = (lambda n: left_env(c, u, n+1)), (lambda n: right_env_of(c, u, n+1, L))

    def envs(self, store_envs=False):
        self.l, self.r = l, r
        return l, r
    c.replace(F, 'get_envs', envs)      # its contract: get_envs of any length
    known, make = [], F.left_null_projector

    def projector(self, n, l=None, get_vL=False):       # a function of the site
        for k, x in known:
            if c.same(k, n):
                return x if get_vL else x[0]
        known.append((n, make(self, n, l, get_vL=True)))
        c.zero('what is projected is in the left gauge', np.einsum('sac,ab,sbtd->ctd', np.conj(u[n]), l(n-1), known[-1][1][0]), 1)
        return known[-1][1] if get_vL else known[-1][1][0]
    c.replace(F, 'left_null_projector', projector)

    def term(c, entry, k, inc):
        i = entry['i']
        pr = m.left_null_projector(i, l)
        G = gradient(c, u, L, H[k].reshape(d, d, d, d), k, i)
        c.eq('a term contributes its projected gradient', np.einsum('sab,bc->sac', inc, r(i)), -1j*np.einsum('satb,tbc->sac', pr, G))

    def transfer(k, entry):
        i = entry['i']
        x = c.span(u, i-k, i)
        y = np.tensordot(np.conj(x), entry['op'], ([2], [1]))
        return np.tensordot(x, y, ([1, 2], [1, 2]))
    c.loops_in(B=lambda: c.inv('Accum', term), lt_=lambda: c.inv('Lists', transfer, what='transferred projector'))
    B = m.dA_dt(H)
    i = c.index('i', 2, L-1) if at == 'inside' else dict(first=0, second=1, last=L-1)[at]
    b = B.data[i]
    pr = m.left_null_projector(i, l)
    c.accumulated('the tensor returned is what was accumulated', b, lambda b: np.einsum('sab,bc->sac', b, r(i)), L-1,
                  lambda k: -1j*np.einsum('satb,tbc->sac', pr, gradient(c, u, L, H[k].reshape(d, d, d, d), k, i)))
    c.untouched('the state is kept', m.data, u, 0, 0)


# ---------------------------------------------------------------- C24: copies

@contract('C24', 'copy of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    F = c.mod('xmps.fMPS').fMPS
    a = F(c.chain('A', L, d))
    old = c.listcopy(a.data)
    b = a.copy()
    i = c.index('i', 0, L)
    c.eq('every site is equal', b.data[i], a.data[i])
    c.true('of the same length', c.same(c.len(b.data), L))
    c.disjoint('no site shares memory', [b.data[i]], [a.data[i]])
    b.data[i] = c.arr('X', *a.data[i].shape)
    c.untouched('replacing a site of the copy is not visible', a.data, old, 0, 0)


# ---------------------------------------------------------------- C25: what a state remembers about itself is true, after any history
#
# Class invariant of fMPS: a remembered centre k means left isometries before site k, right isometries after it and unit norm
# (k = L: all sites are left isometries); a state that claims a canonical or orthogonal form remembers a centre.  Every operation
# is started from an arbitrary state satisfying it and has to leave and return states satisfying it; queries may rely on it.  By
# induction the answers are those of the state vector after every history.

def remembering(c, L, d, form, name='A', true=True):
    """an arbitrary state satisfying the class invariant (true=False: the proof may not use what it claims)"""
    F = c.mod('xmps.fMPS').fMPS
    if form == 'claimed':
        form, true = 'canonical', False
    if form in ('orthogonal', 'canonical'):
        k = c.index('k'+name, 0, L)
        m = F(c.centred(name, L, d, k) if true or not c.symbolic else c.chain(name, L, d))
        m.oc, m.orthogonal, m.canonical = k, True, form == 'canonical'
    elif form == 'left':
        m = F(c.isochain(name, L, d, 'l'))
        m.oc, m.orthogonal, m.canonical = L, True, True
    else:
        m = F(c.chain(name, L, d))
        if form == 'forgotten':
            m.oc = None
    return m


def truthful(c, m, L, what=''):
    """the class invariant holds of m"""
    k = getattr(m, 'oc', None)
    c.true(what+'a form is claimed only with a centre', not (m.canonical or m.orthogonal) or k is not None)
    if k is None:
        return
    c.true(what+'the centre is in the chain', 0 <= k and k <= L)
    c.each_iso(what+'left isometries before the remembered centre', m.data, 0, k, 'l')
    if k < L:
        c.each_iso(what+'right isometries after the remembered centre', m.data, k+1, L, 'r')
    w = c.whole(m.data)
    c.eq(what+'unit norm with a remembered centre', c.vdot(w, w), 1)


def at_site(c, m, L, where, k=1):
    """first of k neighbouring sites, placed relative to the remembered centre"""
    if where == 'centre':
        j = c.index('j', 0, k)
        i = m.oc-j
        c.atmost(0, i)
        c.atmost(i+k, L)
        return i
    return c.index('i', 0, m.oc-k+1) if where == 'before' else c.index('i', m.oc+1, L-k+1) if where == 'after' else c.index('i', 0, L-k+1)


PLACES = ('before', 'centre', 'after')


@contract('C25', 'E of a remembering state, any length', 'what is remembered, where the site is',
          grid=[dict(form=f, where=w) for f, w in [('plain', ''), ('left', '')]+[('canonical', p) for p in PLACES]+[('orthogonal', 'centre')]])
def _(c, form, where):
    L, d = c.length('L'), c.dim('d')
    m = remembering(c, L, d, form, true=where not in ('before', 'after'))       # elsewhere nothing it claims is needed
    old = c.listcopy(m.data)
    i = at_site(c, m, L, where)
    op = c.arr('op', d, d)
    c.loops(c.inv('Sweep', m, 'r'), c.inv('Sweep', m, 'l'))
    e = m.E(op, i)
    w = c.whole(m.data)
    z = c.vdot(w, with_op(c, m.data, i, op))
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    parallel(c, 'which is the same ray', w, c.whole(old))
    c.eq('of unit norm', c.vdot(w, w), 1)
    truthful(c, m, L)


@contract('C25', 'E_k of a remembering state, any length', 'what is remembered, number of sites, where they are',
          grid=[dict(form='left', k=2, where='')]+[dict(form='orthogonal', k=k, where=p) for k in (1, 2) for p in PLACES if k == 2 or p == 'centre'], thorough=[dict(form='left', k=1, where='')])
def _(c, form, k, where):
    L, d = c.length('L', k), c.dim('d')
    m = remembering(c, L, d, form, true=where not in ('before', 'after'))       # elsewhere nothing it claims is needed
    old = c.listcopy(m.data)
    i = at_site(c, m, L, where, k)
    op = c.arr('op', *[d]*(2*k))
    c.loops(c.inv('Sweep', m, 'r', tail=k), c.inv('Sweep', m, 'l'))
    e = m.E_k(op.reshape(*[c.np.prod([d]*k)]*2) if k > 1 else op, [i+j for j in range(k)])
    w = c.whole(m.data)
    z = c.vdot(w, block_op(c, m.data, i, k, op))
    c.eq('expectation value in the state it leaves', e*2, z+c.np.conj(z))
    parallel(c, 'which is the same ray', w, c.whole(old))
    c.eq('of unit norm', c.vdot(w, w), 1)
    truthful(c, m, L)


@contract('C25', 'rho of a remembering state, any length', 'what is remembered, number of sites, where they are',
          grid=[dict(form=f, k=k, where='') for f, k in (('left', 1), ('forgotten', 2))]+[dict(form='orthogonal', k=k, where=p) for k in (1, 2) for p in PLACES if k == 2 or p == 'centre'],
          thorough=[dict(form='forgotten', k=1, where=''), dict(form='left', k=2, where='')]+[dict(form='orthogonal', k=1, where=p) for p in ('before', 'after')])
def _(c, form, k, where):
    np = c.np
    L, d = c.length('L', k), c.dim('d', 2)
    m = remembering(c, L, d, form, true=where not in ('before', 'after'))       # elsewhere nothing it claims is needed
    old = c.listcopy(m.data)
    i = at_site(c, m, L, where, k)
    c.loops(c.inv('Sweep', m, 'r', tail=k), c.inv('Sweep', m, 'l'))
    r = m.rho([i+j for j in range(k)], single_string=False)
    mid = c.open([m.data[i+j] for j in range(k)])
    lo, hi = c.span(m.data, 0, i), c.span(m.data, i+k, L)
    x = np.tensordot(np.tensordot(lo, mid, ([2], [0])), hi, ([2+k], [0]))      # 1, left, d.., right, 1
    ax = [0, 1, 2+k, 3+k]
    c.eq('partial trace of the state it leaves', r.reshape(*[d]*(2*k)), np.tensordot(x, np.conj(x), (ax, ax)))
    w = c.whole(m.data)
    parallel(c, 'which is the same ray', w, c.whole(old))
    c.eq('unit trace', np.trace(r), 1)
    truthful(c, m, L)


def remembered_after(name, lo=1, forms=('plain', 'canonical', 'left'), d=None):
    def dec(f):
        @contract('C25', 'what is remembered after %s, any length' % name, 'what was remembered', grid=[dict(form=x) for x in forms])
        def _(c, form):
            L, dd = c.length('L', lo), c.dim('d') if d is None else d
            m = remembering(c, L, dd, form)
            r = f(c, m, L, dd)
            truthful(c, m, c.len(m.data))
            if r is not m and r is not None:
                truthful(c, r, c.len(r.data), 'returned: ')
    return dec


@remembered_after('a site is assigned')
def _(c, m, L, d):
    i = c.index('i', 0, L)
    s = m[i]
    m[i] = c.arr('X', *s.shape)


@remembered_after('apply')
def _(c, m, L, d):
    return m.apply((c.arr('op', d, d), c.index('i', 0, L)))


@remembered_after('apply_two_site', 2, d=2)
def _(c, m, L, d):
    i = c.index('i', 0, L-1)
    return m.apply_two_site((c.arr('op', d*d, d*d), (i, i+1)), 'r')


@remembered_after('post_select', 2)
def _(c, m, L, d):
    return m.post_select(c.index('i', 0, L), 0)


@remembered_after('mul')
def _(c, m, L, d):
    return m.mul(c.scalar('z'))


@remembered_after('scaling every site')
def _(c, m, L, d):
    return m*c.scalar('z')


@remembered_after('add', 2)
def _(c, m, L, d):
    o = remembering(c, L, d, 'plain', 'B')
    c.loops(c.inv('Build', stack(c, L, c.listcopy(m.data), c.listcopy(o.data))))
    return m.add(o)


@remembered_after('an elementwise sum')
def _(c, m, L, d):
    return m+m


@remembered_after('copy')
def _(c, m, L, d):
    return m.copy()


@remembered_after('append')
def _(c, m, L, d):
    return m.append(c.arr('X', d, 1, 1))


@remembered_after('overlap', forms=('canonical', 'left'))
def _(c, m, L, d):
    np = c.np
    o = remembering(c, L, d, 'left', 'B')
    u, v = c.listcopy(m.data), c.listcopy(o.data)
    c.loops(c.inv('Fold', lambda k: np.tensordot(c.span(u, 0, k), np.conj(c.span(v, 0, k)), ([0, 1], [0, 1]))))
    m.overlap(o)
    return o


def _sweeping(name, hands, call, **kw):
    @remembered_after(name, **kw)
    def _(c, m, L, d):
        c.loops(*[c.inv('Sweep', m, h, n) for h, n in hands])
        call(c, m, L)


_sweeping('left_orthogonalise', [('l', 'norm_')], lambda c, m, L: m.left_orthogonalise())
_sweeping('right_orthogonalise', [('r', 'norm_')], lambda c, m, L: m.right_orthogonalise())
_sweeping('a partial left sweep', [('l', 'norm_')], lambda c, m, L: m.left_orthogonalise(to=c.index('to', 1, L)), lo=2)
_sweeping('a partial right sweep', [('r', 'norm_')], lambda c, m, L: m.right_orthogonalise(fr=c.index('fr', 1, L)), lo=2)
_sweeping('mixed_orthogonalise', [('r', 'norm_'), ('l', 'norm_')], lambda c, m, L: m.mixed_orthogonalise(c.index('i', 0, L)), forms=('plain', 'claimed', 'left'))
_sweeping('left_canonicalise without sweeping back', [('l', 'norm_')], lambda c, m, L: m.left_canonicalise(sweep_back=False))
_sweeping('right_canonicalise without sweeping back', [('r', None)], lambda c, m, L: m.right_canonicalise(sweep_back=False))


# ---------------------------------------------------------------- C08: joining, itemwise arithmetic, equality

@contract('C08', 'append of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    F = c.mod('xmps.fMPS').fMPS
    a = F(c.chain('A', L, d))
    u = c.listcopy(a.data)
    t = c.arr('T', d, 1, 1)
    b = a.append(t)
    c.true('one site longer', c.same(b.L, L+1) and c.same(c.len(b.data), L+1))
    k = c.index('k', 0, L)
    c.eq('the sites come first', b.data[k], u[k])
    c.eq('then the new one', b.data[L], t)
    c.untouched('the state is kept', a.data, u, 0, 0)


@contract('C08', 'extend of any length')
def _(c):
    L, M, d = c.length('L'), c.length('M'), c.dim('d')
    F = c.mod('xmps.fMPS').fMPS
    a, b = F(c.chain('A', L, d)), F(c.chain('B', M, d))
    u, v = c.listcopy(a.data), c.listcopy(b.data)
    e = a.extend(b)
    c.true('length', c.same(e.L, L+M) and c.same(c.len(e.data), L+M))
    k, n = c.index('k', 0, L), c.index('n', 0, M)
    c.eq('the sites of the first', e.data[k], u[k])
    c.eq('then those of the second', e.data[L+n], v[n])
    c.untouched('left state is kept', a.data, u, 0, 0)
    c.untouched('right state is kept', b.data, v, 0, 0)


@contract('C08', 'itemwise arithmetic of any length')
def _(c):
    L, d, D = c.length('L'), c.dim('d'), c.dim('D')
    F = c.mod('xmps.fMPS').fMPS
    a, b = F(c.family('A', L, d, D, D)), F(c.family('B', L, d, D, D))
    u, v = c.listcopy(a.data), c.listcopy(b.data)
    z = c.scalar('z')
    c.precondition('the number divided by is not zero')
    k = c.index('k', 0, L)
    for name, r, want in (('sum', a+b, u[k]+v[k]), ('difference', a-b, u[k]-v[k]), ('multiple', a*z, z*u[k]), ('multiple from the left', a.__rmul__(z), z*u[k])):
        c.true(name+': length', c.same(r.L, L) and c.same(c.len(r.data), L))
        c.eq(name+': any site', r.data[k], want)
    c.untouched('left state is kept', a.data, u, 0, 0)
    c.untouched('right state is kept', b.data, v, 0, 0)


# ---------------------------------------------------------------- C05: overlaps with product states

@contract('C05', 'from_product_state of any length')
def _(c):
    L, d = c.length('L'), c.dim('d')
    P = c.family('p', L, d)
    Q = c.mod('xmps.fMPS').fMPS().from_product_state(P)
    k = c.index('k', 0, L)
    c.true('length', c.same(Q.L, L) and c.same(c.len(Q.data), L))
    c.eq('every site holds its vector', Q.data[k], P[k].reshape(d, 1, 1))


@contract('C05', 'product_state_overlap of any length')
def _(c):
    np = c.np
    L, d = c.length('L'), c.dim('d')
    F = c.mod('xmps.fMPS').fMPS
    a = F(c.chain('A', L, d))
    u, v = c.listcopy(a.data), c.chain('B', L, d, flat=True)
    P = c.vectors(v, d)
    c.replace(F, 'from_product_state', lambda self, P: F(c.listcopy(v)))        # its contract: from_product_state of any length
    c.loops(c.inv('Fold', lambda k: np.tensordot(c.span(u, 0, k), np.conj(c.span(v, 0, k)), ([0, 1], [0, 1]))))
    o = a.product_state_overlap(P)
    c.eq('inner product of the state vectors', o, c.vdot(c.whole(v), c.whole(u)))
    c.untouched('the state is kept', a.data, u, 0, 0)


# ---------------------------------------------------------------- C22: thermofield doubles

def double(c, L, name='A'):
    """a doubled state with arbitrary tensors"""
    d = c.dim('d')
    return c.mod('xmps.fMPS').fTFD(c.chain(name, L, d*d, split=(d, d))), d


@contract('C22', 'copy of any length')
def _(c):
    L = c.length('L')
    t, d = double(c, L)
    u = c.listcopy(t.data)
    b = t.copy()
    i = c.index('i', 0, L)
    c.true('a doubled state', type(b) is type(t))
    c.eq('every site is equal', b.data[i], u[i])
    c.disjoint('no site shares memory', [b.data[i]], [t.data[i]])
    c.untouched('the state is kept', t.data, u, 0, 0)


@contract('C22', 'E on either copy at any site of any length', 'which copy', grid=[dict(lr=k) for k in (0, 1)])
def _(c, lr):
    np = c.np
    L = c.length('L')
    t, d = double(c, L)
    i = c.index('i', 0, L)
    old = c.listcopy(t.data)
    op = c.arr('op', d, d)
    mid = []
    c.loops(c.inv('Sweep', t, 'r', None, fresh=mid), c.inv('Sweep', t, 'l', None))
    e = t.E(op, i, lr)
    big = np.kron(op, np.eye(d)) if lr == 0 else np.kron(np.eye(d), op)
    w = c.whole(t.data)
    z = c.vdot(w, with_op(c, t.data, i, big))
    c.eq('expectation value in the state it leaves', e*2, z+np.conj(z))
    c.eq('of unit norm', c.vdot(w, w), 1)
    parallel(c, 'which is the same ray', w, c.whole(mid[0] if mid else old))


@contract('C22', 'Es on either copy at any site of any length', 'which copy', grid=[dict(lr=k) for k in (0, 1)])
def _(c, lr):
    np = c.np
    L = c.length('L')
    t, d = double(c, L)
    i = c.index('i', 0, L)
    ops = [c.arr('op%d' % j, d, d) for j in range(2)]
    c.loops(c.inv('Sweep', t, 'r', None, fresh=[]), c.inv('Sweep', t, 'l', None))
    e = t.Es(ops, i, lr)
    w = c.whole(t.data)
    for j, op in enumerate(ops):
        big = np.kron(op, np.eye(d)) if lr == 0 else np.kron(np.eye(d), op)
        c.eq('expectation value %d in the state it leaves' % j, e[j], c.vdot(w, with_op(c, t.data, i, big)))


@contract('C22', 'itemwise operations of any length')
def _(c):
    """from_fMPS, symmetry, sums and differences act site by site"""
    np = c.np
    L, d, D, E = c.length('L'), c.dim('d'), c.dim('D'), c.dim('E')
    F = c.mod('xmps.fMPS')
    A, B = [c.family(n, L, (d, d), (D, D), (E, E)) for n in 'AB']
    u = c.listcopy(A)
    a, b = F.fTFD(A), F.fTFD(B)
    k = c.index('k', 0, L)
    X = a.data[k].reshape(d, d, D, D, E, E)
    s = a.symmetry()
    c.eq('symmetry exchanges the copies', s.data[k], np.transpose(X, [1, 0, 3, 2, 5, 4]).reshape(d*d, D*D, E*E))
    c.eq('an involution', s.symmetry().data[k], a.data[k])
    c.eq('symmetrised', a.symmetrise().data[k], a.data[k]+s.data[k])
    z = c.scalar('z')
    for name, r, want in (('sum', a+b, a.data[k]+b.data[k]), ('difference', a-b, a.data[k]-b.data[k]), ('multiple', a*z, z*a.data[k]), ('multiple from the left', a.__rmul__(z), z*a.data[k])):
        c.eq(name+': any site', r.data[k], want)
        c.true(name+': a doubled state of the same length', type(r) is F.fTFD and c.same(r.L, L))
    m = F.fMPS(c.family('M', L, d, D, E))
    m.d, m.D = d, D
    t = F.fTFD().from_fMPS(m)
    c.eq('a pure state on both copies: any site', t.data[k], np.einsum('sab,tcd->stacbd', m.data[k], m.data[k]).reshape(d*d, D*D, E*E))
    c.true('of the same length', c.same(t.L, L) and c.same(c.len(t.data), L))
    c.untouched('the state is kept', a.data, u, 0, 0)


@contract('C22', 'dA_dt of any length')
def _(c):
    """both copies evolve: the derivative is that of the chain of pairs (C11) under h x 1 + 1 x h, for every term"""
    np = c.np
    L, d = c.length('L', 2), c.dim('d')
    F = c.mod('xmps.fMPS')
    t = F.fTFD(c.chain('A', L, d*d, split=(d, d)))
    t.d = d*d
    H = c.family('h', L-1, (d, d), (d, d))
    k = c.index('k', 0, L-1)

    def both(h):
        h, e = h.reshape(d, d, d, d), np.eye(d)
        a = np.einsum('abcd,ij,kl->aibkcjdl', h, e, e)+np.einsum('abcd,ij,kl->iakbjcld', h, e, e)
        return a.reshape(d**4, d**4)
    got = []
    if c.symbolic:
        c.replace(F.fMPS, 'dA_dt', lambda self, H, fullH=False: got.append((self, H, fullH)) or self)
        r = t.dA_dt(H)
        c.true('asked once of the chain of pairs', len(got) == 1 and got[0][0] is t and r is t and not got[0][2])
        c.true('one term per bond', c.same(c.len(got[0][1]), L-1))
        c.eq('every term acts on both copies', got[0][1][k], both(H[k]))
    else:
        m = F.fMPS(t.data).left_canonicalise()
        t = F.fTFD(m.data)
        want = F.fMPS(m.data).dA_dt([both(h) for h in H])
        r = t.dA_dt(H)
        c.eq('every term acts on both copies', r.data[k], want.data[k])


# ---------------------------------------------------------------- C12: one step

@contract('C12', 'one step of any length', 'order', grid=[dict(order=o) for o in (1, 4)])
def _(c, order):
    L, d, D, E = c.length('L', 2), c.dim('d', 2), c.dim('D'), c.dim('E')
    M = c.mod('xmps.fMPS')
    m = M.fMPS(c.family('A', L, d, D, E)) if c.symbolic else M.fMPS(c.chain('A', L, d, standard=True)).left_canonicalise(minD=False)
    if c.symbolic:
        m.D = D
    u = c.listcopy(m.data)
    H = c.family('h', L-1, (d, d), (d, d))
    if not c.symbolic:
        H = [h+h.conj().T for h in H]
    c.uninterpreted(M.fMPS, 'dA_dt')
    c.same_ray(M.fMPS, 'left_canonicalise')
    t = c.mod('xmps.fTDVP').Trajectory(None, H)
    dt = .03125
    f = lambda X: M.fMPS(X).dA_dt(H, fullH=False).data
    add = lambda *p: c.combine([(1, u)]+list(p))
    if order == 1:
        want = add((dt, f(u)))
        out = t.euler(m, dt, store=False)
    else:
        k1 = f(u)
        k2 = f(add((dt/2, k1)))
        k3 = f(add((dt/2, k2)))
        k4 = f(add((dt, k3)))
        want = add((dt/6, k1), (dt/3, k2), (dt/3, k3), (dt/6, k4))
        out = t.rk4(m, dt, store=False)
    if c.symbolic:
        k = c.index('k', 0, L)
        c.eq('the combination of slopes of the stated order, at any site', out.data[k], want[k])
        c.true('length', c.same(out.L, L))
    else:
        c.proportional('the combination of slopes of the stated order, at any site', c.dense(out.data), c.dense(want))
    c.untouched('the start is kept', m.data, u, 0, 0)
    c.true('nothing is recorded unless asked', len(t.mps_history) == 0 and len(t.Ds) == 0)


# ---------------------------------------------------------------- C03: sweeps with a limit

def cut(hand, norm):
    def f(c):
        """the truncated state is the old one projected on what the kept sites span"""
        np = c.np
        L, D = c.length('L'), c.dim('D')
        m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, c.dim('d')))
        old = c.listcopy(m.data)
        c.loops(c.inv('Cut', m, hand[0], norm, D))
        r = getattr(m, hand+'_canonicalise')(D, sweep_back=False)
        w = c.whole(m.data)
        c.each_iso('every site is an isometry', m.data, 0, L, hand[0])
        c.each_bond('every bond within the limit', m.data, D)
        c.eq('unit norm', c.vdot(w, w), 1)
        c.true('returns itself', r is m)
        if hand == 'left':
            X, u, A = c.span(m.data, 0, L-1), c.span(old, 0, L-1), old[L-1]
            G = np.tensordot(np.conj(X), u, ([0, 1], [0, 1]))
            p = join(np, X, np.transpose(np.tensordot(G, A, ([1], [1])), [0, 1, 2]))
        else:
            X, u, A = c.span(m.data, 1, L), c.span(old, 1, L), old[0]
            G = np.tensordot(u, np.conj(X), ([1, 2], [1, 2]))
            p = join(np, np.transpose(np.tensordot(A, G, ([2], [0])), [1, 0, 2]), X)
        c.eq('projected on the kept space', w*c.vdot(w, p), p)
    return f


contract('C03', 'left_canonicalise with a limit, any length')(cut('left', 'norm_'))
contract('C03', 'right_canonicalise with a limit, any length')(cut('right', None))


@contract('C03', 'mixed_canonicalise with a limit, any length')
def _(c):
    L, D = c.length('L'), c.dim('D')
    m = c.mod('xmps.fMPS').fMPS(c.chain('A', L, c.dim('d')))
    oc = c.index('oc', 0, L)
    c.loops(c.inv('Cut', m, 'r', None, D, fresh=[]), c.inv('Cut', m, 'l', None, D))
    r = m.mixed_canonicalise(oc, D, sweep_back=False)
    c.each_iso('sites before the centre are left isometries', m.data, 0, oc, 'l')
    c.each_iso('sites after the centre are right isometries', m.data, oc+1, L, 'r')
    c.each_bond('every bond within the limit', m.data, D)
    c.true('returns itself', r is m)


def cut_spectra(hand):
    def f(c):
        np = c.np
        F = c.mod('xmps.fMPS')
        c.replace(F, 'rank', lambda M: M.shape[0])
        c.precondition('the environments have full rank')
        L, D = c.length('L'), c.dim('D')
        m = F.fMPS(c.chain('A', L, c.dim('d')))
        mid = []
        h = hand[0]
        c.loops(c.inv('Cut', m, h, 'norm_' if h == 'l' else None, D, fresh=mid), c.inv('Spectra', m, h), c.inv('Same', m))
        r = getattr(m, hand+'_canonicalise')(D)
        w = c.whole(m.data)
        if mid:
            parallel(c, 'the sweep back keeps the truncated state', w, c.whole(mid[0]))
        c.eq('unit norm', c.vdot(w, w), 1)
        c.true('one spectrum per bond', c.same(c.len(m.Ls), L+1))
        k = c.index('bond', 0, L+1)
        k == 0 or k == 1 or k == L      # paths of their own
        s = m.Ls[k]
        c.true('within the limit', c.le(s.shape[0], D))
        e = left_env(c, m.data, k) if h == 'r' else right_env(c, m.data, k)
        c.eq('environment at any bond is the recorded spectrum', e, s)
        c.eq('spectrum sums to one', np.trace(s), 1)
        c.descending('spectrum descends', np.diag(s))
        i = c.index('site', 0, L)
        (c.left_iso if h == 'l' else c.right_iso)('every site is an isometry', m.data[i])
    return f


contract('C03', 'left_canonicalise with a limit and spectra, any length')(cut_spectra('left'))
contract('C03', 'right_canonicalise with a limit and spectra, any length')(cut_spectra('right'))
