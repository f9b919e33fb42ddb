"""truncation and expansion of finite matrix product states (C03)"""
from api import contract

M = 'xmps.fMPS'
BL = 'chain length'
LS = [dict(L=n) for n in (1, 2, 3)]
LS23 = [dict(L=n) for n in (2, 3)]


def block(c, T, left):
    """the product of a run of tensors with its outer bond dropped: [physical..., inner bond] or [inner bond, physical...]"""
    np = c.np
    k = len(T)
    args = []
    for j, A in enumerate(T):
        b = [10+j, j, 11+j]
        idx = [slice(None)]*3
        if left and j == 0:
            idx[1] = 0
            args += [A[tuple(idx)], [0, 11]]
        elif not left and j == k-1:
            idx[2] = 0
            args += [A[tuple(idx)], [j, 10+j]]
        else:
            args += [A, [j, 10+j, 11+j]]
    return np.einsum(*args, list(range(k))+[10+k] if left else [10]+list(range(k)))


def project(c, v, X, left):
    """v with the sites of X projected on the space the isometry X spans"""
    np = c.np
    n = v.ndim
    k = X.ndim-1
    s = list(range(n))
    if left:
        cut, b = s[:k], [20]
        return np.einsum(v, s, np.conj(X), cut+b, X, [30+j for j in cut]+b, [30+j for j in cut]+s[k:])
    cut, b = s[n-k:], [20]
    return np.einsum(v, s, np.conj(X), b+cut, X, b+[30+j for j in cut], s[:n-k]+[30+j for j in cut])


@contract('C03', 'right_canonicalise with a limit', BL, grid=LS)
def _(c, L):
    """the truncated state is the old one projected on the kept space of each block to the right"""
    D = c.dim('D')
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.right_canonicalise(D, sweep_back=False)
    T = m.data
    w = c.dense(T)
    for i in range(L):
        c.right_iso('site %d is a right isometry' % i, T[i])
        c.true('bond %d within the limit' % i, c.le(T[i].shape[1], D))
    c.eq('unit norm', c.vdot(w, w), 1)
    p = project(c, v, block(c, T[1:], False), False) if L > 1 else v
    c.eq('projected on the kept space', w*c.vdot(w, p), p)
    c.true('returns itself', r is m)


@contract('C03', 'left_canonicalise with a limit', BL, grid=LS)
def _(c, L):
    D = c.dim('D')
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = m.left_canonicalise(D, sweep_back=False)
    T = m.data
    w = c.dense(T)
    for i in range(L):
        c.left_iso('site %d is a left isometry' % i, T[i])
        c.true('bond %d within the limit' % i, c.le(T[i].shape[2], D))
    c.eq('unit norm', c.vdot(w, w), 1)
    p = project(c, v, block(c, T[:-1], True), True) if L > 1 else v
    c.eq('projected on the kept space', w*c.vdot(w, p), p)
    c.true('returns itself', r is m)


@contract('C03', 'mixed_canonicalise with a limit', BL, grid=[dict(L=n, oc=o) for n in (1, 2, 3) for o in range(n)])
def _(c, L, oc):
    D = c.dim('D')
    m = c.mps('A', L)
    r = m.mixed_canonicalise(oc, D, sweep_back=False)
    T = m.data
    for i in range(oc):
        c.left_iso('site %d is a left isometry' % i, T[i])
    for i in range(oc+1, L):
        c.right_iso('site %d is a right isometry' % i, T[i])
    for i in range(L-1):
        c.true('bond %d within the limit' % i, c.le(T[i].shape[2], D))
    c.true('returns itself', r is m)


@contract('C03', 'the dominant weight is kept', BL, grid=[dict(left=x) for x in (False, True)])
def _(c, left):
    """cutting one bond of an orthogonal state keeps its D largest Schmidt coefficients: the fidelity is their total weight"""
    np = c.np
    D = c.dim('D')
    m = c.mps('A', 2)
    m = m.right_orthogonalise() if left else m.left_orthogonalise()
    v = c.dense(m.data)
    # the other tensor is an isometry, so the singular values of the centre are the Schmidt coefficients of the state
    if left:
        c.right_iso('isometric neighbour', m.data[1])
        S = np.linalg.svd(m.data[0][:, 0, :], full_matrices=True)[1]
    else:
        c.left_iso('isometric neighbour', m.data[0])
        S = np.linalg.svd(np.transpose(m.data[1][:, :, 0], [1, 0]), full_matrices=False)[1]
    m.left_canonicalise(D, sweep_back=False) if left else m.right_canonicalise(D, sweep_back=False)
    T = m.data
    w = c.dense(T)
    k = S[:D]
    c.descending('descending', S)
    o = c.vdot(w, v)
    c.eq('fidelity', o*np.conj(o), np.sum(k*k))


@contract('C03', 'canonicalising with a limit and spectra', BL, grid=[dict(L=n, hand=h) for n in (1, 2, 3) for h in ('left', 'right')])
def _(c, L, hand):
    """full-rank environments: the truncated state in the requested canonical form, with its spectra"""
    np = c.np
    D = c.dim('D')
    c.replace(c.mod(M), 'rank', lambda X: X.shape[0])
    c.precondition('the environments have full rank')
    m = c.mps('A', L)
    v = c.dense(m.data)
    r = getattr(m, hand+'_canonicalise')(D)
    T = m.data
    w = c.dense(T)
    c.true('returns itself', r is m)
    c.true('recorded limit', c.le(m.D, D))
    for i in range(L):
        (c.left_iso if hand == 'left' else c.right_iso)('site %d is an isometry' % i, T[i])
    for i in range(L-1):
        c.true('bond %d within the limit' % i, c.le(T[i].shape[2], D))
    c.eq('unit norm', c.vdot(w, w), 1)
    if L > 1:
        p = project(c, v, block(c, T[:-1] if hand == 'left' else T[1:], hand == 'left'), hand == 'left')
        c.eq('projected on the kept space', w*c.vdot(w, p), p)
    e = c.eye(1)
    for k in range(L+1):
        i = k if hand == 'right' else L-k
        c.eq('environment at bond %d is the recorded spectrum' % i, e, m.Ls[i])
        c.descending('spectrum %d descends' % i, np.diag(m.Ls[i]))
        if k < L:
            A = T[i if hand == 'right' else i-1]
            e = np.einsum('sab,ac,scd->bd', np.conj(A), e, A) if hand == 'right' else np.einsum('sab,bc,sdc->ad', A, e, np.conj(A))


@contract('C03', 'a limit above every bond is lossless', BL, grid=[dict(L=n, how=h) for n in (1, 2, 3) for h in ('left', 'right', 'mixed', 'init')])
def _(c, L, how):
    c.replace(c.mod(M), 'rank', lambda X: X.shape[0])
    c.precondition('the environments have full rank')
    D = c.dim('D')
    m = c.mps('A', L)
    for A in m.data:
        c.atmost(A.shape[1], D)
        c.atmost(A.shape[2], D)
    v = c.dense(m.data)
    if how == 'init':
        m = c.mod(M).fMPS(m.data, m.data[0].shape[0], D)
    elif how == 'mixed':
        m.mixed_canonicalise(L//2, D)
    else:
        getattr(m, how+'_canonicalise')(D)
    w = c.dense(m.data)
    c.eq('the same ray', w*c.vdot(w, v), v)
    c.eq('unit norm', c.vdot(w, w), 1)
    for i in range(L-1):
        c.true('bond %d within the limit' % i, c.le(m.data[i].shape[2], D))


@contract('C03', 'building with a limit', BL, grid=LS)
def _(c, L):
    """the constructor truncates by a right canonicalisation of the given tensors"""
    c.replace(c.mod(M), 'rank', lambda X: X.shape[0])
    c.precondition('the environments have full rank')
    D = c.dim('D')
    m = c.mps('A', L)
    T = [A.copy() for A in m.data]
    d = T[0].shape[0]
    a = c.mod(M).fMPS(m.data, d, D)
    b = c.mod(M).fMPS(T, d).right_canonicalise(D)
    c.true('sizes', a.L == L and c.same(a.d, d))
    for i in range(L):
        c.eq('tensor %d' % i, a.data[i], b.data[i])
        c.true('bond %d within the limit' % i, c.le(a.data[i].shape[1], D))


@contract('C03', 'expand', BL, grid=LS23, thorough=[dict(L=4)])
def _(c, L):
    """the state is kept, left isometric, with the standard bonds of the new limit"""
    d, D0, D = c.dim('d', 2), c.dim('D0'), c.dim('D')
    c.atmost(D0, D)
    std = lambda D: [1]+[min(d**min(i, L-i), D) for i in range(1, L)]+[1]
    m = c.mps('A', L, d, std(D0))
    v = c.dense(m.data)
    r = m.expand(D)
    w = c.dense(m.data)
    c.eq('the same ray', w*c.vdot(w, v), v)
    c.eq('unit norm', c.vdot(w, w), 1)
    b = std(D)
    c.true('returns itself', r is m)
    for i in range(L):
        c.left_iso('site %d is a left isometry' % i, m.data[i])
        c.shape('site %d has the standard bonds' % i, m.data[i], (d, b[i], b[i+1]))
