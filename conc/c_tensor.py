"""contracts of tensor.py, the helpers of spin.py, peps_tools.py, svd_robust.py (C18) and ncon.py (C19)"""
from base import *
import scipy.linalg as sl


def te():
    import xmps.tensor as M
    return M


def rnd(g, *s):
    return g.cplx(*s) if g.bool('complex', .8) else g.re(*s)


def lowrank(g, m, n):
    """matrix of possibly deficient rank"""
    k = min(m, n)
    r = k if g.bool('full', .6) else g.int('rank', 1, k)
    return rnd(g, m, r)@rnd(g, r, n), r


@case('C18', 40)
def qr_forms(g):
    M = te()
    # the diagonal of the triangular factor is non-zero when the leading (trailing) square block is regular
    m, n = g.int('m', 1, 7), g.int('n', 1, 7)
    A = rnd(g, m, n)
    q, r = M.uqr(A.copy())
    k = min(m, n)
    g.ok('economic shapes', q.shape == (m, k) and r.shape == (k, n))
    g.close('product', q@r, A)
    g.close('isometry', q.conj().T@q, np.eye(k), 1e-10)
    g.ok('upper triangular, positive diagonal', np.allclose(r, np.triu(r)) and np.all(np.real(np.diag(r)) > 0))
    r, q = M.urq(A.copy())
    g.ok('economic shapes (rq)', r.shape == (m, k) and q.shape == (k, n))
    g.close('product (rq)', r@q, A)
    g.close('isometry (rq)', q@q.conj().T, np.eye(k), 1e-10)
    if m <= n:
        g.ok('upper triangular, positive diagonal (rq)', np.allclose(r, np.triu(r)) and np.all(np.real(np.diag(r)) > 0))


@case('C18', 40)
def truncations(g):
    M = te()
    m, n = g.int('m', 1, 7), g.int('n', 1, 7)
    A, r = lowrank(g, m, n)
    D = g.int('D', 1, 8)
    U, S, V = M.tr_svd(A.copy(), D)
    k = min(D, m, n)
    g.ok('truncated shapes', U.shape == (m, k) and S.shape == (k, k) and V.shape == (k, n))
    s = np.linalg.svd(A, compute_uv=False)
    g.close('singular values', np.diag(S), s[:k], 1e-9)
    g.close('left vectors', U.conj().T@U, np.eye(k), 1e-10)
    g.close('right vectors', V@V.conj().T, np.eye(k), 1e-10)
    g.close('best approximation', np.linalg.norm(A-U@S@V), np.sqrt(np.sum(s[k:]**2)), 1e-8)
    # truncation of an already decomposed tensor
    d, l, rr = g.int('d', 1, 3), g.int('l', 1, 4), g.int('r', 1, 4)
    K = g.int('K', 1, 6)
    nz = g.int('nonzero', 1, K)
    s = np.diag([1./(i+1) if i < nz else 0. for i in range(K)])
    T, W = g.cplx(d, l, K), g.cplx(K, rr)
    D = g.pick('Dt', [None, 1, 2, 3, 9])
    md = g.bool('minD')
    k = min(K, D) if D is not None else (nz if md else K)
    a, b, c = M.truncate_A(T, s, W, D, md)
    g.close('truncate_A tensor', a, T[:, :, :k], 0)
    g.close('truncate_A spectrum', b, s[:k, :k], 0)
    g.close('truncate_A rest', c, W[:k], 0)
    U, B = g.cplx(l, K), g.cplx(d, K, rr)
    a, b, c = M.truncate_B(U, s, B, D, md)
    g.close('truncate_B rest', a, U[:, :k], 0)
    g.close('truncate_B spectrum', b, s[:k, :k], 0)
    g.close('truncate_B tensor', c, B[:, :k], 0)
    g.ok('rank', M.rank(s) == nz)


@case('C18', 40)
def blocks(g):
    M = te()
    a, b = rnd(g, g.int('a1', 1, 4), g.int('a2', 1, 4)), rnd(g, g.int('b1', 1, 4), g.int('b2', 1, 4))
    s = M.direct_sum(a, b)
    g.close('direct sum', s, sl.block_diag(a, b), 0)
    g.close('identity like', M.eye_like(a), np.eye(a.shape[0]), 0)
    m, n = g.int('m', 1, 6), g.int('n', 1, 6)
    N = max(m, n)
    Q = g.unitary(N)[:m, :n]
    D = g.pick('D', [None, 1, N, N+1, N+3])
    U = M.unitary_extension(Q.copy(), D)
    size = N if D is None else max(N, D)
    g.ok('size of the extension', U.shape == (size, size))
    g.close('extension is unitary', U@U.conj().T, np.eye(size), 1e-9)
    g.close('isometry kept', U[:m, :n], Q, 1e-10)
    U = M.haar_unitary(m)
    g.close('random unitary', U@U.conj().T, np.eye(m), 1e-10)
    k = g.int('k', 1, 4)
    A = g.cplx(k, k+g.int('extra', 1, 4))
    v = M.get_null_space(A.copy())
    g.ok('null space dimension', v.shape == (A.shape[1], A.shape[1]-k))
    g.close('null vectors', A@v, np.zeros((k, v.shape[1])), 1e-9)
    g.close('null vectors orthonormal', v.conj().T@v, np.eye(v.shape[1]), 1e-10)
    v = rnd(g, 4)
    u = M.embed(v.reshape(2, 2).copy())
    g.close('embedding unitary', u@u.conj().T, np.eye(4), 1e-9)
    g.close('first column', u[:, 0], v/np.linalg.norm(v), 1e-10)
    g.close('deembed inverts embed', M.deembed(u), v.reshape(2, 2)/np.linalg.norm(v), 1e-10)


def trace_out(rho, keep, dims):
    n = len(dims)
    r = rho.reshape(list(dims)*2)
    rest = [i for i in range(n) if i not in keep]
    p = list(keep)+rest
    r = r.transpose(p+[n+i for i in p])
    dk, dr = int(np.prod([dims[i] for i in keep])), int(np.prod([dims[i] for i in rest]))
    return np.einsum('abcb->ac', r.reshape(dk, dr, dk, dr))


@case('C18', 40)
def partial_traces(g):
    M = te()
    import xmps.spin as spin
    n = g.int('n', 1, 4)
    dims = [g.int('dim', 1, 3) for _ in range(n)]
    keep = sorted(g.py.sample(range(n), g.int('keep', 1, n)))
    g.drawn['sites kept'] = keep
    N = int(np.prod(dims))
    u, rho = g.cplx(N), g.cplx(N, N)
    g.close('reduced density matrix', M.ρA(u.copy(), keep, dims), trace_out(np.outer(u, u.conj()), keep, dims))
    for F in (M.partial_trace, spin.partial_trace):
        g.close('partial trace', F(rho.copy(), keep, dims), trace_out(rho, keep, dims))
    g.close('trace kept', np.trace(M.partial_trace(rho, keep, dims)), np.trace(rho))


@case('C18', 30)
def transposes(g):
    M = te()
    s = [g.int('dim', 1, 4) for _ in range(g.int('ndim', 2, 4))]
    A = g.cplx(*s)
    at = np.moveaxis(A, -1, -2)
    g.close('transpose of the matrix legs', M.T(A), at, 0)
    g.close('hermitian conjugate', M.H(A), at.conj(), 0)
    g.close('conjugate', M.C(A), A.conj(), 0)
    d, l, r, x = g.int('d', 1, 3), g.int('l', 1, 4), g.int('r', 1, 4), g.int('x', 1, 4)
    B = g.cplx(d, l, r)
    m = g.cplx(x, l)
    g.close('ldot', M.ldot(m, B), np.einsum('xl,dlr->dxr', m, B), 1e-10)
    m = g.cplx(r, x)
    g.close('rdot', M.rdot(B, m), np.einsum('dlr,rx->dlx', B, m), 1e-10)


@case('C18', 40)
def eigen(g):
    M = te()
    n = g.int('n', 1, 6)
    H = g.herm(n)
    V, S = M.diagonalise(H.copy())
    g.close('diagonalise', V@S@V.conj().T, H, 1e-9)
    g.close('eigenvectors orthonormal', V.conj().T@V, np.eye(n), 1e-10)
    g.ok('descending', np.all(np.diff(np.real(np.diag(S))) <= 1e-12) and np.allclose(S, np.diag(np.diag(S))))
    P = g.cplx(n, n)
    P = P@P.conj().T
    w = np.exp(1j*g.real('phase', -3, 3))
    R = M.rotate_to_hermitian(P*w)
    g.close('hermitian up to sign', R*np.sign(np.real(R[0, 0])), P, 1e-8*max(1, np.abs(P).max()))
    ph, R = M.rotate_to_hermitian(P*w, ret_phase=True)
    g.close('phase times matrix', ph*R, P*w, 1e-8)
    g.close('phase unit', abs(ph), 1, 1e-10)
    K = g.int('K', 2, 3)
    d = g.int('d', 2, 3)
    A = g.cplx(d, K, K)
    E = np.einsum('sac,sbd->abcd', A, A.conj())
    e, v = M.r_eigenmatrix(E)
    ev = np.linalg.eigvals(E.reshape(K*K, K*K))
    g.close('dominant eigenvalue (right)', e, ev[np.argmax(abs(ev))], 1e-7)
    g.close('right eigenmatrix', np.einsum('abcd,cd->ab', E, v), e*v, 1e-7)
    g.close('right eigenmatrix hermitian', v, v.conj().T, 1e-7)
    e, v = M.l_eigenmatrix(E)
    g.close('dominant eigenvalue (left)', abs(e), abs(ev).max(), 1e-7)
    g.close('left eigenmatrix', np.einsum('ab,abcd->cd', v, E), np.conj(e)*v, 1e-7)


@case('C18', 40)
def padding(g):
    M = te()
    from xmps.fMPS import fMPS
    L, d = g.int('L', 2, 5), g.int('d', 2, 3)
    x, v = fmps(g, L=L, d=d, kinds=['irregular'])
    y, w = fmps(g, L=L, d=d, kinds=['irregular', 'std'])
    sx, sy = [a.shape for a in x.data], [a.shape for a in y.data]
    p, q = M.mps_pad(x.copy(), y.copy())
    for a, b, s, t in zip(p.data, q.data, sx, sy):
        want = (d, max(s[1], t[1]), max(s[2], t[2]))
        g.ok('common shape', a.shape == want and b.shape == want, (a.shape, b.shape, want))
    g.close('first state kept', dense(p.data), v, 1e-9)
    g.close('second state kept', dense(q.data), w, 1e-9)


@case('C18', 30)
def splitting(g):
    M = te()
    d = g.int('d', 1, 3)
    p, q = g.int('p', 1, 3), g.int('q', 1, 3)
    for i in range(d):
        for j in range(d):
            for k in range(p):
                for l in range(q):
                    g.ok('position in the product', tuple(M.loc((i, j), (k, l), None, p, q)) == (p*i+k, q*j+l))
    g.ok('alias', tuple(M.p((1, 0), (0, 1), 2)) == (2, 1))
    H = g.cplx(d*d, d*d)
    h = M.split_up(H, d)
    g.close('two-site split', h, np.transpose(H.reshape(d, d, d, d), [1, 0, 3, 2]), 0)
    g.ok('basis', list(M.single_basis_iterator(d)) == [(i, j) for i in range(d) for j in range(d)])
    g.ok('pair basis', len(list(M.basis_iterator(d))) == d**4)
    H = g.cplx(8, 8)
    h = M.split_up_3(H, 2)
    g.ok('position in the triple product', tuple(M.loc_3((1, 0), (1, 1), (0, 1), 2)) == (4+0+1, 0+2+1))
    R = H.reshape([2]*6)
    g.close('three-site split', h, np.einsum('rvtswu->rstuvw', R), 0)


@case('C18', 30)
def grouping(g):
    import xmps.peps_tools as P
    n = g.int('n', 1, 5)
    A = g.cplx(*[g.int('dim', 1, 3) for _ in range(n)])
    perm = list(range(n))
    g.py.shuffle(perm)
    legs, i = [], 0
    while i < n:
        k = g.int('group', 1, n-i)
        legs.append(perm[i:i+k])
        i += k
    g.drawn['legs'] = [list(l) for l in legs]
    B, pipe = P.group_legs(A.copy(), [list(l) for l in legs])
    want = np.transpose(A, perm).reshape([int(np.prod([A.shape[i] for i in l])) for l in legs])
    g.close('grouped', B, want, 0)
    g.close('ungroup inverts group', P.ungroup_legs(B, pipe), A, 0)
    g.ok('inverse permutation', [perm[i] for i in P.inverse_transpose(perm)] == list(range(n)))
    import xmps.fMPS as F
    A = g.cplx(g.int('d', 1, 3), g.int('l', 1, 4), g.int('r', 1, 4))
    B, pipe = F.group_legs(A, [[0, 1], [2]])
    g.close('grouped (states)', B, A.reshape(-1, A.shape[2]), 0)
    g.close('ungroup inverts group (states)', F.ungroup_legs(B, pipe), A, 0)


@case('C18', 30)
def robust_svd(g):
    import xmps.svd_robust as R
    m, n = g.int('m', 1, 6), g.int('n', 1, 6)
    A, r = lowrank(g, m, n)
    full = g.bool('full matrices')
    drv = g.pick('driver', ['gesdd', 'gesvd'])
    U, s, V = R.svd(A.copy(), full_matrices=full, lapack_driver=drv)
    k = min(m, n)
    g.ok('shapes', U.shape == ((m, m) if full else (m, k)) and V.shape == ((n, n) if full else (k, n)) and s.shape == (k,))
    g.close('product', U[:, :k]*s@V[:k], A, 1e-9)
    g.close('left vectors', U.conj().T@U, np.eye(U.shape[1]), 1e-10)
    g.close('right vectors', V@V.conj().T, np.eye(V.shape[0]), 1e-10)
    g.close('singular values', s, np.linalg.svd(A, compute_uv=False), 1e-9)
    g.close('values only', R.svd(A.copy(), compute_uv=False, lapack_driver=drv), s, 1e-9)


# ------------------------------------------------------------------ C19
def network(g, nmax=5, maxlegs=3, maxsize=400):
    """random consistent network -> (shapes, labels)"""
    n = g.int('tensors', 1, nmax)
    labels = [[] for _ in range(n)]
    dims = {}
    npos, nneg = g.int('bonds', 0, 6), g.int('free', 0, 4)
    # labels need not be contiguous
    pos = g.py.sample(range(1, 30), npos) if g.bool('gaps', .4) else list(range(1, npos+1))
    neg = [-i for i in (g.py.sample(range(1, 30), nneg) if g.bool('fgaps', .3) else range(1, nneg+1))]
    for p in pos:
        a = g.py.randrange(n)
        b = a if g.py.random() < .2 else g.py.randrange(n)
        labels[a].append(p)
        labels[b].append(p)
    for q in neg:
        labels[g.py.randrange(n)].append(q)
    for l in labels:
        g.py.shuffle(l)
    for x in pos+neg:
        dims[x] = g.py.randint(1, 3)
    g.drawn['labels'] = [list(l) for l in labels]
    g.drawn['dims'] = {str(k): v for k, v in dims.items()}
    return labels, dims, pos, neg


def esum(As, labels, out):
    ids = sorted({x for l in labels for x in l})
    m = {x: i for i, x in enumerate(ids)}
    args = []
    for A, l in zip(As, labels):
        args += [A, [m[x] for x in l]]
    return np.einsum(*args, [m[x] for x in out], optimize=True)


def ncon_(*a, **k):
    from xmps.ncon import ncon
    return ncon(*a, **k)


@case('C19', 60)
def einstein_sum(g):
    labels, dims, pos, neg = network(g)
    As = [g.cplx(*[dims[x] for x in l]) for l in labels]
    keep = [a.copy() for a in As]
    lk = [list(l) for l in labels]
    want = esum(As, labels, sorted(neg, reverse=True))
    g.close('sum over the repeated labels', ncon_(As, labels), want)
    g.ok('labels left alone', labels == lk)
    for a, b in zip(As, keep):
        g.close('operands left alone', a, b, 0)
    g.close('tuples accepted', ncon_(tuple(As), tuple(map(tuple, labels))), want)
    order = list(pos)
    g.py.shuffle(order)
    g.drawn['order'] = list(order)
    g.close('independent of the contraction order', ncon_(As, labels, order), want)
    f = list(neg)
    g.py.shuffle(f)
    g.drawn['forder'] = list(f)
    g.close('requested order of the free legs', ncon_(As, labels, forder=f), esum(As, labels, f))
    g.close('both orders', ncon_(As, labels, order, f), esum(As, labels, f))
    g.close('unchecked call', ncon_(As, labels, check_indices=False), want)


@case('C19', 30)
def single_tensor(g):
    l = []
    n, f = g.int('traces', 0, 2), g.int('free', 0, 3)
    for i in range(n):
        l += [i+1, i+1]
    l += [-(i+1) for i in range(f)]
    if not l:
        raise Skip()
    g.py.shuffle(l)
    g.drawn['labels'] = list(l)
    dims = {x: g.py.randint(1, 3) for x in l}
    A = g.cplx(*[dims[x] for x in l])
    want = esum([A], [l], sorted([x for x in set(l) if x < 0], reverse=True))
    g.close('single tensor without lists', ncon_(A, l), want)
    g.close('single tensor', ncon_([A], [l]), want)


@case('C19', 60)
def refusals(g):
    labels, dims, pos, neg = network(g)
    As = [g.cplx(*[dims[x] for x in l]) for l in labels]
    kind = g.pick('kind', ['dimension', 'count', 'legs', 'once', 'thrice', 'freetwice'])
    if kind == 'dimension':
        # enlarge one leg of a bond
        c = [(i, j) for i, l in enumerate(labels) for j, x in enumerate(l) if x > 0]
        if not c:
            raise Skip()
        i, j = g.pick('leg', c)
        s = list(As[i].shape)
        s[j] += 1
        As[i] = g.cplx(*s)
    elif kind == 'count':
        As = As+[g.cplx(2)]
    elif kind == 'legs':
        i = g.py.randrange(len(As))
        As[i] = As[i][..., None]
    else:
        x = max([0]+pos)+1 if kind != 'freetwice' else min([0]+neg)-1
        k = {'once': 1, 'thrice': 3, 'freetwice': 2}[kind]
        for _ in range(k):
            i = g.py.randrange(len(As))
            labels[i] = labels[i]+[x]
            As[i] = np.repeat(As[i][..., None], 2, -1)
    try:
        ncon_(As, labels)
    except Exception:
        g.checks += 1
        return
    g.ok('inconsistent description refused: '+kind, False)
