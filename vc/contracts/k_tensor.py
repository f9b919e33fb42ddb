from api import contract
import itertools, random

M = 'xmps.tensor'


@contract('C18', 'uqr and urq')
def _(c):
    t = c.mod(M)
    m, n = c.dim('m'), c.dim('n')
    A = c.arr('A', m, n)
    q, r = t.uqr(A)
    c.eq('product', q@r, A)
    c.isometry('isometric factor', q, (0,), 1)
    r, q = t.urq(A)
    c.eq('product (rq)', r@q, A)
    c.isometry('isometric factor (rq)', q, (1,), 0)


@contract('C18', 'truncated svd')
def _(c):
    t = c.mod(M)
    m, n, D = c.dim('m'), c.dim('n'), c.dim('D')
    A = c.arr('A', m, n)
    U, S, V = t.tr_svd(A, D)
    c.isometry('left vectors', U, (0,), 1)
    c.isometry('right vectors', V, (1,), 0)
    np = c.np
    c.eq('projection of the input', U@S@V, U@(np.conj(U).T@A))
    c.eq('on both sides', U@S@V, (A@np.conj(V).T)@V)
    k = S.shape[0]
    c.true('no more than asked', c.le(k, D))
    c.eq('diagonal', S, np.diag(np.diag(S)))


@contract('C18', 'untruncated svd')
def _(c):
    t = c.mod(M)
    m, n = c.dim('m'), c.dim('n')
    A = c.arr('A', m, n)
    U, S, V = t.tr_svd(A, None)
    c.eq('lossless', U@S@V, A)


@contract('C18', 'truncate_A and truncate_B', grid=[dict(which=w, given=g) for w in 'AB' for g in (0, 1, 2)])
def _(c, which, given):
    t = c.mod(M)
    np = c.np
    d, l, K, r = c.dim('d'), c.dim('l'), c.dim('K'), c.dim('r')
    D = c.dim('D') if given == 1 else None
    if given == 2:      # a spectrum as the callers have it: singular values in descending order
        sv = c.la.svd(c.arr('X', K, c.dim('n')), full_matrices=False)[1]
        K = sv.shape[0]
        S = np.diag(sv)
    else:
        S = np.diag(c.arr('s', K, real=True))
    if which == 'A':
        A, V = c.arr('A', d, l, K), c.arr('V', K, r)
        a, s, v = t.truncate_A(A, S, V, D, given != 0)
        full, rest, ax = A, V, 2
    else:
        B, U = c.arr('B', d, K, r), c.arr('U', l, K)
        v, s, a = t.truncate_B(U, S, B, D, given != 0)
        full, rest, ax = B, U.T, 1
        v = v.T
    k = s.shape[0]
    if given == 0:
        c.eq('tensor kept', a, full)
        c.eq('spectrum kept', s, S)
        c.eq('rest kept', v, rest)
        return
    c.eq('leading part of the tensor', a, full[:, :, :k] if ax == 2 else full[:, :k, :])
    c.eq('leading spectrum', s, S[:k, :k])
    c.eq('leading rest', v, rest[:k, :])
    if given == 1:
        c.true('no more than asked', c.le(k, D))


@contract('C18', 'direct sum')
def _(c):
    t = c.mod(M)
    a1, a2, b1, b2 = [c.dim(x) for x in ('a1', 'a2', 'b1', 'b2')]
    A, B = c.arr('A', a1, a2), c.arr('B', b1, b2)
    s = t.direct_sum(A, B)
    c.shape('size', s, (a1+b1, a2+b2))
    c.eq('first block', s[:a1, :a2], A)
    c.eq('second block', s[a1:, a2:], B)
    c.zero('upper right', s[:a1, a2:])
    c.zero('lower left', s[a1:, :a2])
    c.eq('identity like', t.eye_like(A), c.eye(a1))


@contract('C18', 'unitary extension', grid=[dict(D=0), dict(D=1)])
def _(c, D):
    t = c.mod(M)
    np = c.np
    m, n = c.dim('m'), c.dim('n')
    q = c.la.qr(c.arr('A', m, n), mode='economic')[0]       # any m x k isometry
    k = q.shape[1]
    c.assume(c.le(k, m))
    DD = c.dim('D') if D else None
    for name, Q, ax in (('columns', q, 0), ('rows', np.conj(q).T, 1)):
        U = t.unitary_extension(Q, DD)
        c.true(name+': square', U.shape[0] == U.shape[1])
        c.isometry(name+': unitary', U, (ax,), 1-ax)
        a, b = Q.shape
        c.eq(name+': the given isometry is kept', U[:a, :b], Q)


@contract('C18', 'null space')
def _(c):
    t = c.mod(M)
    k, e = c.dim('k'), c.dim('e')
    n = k+e
    A = c.arr('A', k, n)
    v = t.get_null_space(A)
    c.shape('dimension', v, (n, e))
    c.zero('annihilated', A@v)
    c.isometry('orthonormal', v, (0,), 1)


@contract('C18', 'embed and deembed', 'two by two', grid=[{}])
def _(c):
    t = c.mod(M)
    np = c.np
    v = c.arr('v', 2, 2)
    u = t.embed(v)
    c.isometry('unitary', u, (0,), 1)
    n = np.linalg.norm(v)
    c.eq('first column', u[:, 0]*n, v.reshape(4))
    c.eq('deembed inverts embed', t.deembed(u)*n, v)


@contract('C18', 'embed any size')
def _(c):
    t = c.mod(M)
    np = c.np
    a, b = c.dim('a'), c.dim('b')
    v = c.arr('v', a, b)
    u = t.embed(v)
    c.shape('square', u, (a*b, a*b))
    c.isometry('unitary', u, (0,), 1)
    c.eq('first column', u[:, 0]*np.linalg.norm(v), v.reshape(a*b))


def subsets(n):
    return [list(s) for k in range(1, n+1) for s in itertools.combinations(range(n), k)]


@contract('C18', 'partial traces', 'number of subsystems', grid=[dict(n=n, keep=tuple(k)) for n in (1, 2, 3) for k in subsets(n)], thorough=[dict(n=4, keep=tuple(k)) for k in subsets(4)])
def _(c, n, keep):
    t = c.mod(M)
    s = c.mod('xmps.spin')
    np = c.np
    dims = [c.dim('d%d' % i) for i in range(n)]
    N = np.prod(dims)
    keep = list(keep)
    rest = [i for i in range(n) if i not in keep]
    u = c.arr('u', *dims)
    dk = np.prod([dims[i] for i in keep])
    r = t.ρA(u.reshape(N), keep, dims)
    c.eq('reduced density matrix', r, np.tensordot(u, np.conj(u), (rest, rest)).reshape(dk, dk))
    rho = c.arr('rho', *(dims+dims))
    ids = list(range(n))
    want = np.einsum(rho, ids+[n+i if i in keep else i for i in ids], [i for i in keep]+[n+i for i in keep]).reshape(dk, dk)
    c.eq('partial trace', t.partial_trace(rho.reshape(N, N), keep, dims), want)
    c.eq('partial trace (spin)', s.partial_trace(rho.reshape(N, N), keep, dims), want)


@contract('C18', 'transposes', 'number of legs', grid=[dict(n=n) for n in (2, 3, 4)])
def _(c, n):
    t = c.mod(M)
    np = c.np
    A = c.arr('A', *[c.dim('d%d' % i) for i in range(n)])
    p = list(range(n-2))+[n-1, n-2]
    k = c.snap(A)
    c.eq('transpose', t.T(A), np.transpose(A, p))
    c.eq('hermitian conjugate', t.H(A), np.transpose(np.conj(A), p))
    c.eq('conjugate', t.C(A), np.conj(A))
    c.unchanged('input kept', k)


@contract('C18', 'ldot and rdot')
def _(c):
    t = c.mod(M)
    np = c.np
    d, l, r, x = [c.dim(i) for i in 'dlrx']
    B = c.arr('B', d, l, r)
    m = c.arr('m', x, l)
    c.eq('ldot', t.ldot(m, B), np.einsum('xl,dlr->dxr', m, B))
    m = c.arr('n', r, x)
    c.eq('rdot', t.rdot(B, m), np.einsum('dlr,rx->dlx', B, m))


@contract('C18', 'diagonalise')
def _(c):
    t = c.mod(M)
    np = c.np
    n = c.dim('n')
    H = c.arr('H', n, n, herm=True)
    V, S = t.diagonalise(H)
    c.eq('spectral form', V@S@np.conj(V).T, H)
    c.isometry('orthonormal', V, (0,), 1)
    c.eq('diagonal', S, np.diag(np.diag(S)))


@contract('C18', 'splitting a product operator', 'local dimension', grid=[dict(d=1), dict(d=2)])
def _(c, d):
    t = c.mod(M)
    np = c.np
    if c.symbolic:
        c.allocs()
    H = c.arr('H', d, d, d, d)
    c.eq('two-site split', t.split_up(H.reshape(d*d, d*d), d), np.transpose(H, [1, 0, 3, 2]))
    if d == 2 and not c.symbolic:
        H = c.arr('K', *[2]*6)
        c.eq('three-site split', t.split_up_3(H.reshape(8, 8), 2), np.einsum('rvtswu->rstuvw', H))
    for r, s, v, w in itertools.product(range(d), repeat=4):
        c.true('position (%d,%d)x(%d,%d)' % (r, s, v, w), tuple(t.loc((r, s), (v, w), d)) == (d*r+v, d*s+w) and tuple(t.p((r, s), (v, w), d)) == (d*r+v, d*s+w))
    c.true('basis', list(t.single_basis_iterator(d)) == [(i, j) for i in range(d) for j in range(d)])
    c.true('pair basis', len(set(t.basis_iterator(d))) == d**4)


def groupings():
    out = []
    for n in (2, 3, 4):
        ps = list(itertools.permutations(range(n)))
        random.Random(n).shuffle(ps)
        for p in ps[:6]:
            for cut in ([1]*n, [n], [1, n-1], [n-1, 1]):
                i, g = 0, []
                for k in cut:
                    g.append(tuple(p[i:i+k]))
                    i += k
                out.append(tuple(g))
    return sorted(set(out))


@contract('C18', 'grouping legs', 'number of legs', grid=[dict(legs=g) for g in groupings()])
def _(c, legs):
    P = c.mod('xmps.peps_tools')
    np = c.np
    n = sum(map(len, legs))
    dims = [c.dim('d%d' % i) for i in range(n)]
    A = c.arr('A', *dims)
    perm = [i for g in legs for i in g]
    k = c.snap(A)
    B, pipe = P.group_legs(A, [list(g) for g in legs])
    c.eq('grouped', B, np.transpose(A, perm).reshape(*[np.prod([dims[i] for i in g]) for g in legs]))
    c.eq('ungroup inverts group', P.ungroup_legs(B, pipe), A)
    c.unchanged('input kept', k)
    c.true('inverse permutation', [perm[i] for i in P.inverse_transpose(perm)] == list(range(n)))
