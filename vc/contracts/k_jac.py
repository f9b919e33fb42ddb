"""the Jacobian of the projected evolution (C26): every block of jac is a matrix element between tangent vectors"""
from api import contract
from k_tdvp import generic

BL = 'chain length'


def pairs(*Ls):
    return [dict(L=n, i=i, j=j) for n in Ls for i in range(n) for j in range(n)]


class At(dict):
    """environments by bond, -1 for the left end"""


def inverses(c, m, l, r):
    """the factors of the environments, l = cl^H cl and r = cr cr^H, and their inverses, by site (-1: the left end)"""
    np = c.np
    inv, ch = np.linalg.inv, np.linalg.cholesky
    H = lambda x: np.conj(np.transpose(x))
    cr, cl = {n: ch(r(n)) for n in range(m.L)}, {n: ch(l(n)) for n in range(-1, m.L)}
    return tuple(At(x) for x in ({n: inv(x) for n, x in cr.items()}, {n: H(inv(x)) for n, x in cl.items()}, cr, {n: H(x) for n, x in cl.items()}))


def v_(c, m, l, n):
    return m.left_null_projector(n, l, get_vL=True)[1].shape[2]


def frame(c, m, l, invs, n, orthonormal=True):
    """the orthonormal tangent vectors of site n: B[x, y] = cl^-1 v_L[.., x] (x) y cr^-1"""
    icr, icl, _, _ = invs
    _, v = m.left_null_projector(n, l, get_vL=True)
    return c.np.einsum('ab,sbx,yc->sacxy', icl[n-1], v, icr[n] if orthonormal else c.eye(icr[n].shape[0]))


def state(c, As, at):
    """the state with the tensors of `at` ({site: tensor with two further legs}) put in: physical legs, then the further legs site by site"""
    np = c.np
    args, L, k, extra = [], len(As), 3*len(As), []
    for n, A in enumerate(As):
        idx, ls = [slice(None)]*3, [n]
        for end, ax, b in ((n == 0, 1, L+n), (n == L-1, 2, L+n+1)):
            if end:
                idx[ax] = 0
            else:
                ls.append(b)
        if n in at:
            args += [at[n][tuple(idx)], ls+[k, k+1]]
            extra += [k, k+1]
            k += 2
        else:
            args += [A[tuple(idx)], ls]
    return np.einsum(*args, list(range(L))+extra)


def terms(c, L, d, hermitian):
    np = c.np
    hs = [c.arr('h%d' % k, d, d, d, d) for k in range(L-1)]
    return [h+np.conj(np.transpose(h, [2, 3, 0, 1])) for h in hs] if hermitian else hs


def applied(c, hs, v):
    w = 0
    for k, h in enumerate(hs):
        w = c.op(h, v, [k, k+1])+w
    return w


@contract('C26', 'F1', BL, grid=pairs(2, 3), thorough=pairs(4))
def _(c, L, i, j):
    """F1(i, j) = <d_i psi|H|d_j psi> in the orthonormal frame of the tangent space"""
    np = c.np
    m = generic(c, L)
    A = m.data
    d = A[0].shape[0]
    hs = terms(c, L, d, j < i)
    l, r = m.get_envs()
    invs = inverses(c, m, l, r)
    t = c.snap(m)
    G = m.F1(i, j, [h.reshape(d*d, d*d) for h in hs], inv_envs=invs)
    c.unchanged('the state is kept', t)
    bra, ket = state(c, A, {i: frame(c, m, l, invs, i)}), state(c, A, {j: frame(c, m, l, invs, j)})
    want = np.tensordot(np.conj(bra), applied(c, hs, ket), (list(range(L)), list(range(L))))
    c.eq('matrix element', G, want)


@contract('C26', 'F2', BL, grid=pairs(2, 3), thorough=pairs(4))
def _(c, L, i, j):
    """F2(i, j) = <d_i d_j psi|H|psi> in the orthonormal frame of the tangent space, zero for i = j"""
    np = c.np
    m = generic(c, L)
    A = m.data
    d = A[0].shape[0]
    hs = terms(c, L, d, False)
    l, r = m.get_envs()
    invs = inverses(c, m, l, r)
    t = c.snap(m)
    G = m.F2(i, j, [h.reshape(d*d, d*d) for h in hs], inv_envs=invs)
    c.unchanged('the state is kept', t)
    Bi, Bj = frame(c, m, l, invs, i), frame(c, m, l, invs, j)
    if i == j:
        c.zero('no second variation of one tensor', G, 1)
        return
    bra = state(c, A, {i: Bi, j: Bj})
    want = np.tensordot(np.conj(bra), applied(c, hs, c.dense(A)), (list(range(L)), list(range(L))))
    if j < i:
        want = np.transpose(want, [2, 3, 0, 1])
    c.eq('matrix element', G, want)


@contract('C26', 'christoffel', BL, grid=pairs(2, 3), thorough=pairs(4))
def _(c, L, i, j):
    """christoffel(i, j, k) closed with the metric of a variation X in the left gauge at k = min(i, j): -<d_i d_j psi|d_k psi X>"""
    np = c.np
    m = generic(c, L)
    A = m.data
    k = min(i, j)
    l, r = m.get_envs()
    invs = inverses(c, m, l, r)
    _, v = m.left_null_projector(k, l, get_vL=True)
    x = c.arr('x', v.shape[2], A[k].shape[2])
    X = np.einsum('ab,sbx,xc->sac', invs[1][k-1], v, x)
    t = c.snap(m)
    G = m.christoffel(i, j, k, closed=(None, None, l(k-1)@X@r(k)))
    c.unchanged('the state is kept', t)
    if i == j:
        c.zero('no second variation of one tensor', G, 1)
        return
    # both sides multiplied by the (invertible) factors of the right environments
    G = np.einsum('xyuv,ay,bv->xaub', G.reshape(v_(c, m, l, i), A[i].shape[2], v_(c, m, l, j), A[j].shape[2]), np.conj(invs[2][i]), np.conj(invs[2][j]))
    bra = state(c, A, {i: frame(c, m, l, invs, i, False), j: frame(c, m, l, invs, j, False)})
    ket = c.dense([X if n == k else B for n, B in enumerate(A)])
    want = -np.tensordot(np.conj(bra), ket, (list(range(L)), list(range(L))))
    if j < i:
        want = np.transpose(want, [2, 3, 0, 1])
    c.eq('matrix element', G, want)


@contract('C26', 'jac', BL, grid=[dict(L=2)], thorough=[dict(L=3)])
def _(c, L):
    """jac: one block per pair of sites that have tangent directions, in the order of the sites: -i F1, -i F2 and the
    Christoffel symbol closed with the evolution of the state, whose values are the contracts above"""
    np = c.np
    inv, ch = np.linalg.inv, np.linalg.cholesky
    c.dim('d', 2)
    m = generic(c, L)
    A = m.data
    d = A[0].shape[0]
    hs = [h.reshape(d*d, d*d) for h in terms(c, L, d, True)]
    t = c.snap(m)
    J1, J2, G2 = m.jac(hs, real_matrix=False)
    c.unchanged('the state is kept', t)
    # the state is normalised: the environment right of the last site is the one left of the first
    l, r = m.get_envs()
    cr, cl = [ch(r(n)) for n in range(L)], [np.conj(np.transpose(ch(l(n)))) for n in range(L)]
    invs = [inv(x) for x in cr], [inv(x) for x in cl], cr, cl
    pv = [m.left_null_projector(n, l, get_vL=True) for n in range(L)]
    B = m.dA_dt(hs, prs_vLs=pv).data
    size = [pv[n][1].shape[2]*A[n].shape[2] for n in range(L)]
    for x in J1, J2, G2:
        c.true('as many rows and columns as tangent directions', c.same(x.shape[0], sum(size)) and c.same(x.shape[1], sum(size)))
    lo = [sum(size[:n]) for n in range(L)]
    for i in range(L):
        for j in range(L):
            if c.same(size[i], 0) or c.same(size[j], 0):
                continue
            k = min(i, j)
            sub = slice(lo[i], lo[i]+size[i]), slice(lo[j], lo[j]+size[j])
            at = 'block %d, %d: ' % (i, j)
            kw = dict(envs=(l, r), prs_vLs=pv)
            c.eq(at+'-i F1', J1[sub], -1j*m.F1(i, j, hs, inv_envs=invs, **kw).reshape(size[i], size[j]))
            c.eq(at+'-i F2', J2[sub], -1j*m.F2(i, j, hs, inv_envs=invs, **kw).reshape(size[i], size[j]))
            c.eq(at+'Christoffel', G2[sub], m.christoffel(i, j, k, closed=(None, None, l(k-1)@B[k]@r(k)), **kw).reshape(size[i], size[j]))
