"""the time-dependent variational principle (C11)"""
from api import contract

M = 'xmps.fMPS'
BL = 'chain length'


def null_sites(L):
    return [dict(L=n, i=i) for n in L for i in range(n)]


def generic(c, L, name='A'):
    """a state of full rank in any gauge"""
    c.precondition('the state has full rank: every left environment is positive definite')
    if c.symbolic:
        c.c.flags['full_rank_null'] = True
    m = c.mps(name, L)
    d = m.data[0].shape[0]
    for A in m.data:
        c.atmost(A.shape[2], d*A.shape[1])
        c.atmost(A.shape[1], d*A.shape[2])
    return m


@contract('C11', 'left_null_projector', BL, grid=null_sites((1, 2, 3))+[dict(x, tfd=True) for x in null_sites((2, 3))])
def _(c, L, i, tfd=False):
    """pr = sum_k W_k W_k^H with W a basis, orthonormal in the metric of the left environment, of the directions orthogonal to A"""
    np = c.np
    m = generic(c, L)
    if tfd:
        m = c.mod(M).fTFD(m.data, m.data[0].shape[0])
    t = c.snap(m)
    l, r = m.get_envs()
    A = m.data[i]
    ln = l(i-1)
    e = c.eye(1)
    for B in m.data[:i]:
        e = np.einsum('sxa,xy,syb->ab', np.conj(B), e, B)
    c.eq('left environment', ln, e)
    pr = m.left_null_projector(i, l)
    c.zero('orthogonal to the tensor', np.einsum('sac,ab,sbtd->ctd', np.conj(A), e, pr), c.size(A, e, pr))
    c.eq('hermitian', pr, np.conj(np.transpose(pr, [2, 3, 0, 1])))
    c.eq('a projector in the metric of the environment', np.einsum('satb,bc,tcud->saud', pr, e, pr), pr)
    X = c.arr('X', A.shape[0], A.shape[1], c.dim('n'))
    Y = np.einsum('tbc,bd,tdn->cn', np.conj(A), e, X)
    G = np.einsum('sxa,xy,syb->ab', np.conj(A), e, A)
    c.eq('complete', np.einsum('satb,bc,tcn->san', pr, e, X)+np.einsum('sac,cd,dn->san', A, np.linalg.inv(G), Y), X)
    c.unchanged('the state is kept', t)


def bra_gradient(c, tensors, w, n):
    """w (one index per site) contracted with the conjugate of every tensor but the n-th: the derivative of <psi|w> by conj A_n"""
    L = len(tensors)
    args = [w, list(range(L))]
    bond = lambda j: L+j
    for j, A in enumerate(tensors):
        if j == n:
            continue
        idx, ls = [slice(None)]*3, [j]
        for e, ax, b in ((j == 0, 1, bond(j)), (j == L-1, 2, bond(j+1))):
            if e:
                idx[ax] = 0
            else:
                ls.append(b)
        args += [c.np.conj(A[tuple(idx)]), ls]
    G = c.np.einsum(*args, [n]+([bond(n)] if n > 0 else [])+([bond(n+1)] if n < L-1 else []))
    return G.reshape(*tensors[n].shape)


@contract('C11', 'dA_dt', BL, grid=[dict(L=n, i=i, full=f) for n in (2, 3) for i in range(n) for f in (False, True)], thorough=[dict(L=4, i=i, full=f) for i in range(4) for f in (False, True)])
def _(c, L, i, full):
    """each tensor of the derivative is -i times the projected gradient in the metric of the environments"""
    np = c.np
    m = generic(c, L)
    d = m.data[0].shape[0]
    A = m.data
    v = c.dense(A)
    if full:
        h = c.arr('h', *[d]*(2*L))
        H, w = h.reshape(*[np.prod([d]*L)]*2), c.op(h, v, list(range(L)))
    else:
        hs = [c.arr('h%d' % k, d, d, d, d) for k in range(L-1)]
        H, w = [h.reshape(d*d, d*d) for h in hs], 0
        for k, h in enumerate(hs):
            w = c.op(h, v, [k, k+1])+w
    t = c.snap(m, H)
    l, r = m.get_envs()
    B = m.dA_dt(H, fullH=full)
    c.unchanged('the state and the Hamiltonian are kept', t)
    c.true('one tensor per site', len(B.data) == L)
    b = B.data[i]
    pr = m.left_null_projector(i, l)
    G = bra_gradient(c, A, w, i)
    e, f = l(i-1), r(i)
    c.eq('projected gradient', np.einsum('sab,bc->sac', b, f), -1j*np.einsum('satb,tbc->sac', pr, G))
    c.zero('in the left gauge', np.einsum('sac,ab,sbd->cd', np.conj(A[i]), e, b), c.size(A[i], e, b))
    z = np.einsum('sab,sab', np.conj(b), G)
    c.eq('no first-order change of the energy', z, -np.conj(z))
