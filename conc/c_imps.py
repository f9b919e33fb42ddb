"""contracts of iMPS: canonical forms, transfer maps, expectation values, energy, derivative (C13, C14, C15)"""
from base import *


def I():
    import xmps.iMPS as M
    return M


def inj(g, d=None, D=None, real=None):
    """an injective one-site tensor, of random scale and gauge"""
    d = g.pick('d', [2, 2, 3, 4]) if d is None else d
    D = g.pick('D', [1, 2, 2, 3, 3, 4, 5]) if D is None else D
    kind = g.pick('kind', ['random', 'random', 'gauged', 'left', 'gapped'])
    real = g.bool('real', .15) if real is None else real
    A = g.re(d, D, D) if real else g.cplx(d, D, D)
    if kind == 'gapped':                # dominated by one product direction plus noise
        A = A*.2
        A[0] += np.diag(np.exp(g.rng.uniform(-1, 0, D)))
    if kind == 'left':
        A = np.linalg.qr(A.reshape(d*D, D))[0].reshape(d, D, D)
    if kind == 'gauged':
        X = np.linalg.qr(g.re(D, D) if real else g.cplx(D, D))[0] @ np.diag(np.exp(g.rng.uniform(-1, 1, D)))
        A = X@A@np.linalg.inv(X)
    A = A*g.pick('scale', [1., 1., 5., .1])
    E = np.einsum('sab,scd->acbd', A, A.conj()).reshape(D*D, D*D)
    w = np.sort(np.abs(np.linalg.eigvals(E)))[::-1]
    if len(w) > 1 and w[1] > .97*w[0]:
        raise Skip()
    return A


def istate(g, A):
    """the state of a tensor, sometimes one that has held another tensor of this shape before and been worked on"""
    if not g.bool('history', .35):
        return I().iMPS([A.copy()])
    m = I().iMPS([inj(g, A.shape[0], A.shape[1])])
    for _ in range(g.int('uses', 1, 3)):
        u = g.pick('use', ['l', 'r', 'm', 'envs', 'eigs', 'E', 'overlap', 'copy'])
        if u in 'lrm':
            m.canonicalise(u)
        elif u == 'envs':
            m.get_envs()
        elif u == 'eigs':
            m.eigs()
        elif u == 'E':
            m.E(np.eye(A.shape[0]))
        elif u == 'overlap':
            m.overlap(I().iMPS([inj(g, A.shape[0], A.shape[1])]))
        else:
            m = m.copy()
    how = g.pick('new tensor', ['item', 'data item', 'data'])
    if how == 'item':
        m[0] = A.copy()
    elif how == 'data item':
        m.data[0] = A.copy()
    else:
        m.data = [A.copy()]
    return m


def fixed(A):
    """eta, l (sum A^dag l A = eta l), r (sum A r A^dag = eta r) with tr(l r) = 1, both positive"""
    d, D, _ = A.shape
    E = np.einsum('sab,scd->acbd', A, A.conj()).reshape(D*D, D*D)
    w, v = np.linalg.eig(E)
    k = np.argmax(np.abs(w))
    r = v[:, k].reshape(D, D)
    r = r/np.trace(r)
    w2, v2 = np.linalg.eig(E.conj().T)
    k2 = np.argmax(np.abs(w2))
    l = v2[:, k2].reshape(D, D)
    l = l/np.trace(l)
    r, l = (r+r.conj().T)/2, (l+l.conj().T)/2
    return w[k].real, l/np.trace(l@r), r


def per_site(A, B):
    """modulus of the dominant mixed eigenvalue of two normalised tensors"""
    return np.max(np.abs(np.linalg.eigvals(np.einsum('sab,scd->acbd', A, B.conj()).reshape(A.shape[1]*B.shape[1], -1))))


def normed(A):
    return A/np.sqrt(fixed(A)[0])


def schmidt_inf(A):
    """Schmidt coefficients of the half infinite cut"""
    eta, l, r = fixed(A)
    s = np.sqrt(np.abs(np.linalg.eigvals(l@r)))
    s = np.sort(s)[::-1]
    return s/np.linalg.norm(s)


def sdiag(L):
    return np.real(np.diag(L))


# ------------------------------------------------------------------ C13
@case('C13', 60)
def canonical_hand(g):
    A = inj(g)
    d, D, _ = A.shape
    hand = g.pick('hand', ['l', 'r', 'm', 'left', 'right'])
    m = istate(g, A)
    if hand == 'left':
        r = m.left_canonicalise()
    elif hand == 'right':
        r = m.right_canonicalise()
    else:
        hand_ = ''.join([hand])        # equal, not identical, strings
        r = m.canonicalise(hand_)
    h = hand[0]
    g.ok('returns the state itself', r is m)
    g.ok('declared form', m.canonical[0] == h)
    B, L = m.data[0], m.L
    g.close('shape kept', B.shape, A.shape)
    g.close('bond matrix is diagonal', L, np.diag(np.diag(L)), 1e-12)
    s = sdiag(L)
    g.ok('Schmidt coefficients descend and are non-negative', np.all(np.diff(s) <= 1e-9) and np.all(s >= -1e-12), s)
    g.close('normalised Schmidt coefficients', np.sum(s**2), 1, 1e-9)
    g.close('spectrum of the half-infinite cut', s**2, schmidt_inf(A)**2, 1e-6)
    g.close('same state (fidelity per site)', per_site(B, normed(A)), 1, 1e-7)
    one = np.eye(D)
    if h == 'l':
        g.close('left isometry', left_iso(B), one, 1e-7)
        g.close('squared spectrum is the right fixed point', np.einsum('sab,bc,sdc->ad', B, L@L, B.conj()), L@L, 1e-7)
    elif h == 'r':
        g.close('right isometry', right_iso(B), one, 1e-7)
        g.close('squared spectrum is the left fixed point', np.einsum('sab,ac,scd->bd', B.conj(), L@L, B), L@L, 1e-7)
    else:
        g.close('symmetric form: spectrum is the right fixed point', np.einsum('sab,bc,sdc->ad', B, L, B.conj()), L, 1e-7)
        g.close('symmetric form: spectrum is the left fixed point', np.einsum('sab,ac,scd->bd', B.conj(), L, B), L, 1e-7)


@case('C13', 30)
def vidal(g):
    A = inj(g)
    d, D, _ = A.shape
    v = istate(g, A).canonicalise(to_vidal=True)
    G, L = v.data[0]
    one = np.eye(D)
    g.close('L G is a left isometry', left_iso(L@G), one, 1e-7)
    g.close('G L is a right isometry', right_iso(G@L), one, 1e-7)
    s = sdiag(L)
    g.close('spectrum of the half-infinite cut', s**2, schmidt_inf(A)**2, 1e-6)
    k = v.to_iMPS()
    g.close('back from Vidal form', per_site(k.data[0], normed(A)), 1, 1e-7)


@case('C13', 30)
def canonicalise_twice(g):
    A = inj(g)
    m = istate(g, A)
    for _ in range(g.int('n', 2, 4)):
        m.canonicalise(g.pick('hand', ['l', 'r', 'm']))
    g.close('sequences of canonicalisations keep the state', per_site(m.data[0], normed(A)), 1, 1e-7)
    g.close('and its spectrum', sdiag(m.L)**2, schmidt_inf(A)**2, 1e-6)


@case('C13', 20)
def mixed_gauge(g):
    A = inj(g)
    d, D, _ = A.shape
    m = istate(g, normed(A))
    AL, AR, Cc = m.mixed(1e-12)
    AL, AR = AL.data[0], AR.data[0]
    one = np.eye(D)
    g.close('left tensor is a left isometry', left_iso(AL), one, 1e-7)
    g.close('right tensor is a right isometry', right_iso(AR), one, 1e-7)
    x, y = AL@Cc, Cc@AR
    g.close('the centre intertwines them', x, y*(np.vdot(y, x)/np.vdot(y, y)), 1e-6)
    g.close('up to a phase', abs(np.vdot(y, x)/np.vdot(y, y)), 1, 1e-6)
    g.close('left tensor is the state', per_site(AL, normed(A)), 1, 1e-7)
    g.close('right tensor is the state', per_site(AR, normed(A)), 1, 1e-7)
    g.close('centre holds the spectrum', (np.linalg.svd(Cc, compute_uv=False)/np.linalg.norm(Cc))**2, schmidt_inf(A)**2, 1e-6)


@case('C13', 20)
def vidal_canonicalise(g):
    d, D = g.pick('d', [2, 3]), g.int('D', 1, 4)
    G, L = g.cplx(d, D, D), np.diag(np.sort(g.re(D)**2+.05)[::-1])
    if g.bool('real', .2):
        G = G.real.copy()
    A = G@L
    E = np.einsum('sab,scd->acbd', A, A.conj()).reshape(D*D, D*D)
    w = np.sort(np.abs(np.linalg.eigvals(E)))[::-1]
    if D > 1 and w[1] > .9*w[0]:
        raise Skip()
    v = I().ivMPS([(G.copy(), L.copy())])
    v.canonicalise()
    G2, L2 = v.data[0]
    one = np.eye(D)
    g.close('GL is a right isometry', right_iso(G2@L2), one, 1e-6)
    g.close('LG is a left isometry', left_iso(L2@G2), one, 1e-6)
    g.close('spectrum', np.sort(sdiag(L2)**2)[::-1], schmidt_inf(A)**2, 1e-6)
    g.close('same state', per_site(G2@L2, normed(A)), 1, 1e-6)


@case('C13', 20)
def infinite_overlap(g):
    D = g.int('D', 1, 4)
    A = inj(g, D=D)
    d = A.shape[0]
    B = inj(g, d=d, D=D)
    o = istate(g, A).overlap(istate(g, B))
    g.close('overlap with itself', abs(np.ravel(I().iMPS([A.copy()]).overlap(I().iMPS([A.copy()])))[0]), 1, 1e-6)
    g.close('overlap is the squared dominant mixed eigenvalue', abs(np.ravel(o)[0]), per_site(normed(A), normed(B))**2, 1e-6)


# ------------------------------------------------------------------ C14
@case('C14', 80)
def map_sums(g):
    d, D = g.int('d', 1, 4), g.int('D', 1, 5)
    A, B, X = g.cplx(d, D, D), g.cplx(d, D, D), g.cplx(D, D)
    if g.bool('real', .15):
        A = A.real.copy()
    m = I().Map(A, B)
    r = np.einsum('sab,bc,sdc->ad', A, X, B.conj())
    l = np.einsum('sba,bc,scd->ad', A.conj(), X, B)
    g.close('forward map is the sum of A X B^dagger', m.mv(X.reshape(-1)), r.reshape(-1), 1e-10)
    g.close('reverse map is the sum of A^dagger X B', m.mvr(X.reshape(-1)), l.reshape(-1), 1e-10)
    g.close('its matrix acts in the same way', m.asmatrix()@X.reshape(-1), r.reshape(-1), 1e-10)
    op = m.aslinearoperator()
    g.close('linear operator', op@X.reshape(-1), r.reshape(-1), 1e-10)
    g.close('adjoint linear operator', op.H@X.reshape(-1), l.reshape(-1), 1e-10)
    Y = g.cplx(D, D)
    g.close('the reverse map is the adjoint', np.vdot(Y, m.mv(X.reshape(-1)).reshape(D, D)), np.vdot(m.mvr(Y.reshape(-1)).reshape(D, D), X), 1e-10)


@case('C14', 40)
def map_fixed_points(g):
    A = inj(g)
    d, D, _ = A.shape
    same = g.bool('same', .4)
    A = normed(A)
    B = A if same else normed(inj(g, d=d, D=D))
    m = I().Map(A, B)
    E = np.einsum('sab,scd->acbd', A, B.conj()).reshape(D*D, D*D)
    w = np.sort(np.abs(np.linalg.eigvals(E)))[::-1]
    if D > 1 and w[1] > .97*w[0]:
        raise Skip()
    start = g.pick('start', [None, None, 'random', 'eigenvector'])
    r0 = l0 = None
    if start == 'random':
        r0, l0 = g.cplx(D, D), g.cplx(D, D)
    elif start == 'eigenvector':
        k = g.int('which', 0, D*D-1)
        r0, l0 = [np.linalg.eig(x)[1][:, k].reshape(D, D) for x in (E, E.conj().T)]
    eta, r = m.right_fixed_point(r0=r0)
    g.close('eigenvalue of largest modulus', abs(np.ravel(eta)[0]), w[0], 1e-7)
    g.close('right fixed point', m.mv(r.reshape(-1)).reshape(D, D), np.ravel(eta)[0]*r, 1e-6)
    eta, l = m.left_fixed_point(l0=l0)
    x = m.mvr(l.reshape(-1)).reshape(D, D)
    g.fid('left fixed point', x, l, 1e-6)
    g.close('left eigenvalue', np.linalg.norm(x)/np.linalg.norm(l), w[0], 1e-6)
    g.close('left fixed point is normalised', np.linalg.norm(l), 1, 1e-8)
    lam = 1/np.ravel(m.right_fixed_point()[0])[0]
    g.ok('recognises its right eigenvector', m.is_right_eigenvector(r, lam))
    g.ok('rejects other matrices', D == 1 or not m.is_right_eigenvector(r+g.cplx(D, D), lam))
    ev = np.vdot(l, x)/np.vdot(l, l)
    g.ok('recognises its left eigenvector', m.is_left_eigenvector(l, 1/ev))
    g.ok('rejects other matrices on the left', D == 1 or not m.is_left_eigenvector(l+g.cplx(D, D), 1/ev))


@case('C14', 60)
def transfer(g):
    d, D = g.int('d', 1, 4), g.int('D', 1, 5)
    A, X = g.cplx(d, D, D), g.cplx(D, D)
    t = I().TransferMatrix(A)
    r = np.einsum('sab,bc,sdc->ad', A, X, A.conj())
    g.close('transfer matrix is the sum of A X A^dagger', t.mv(X.reshape(-1)), r.reshape(-1), 1e-10)
    M = t.asmatrix()
    g.close('its matrix acts in the same way', M@X.reshape(-1), r.reshape(-1), 1e-10)
    g.close('its matrix is A (x) conj A', M, sum(np.kron(a, a.conj()) for a in A), 1e-10)
    l = np.einsum('sba,bc,scd->ad', A, X, A.conj())
    g.close('its transpose', t.mvr(X.reshape(-1)), l.reshape(-1), 1e-10)
    g.close('transposed product', t.mvr(X.reshape(-1)), M.T@X.reshape(-1), 1e-10)
    g.close('state hands out its transfer matrix', I().iMPS([A]).transfer_matrix().mv(X.reshape(-1)), r.reshape(-1), 1e-10)


@case('C14', 40)
def transfer_eigenvectors(g):
    A = inj(g)
    d, D, _ = A.shape
    eta, l0, r0 = fixed(A)
    how = g.pick('how', ['tm', 'state', 'envs'])
    if how == 'tm':
        w0 = [g.cplx(D, D), g.cplx(D, D)] if g.bool('start', .3) else [None, None]
        e, l, r = I().TransferMatrix(A).eigs(*w0)
    elif how == 'state':
        e, l, r = istate(g, A).eigs()
    else:
        l, r = istate(g, A).get_envs()
        e = np.array([eta])
    g.close('dominant eigenvalue', np.ravel(e)[0], eta, 1e-7, scale=eta)
    g.fid('right eigenvector', r, r0, 1e-6)
    g.fid('left eigenvector', l, l0.T, 1e-6)
    g.close('normalised pair', np.trace(l@r), 1, 1e-7)
    g.close('right eigenvector is hermitian', r, r.conj().T, 1e-6)
    g.close('left eigenvector is hermitian', l, l.conj().T, 1e-6)
    g.ok('positive', np.linalg.eigvalsh(r)[0] > -1e-7 and np.linalg.eigvalsh(l)[0] > -1e-7)


# ------------------------------------------------------------------ C15
def exact_E(A, op):
    eta, l, r = fixed(A)
    return np.einsum('sab,bc,tdc,da,ts->', A, r, A.conj(), l, op)/eta


@case('C15', 60)
def infinite_expectation(g):
    A = inj(g)
    d, D, _ = A.shape
    op = g.herm(d)
    want = exact_E(A, op).real
    c = g.pick('c', [None, 'l', 'r', 'm', 'vidal'])
    m = istate(g, A)
    ops = [op, g.herm(d)]
    want2 = exact_E(A, ops[1]).real
    if c == 'vidal':
        v = m.canonicalise(to_vidal=True)
        g.close('expectation value in Vidal form', v.E(op), want, 1e-6)
        return
    if c is not None:
        m.canonicalise(c)
    g.close('expectation value', m.E(op, c), want, 1e-6)
    if c is None:
        m = istate(g, A)
    es = m.Es(ops, c)
    g.close('several expectation values', np.array([np.ravel(x)[0] for x in es]), [want, want2], 1e-6)
    if c is None:
        one, k = np.eye(D), m.canonical
        g.ok('the form it is left in is the one it declares', k is None or np.array_equal(m.data[0], A) or
             np.allclose((left_iso if k == 'l' else right_iso)(m.data[0]), one, atol=1e-6), k)
    g.close('one and several agree on the identity', np.ravel(I().iMPS([A.copy()]).E(np.eye(d)))[0], 1, 1e-7)


def two_site(A, h):
    eta, l, r = fixed(A)
    d = A.shape[0]
    h = h.reshape(d, d, d, d)
    AA = np.einsum('sab,tbc->stac', A, A)
    hAA = np.einsum('uvst,stac->uvac', h, AA)
    return np.einsum('uvac,cd,uved,ea->', hAA, r, AA.conj(), l).real/eta**2


@case('C15', 50)
def energy(g):
    A = inj(g)
    d, D, _ = A.shape
    h = g.herm(d*d)
    m = istate(g, A)
    want = two_site(A, h)
    hand = g.pick('hand', ['l', 'r', 'm', ''])
    if hand:
        m.canonicalise(hand)
    if g.bool('another gauge', .4):
        G = g.unitary(D) if g.bool('unitary', .5) else g.cplx(D, D)
        if np.linalg.cond(G) > 30:
            raise Skip()
        m = I().iMPS([np.linalg.inv(G)@m.data[0]@G])
    g.close('energy is the two-site expectation value', m.energy([h]), want, 1e-6, scale=np.linalg.norm(h))


def projected(A, h):
    """tangent space projection of -i(H-e) for a left canonical A: B with sum A^dag B = 0 minimising |B - ...|"""
    # gradient by finite unit cell: derivative of the energy density with respect to conj(A), by exact resolvents
    d, D, _ = A.shape
    eta, l, r = fixed(A)
    h4 = h.reshape(d, d, d, d)
    e = two_site(A, h)
    h4 = h4-e*np.eye(d*d).reshape(d, d, d, d)
    AA = np.einsum('sab,tbc->stac', A, A)
    hAA = np.einsum('uvst,stac->uvac', h4, AA)
    # left canonical: l = 1
    E = np.einsum('sab,scd->acbd', A, A.conj()).reshape(D*D, D*D)      # acts on r (ket, bra)
    hl = np.einsum('uvac,uvad->cd', hAA, AA.conj())          # left vector (ket, bra), l = 1 on the left
    P = np.outer(r.reshape(-1), np.eye(D).reshape(-1))/np.trace(r)
    K = np.linalg.solve((np.eye(D*D)-E+P).T, (hl.reshape(-1)-hl.reshape(-1)@P)).reshape(D, D)   # (ket, bra)
    # gradient with respect to conj(A) with right environment r
    G = np.einsum('uvac,cd,ved->uae', hAA, r, A.conj())            # bra site on the left of the pair
    G = G+np.einsum('uvac,uad->vdc', hAA, A.conj())@r               # bra site on the right of the pair
    G = G+np.einsum('ab,sac,cd->sbd', K, A, r)                      # everything to the left
    # project: B = N x r^-1/2 ...; metric is tr(B^dag B r), constraint sum A^dag B = 0
    Q = np.linalg.svd(A.reshape(d*D, D), full_matrices=True)[0][:, D:]
    B = (Q@Q.conj().T@G.reshape(d*D, D))@np.linalg.inv(r)
    return -1j*B.reshape(d, D, D)


@case('C15', 40)
def derivative(g):
    d, D = g.pick('d', [2, 2, 3]), g.int('D', 1, 4)
    if g.bool('random_state', .5):
        A = inj(g, d=d, D=D)
    else:
        A = g.cplx(d, D, D)
    if (D*(d-1)) < 1:
        raise Skip()
    m = istate(g, A).left_canonicalise()
    A = m.data[0].copy()
    s = sdiag(m.L)
    if s.min() < .03:
        raise Skip()
    h = g.herm(d*d)
    if g.bool('another gauge', .4):
        Q = g.unitary(D)
        A = Q.conj().T@A@Q
        m = I().iMPS([A.copy()])
    B = m.dA_dt([h])
    g.close('gauge orthogonal to the state', np.einsum('sab,sac->bc', A.conj(), B.data[0]), np.zeros((D, D)), 1e-6, scale=np.linalg.norm(h)/s.min())
    g.close('projected gradient', B.data[0], projected(A, h), 1e-5, scale=np.linalg.norm(h)/s.min())
    g.close('records the energy density', np.real(m.e), two_site(A, h), 1e-6, scale=np.linalg.norm(h))
    # energy is stationary to first order
    e0 = two_site(A, h)
    t = 1e-5
    e1 = two_site(A+t*B.data[0], h)
    e2 = two_site(A-t*B.data[0], h)
    g.close('energy stationary along the flow', (e1-e2)/(2*t), 0, 1e-4, scale=np.linalg.norm(h)*max(1, np.linalg.norm(B.data[0])))


@case('C15', 20)
def eigenstates_do_not_move(g):
    """a product eigenstate padded to bond dimension two by a unitary mixing keeps zero derivative: H annihilates the pair"""
    d, D = 2, g.int('D', 1, 3)
    A = inj(g, d=d, D=D)
    m = istate(g, A).left_canonicalise()
    if sdiag(m.L).min() < .03:
        raise Skip()
    c = g.real('c')
    B = m.dA_dt([c*np.eye(d*d)])
    g.close('multiples of the identity generate no motion', B.data[0], np.zeros_like(B.data[0]), 1e-6)
    h1 = g.herm(d)
    # telescoping terms h1 (x) 1 - 1 (x) h1 sum to zero
    B = m.dA_dt([np.kron(h1, np.eye(d))-np.kron(np.eye(d), h1)])
    g.close('telescoping terms generate no motion', B.data[0], np.zeros_like(B.data[0]), 1e-5, scale=np.linalg.norm(h1)/sdiag(m.L).min())


@case('C15', 15)
def environments_of_the_hamiltonian(g):
    d, D = 2, g.int('D', 1, 3)
    A = inj(g, d=d, D=D)
    m = istate(g, A).left_canonicalise()
    if sdiag(m.L).min() < .03:
        raise Skip()
    A = m.data[0]
    r = (m.L@m.L)
    h = g.herm(d*d)
    e = two_site(A, h)
    h4 = (h-e*np.eye(d*d)).reshape(d, d, d, d)
    AA = np.einsum('sab,tbc->stac', A, A)
    hAA = np.einsum('uvst,stac->uvac', h4, AA)
    hl = np.einsum('uvac,uvad->dc', hAA, AA.conj())     # (bra, ket)
    x = np.real(np.trace(m.eigs()[1]))/D
    K = m.Lh([h]).T/x
    res = K-np.einsum('sab,ac,scd->bd', A.conj(), K, A)-hl
    g.close('left environment solves its resolvent equation', res, np.zeros((D, D)), 1e-5, scale=np.linalg.norm(h)/sdiag(m.L).min())
    g.close('and has no overlap with the fixed point', np.trace(K@r), 0, 1e-5, scale=np.linalg.norm(h)/sdiag(m.L).min())


# ------------------------------------------------------------------ C24
@case('C24', 60)
def infinite_copies(g):
    A = inj(g)
    m = istate(g, A)
    if g.bool('form', .5):
        m.canonicalise(g.pick('hand', ['l', 'r', 'm']))
    if g.bool('envs', .5):
        m.get_envs()
    att = {k: np.array(getattr(m, k)) for k in ('l', 'r') if hasattr(m, k)}
    keep = m.data[0].copy()
    n = m.copy()
    g.ok('copy has the same tensor', np.array_equal(n.data[0], keep))
    g.ok('no shared memory', not np.shares_memory(n.data[0], m.data[0]))
    a, b = (n, m) if g.bool('which', .6) else (m, n)
    for _ in range(g.int('n', 1, 3)):
        u = g.pick('use', ['l', 'r', 'm', 'E', 'overlap', 'write', 'envs'])
        if u in 'lrm':
            a.canonicalise(u)
        elif u == 'E':
            a.E(g.herm(A.shape[0]), None)
        elif u == 'overlap':
            a.overlap(I().iMPS([inj(g, A.shape[0], A.shape[1])]))
        elif u == 'envs':
            a.get_envs()
        elif g.bool('scale'):
            a.data[0] *= 2
        else:
            a.data[0][0] = a.data[0][0].T.copy()+np.eye(A.shape[1])
    g.ok('the other one keeps its tensor', np.array_equal(b.data[0], keep))
    for k, x in att.items():
        if hasattr(b, k):
            g.ok('and its environments', np.array_equal(getattr(b, k), x))
