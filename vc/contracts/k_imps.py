from api import contract

M = 'xmps.iMPS'


@contract('C14', 'map of two families')
def _(c):
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d'), c.dim('D')
    A, B = c.arr('A', d, D, D), c.arr('B', d, D, D)
    X, Y = c.arr('X', D, D), c.arr('Y', D, D)
    m = I.Map(A, B)
    k = c.snap(A, B, X)
    fwd = np.einsum('sab,bc,sdc->ad', A, X, np.conj(B))
    back = np.einsum('sba,bc,scd->ad', np.conj(A), X, B)
    c.eq('sum of A X B^dagger', m.mv(X.reshape(D*D)), fwd.reshape(D*D))
    c.eq('sum of A^dagger X B', m.mvr(X.reshape(D*D)), back.reshape(D*D))
    c.eq('matrix argument', m.mv(X), fwd.reshape(D*D))
    c.eq('matrix argument, reversed', m.mvr(X), back.reshape(D*D))
    c.eq('its matrix acts in the same way', m.asmatrix()@X.reshape(D*D), fwd.reshape(D*D))
    c.eq('its matrix reversed', np.conj(m.asmatrix()).T@X.reshape(D*D), back.reshape(D*D))
    op = m.aslinearoperator()
    c.eq('linear operator', op.matvec(X.reshape(D*D)), fwd.reshape(D*D))
    c.eq('adjoint', op.rmatvec(X.reshape(D*D)), back.reshape(D*D))
    c.eq('the reverse is the adjoint', c.vdot(Y.reshape(D*D), m.mv(X)), c.vdot(m.mvr(Y), X.reshape(D*D)))
    c.true('shape', len(m.shape) == 2 and m.shape[0] == D*D and m.shape[1] == D*D)
    c.unchanged('inputs', k)


@contract('C14', 'transfer matrix')
def _(c):
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d'), c.dim('D')
    A, X = c.arr('A', d, D, D), c.arr('X', D, D)
    t = I.TransferMatrix(A)
    k = c.snap(A, X)
    fwd = np.einsum('sab,bc,sdc->ad', A, X, np.conj(A))
    tr = np.einsum('sba,bc,scd->ad', A, X, np.conj(A))
    c.eq('sum of A X A^dagger', t.mv(X.reshape(D*D)), fwd.reshape(D*D))
    c.eq('transposed sum', t.mvr(X.reshape(D*D)), tr.reshape(D*D))
    W = t.asmatrix()
    c.eq('matrix', W, np.einsum('sab,scd->acbd', A, np.conj(A)).reshape(D*D, D*D))
    c.eq('matrix product', W@X.reshape(D*D), fwd.reshape(D*D))
    c.eq('transposed matrix product', W.T@X.reshape(D*D), tr.reshape(D*D))
    c.eq('of a state', I.iMPS([A]).transfer_matrix().mv(X.reshape(D*D)), fwd.reshape(D*D))
    c.eq('linear operator', t.aslinearoperator().matvec(X.reshape(D*D)), fwd.reshape(D*D))
    c.unchanged('inputs', k)


@contract('C14', 'normalised eigenvector pairs')
def _(c):
    """what every contract on infinite states assumes of TransferMatrix.eigs"""
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d'), c.dim('D')
    A = c.injective('A', d, D)
    c.dominant(I)
    k = c.snap(A)
    eta, l, r = I.TransferMatrix(A).eigs()
    eta = c.num(eta)
    c.eq('right eigenmatrix', np.einsum('sab,bc,sdc->ad', A, r, np.conj(A)), eta*r)
    c.eq('left eigenmatrix', np.einsum('sba,bc,scd->ad', A, l, np.conj(A)), eta*l)
    c.eq('right one is hermitian', np.conj(r).T, r)
    c.eq('left one is hermitian', np.conj(l).T, l)
    c.eq('normalised', np.trace(l@r), c.const(1.))
    c.eq('real eigenvalue', np.conj(eta), eta)
    c.unchanged('the tensor is kept', k)


@contract('C14', 'fixed points of a map', grid=[dict(side=s, rotate=r) for s, r in (('right', True), ('right', False), ('left', True))])
def _(c, side, rotate):
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d'), c.dim('D')
    A, B = c.injective('A', d, D), c.arr('B', d, D, D)
    c.dominant(I)
    k = c.snap(A, B)
    m = I.Map(A, B)
    if side == 'right':
        eta, r = m.right_fixed_point(rotate=rotate)
        c.shape('a matrix', r, (D, D))
        c.eq('eigenvector', np.einsum('sab,bc,sdc->ad', A, r, np.conj(B)), c.num(eta)*r)
    else:
        eta, r = m.left_fixed_point()
        c.shape('a matrix', r, (D, D))
        c.eq('eigenvector of the reversed map', np.einsum('sba,bc,scd->ad', np.conj(A), r, B), c.num(eta)*r)
        c.eq('of norm one', np.einsum('ab,ab->', np.conj(r), r), c.const(1.))
    c.unchanged('the tensors are kept', k)


HANDS = [dict(hand=h) for h in ('l', 'r', 'm', 'vidal')]


@contract('C13', 'canonical forms from the fixed points', grid=HANDS, note='assumes the contract of TransferMatrix.eigs')
def _(c, hand):
    """given the fixed points (contract of the callee), the tensor is an isometry and the spectrum the other fixed point"""
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d', 2), c.dim('D')
    c.fixed_points(I)
    A = c.injective('A', d, D)
    m = I.iMPS([A])
    if hand == 'vidal':
        v = m.canonicalise(to_vidal=True)
        G, L = v.data[0]
    else:
        r = m.canonicalise(hand)
        c.true('the state itself', r is m)
        c.true('declared', m.canonical == hand)
        L, B = m.L, m.data[0]
        c.shape('shape', B, (d, D, D))
    c.eq('normalised spectrum', np.trace(L@L), c.const(1.))
    c.eq('diagonal', L, np.diag(np.diag(L)))
    if hand == 'l':
        c.left_iso('left isometry', B)
        c.eq('right fixed point', np.einsum('sab,bc,sdc->ad', B, L@L, np.conj(B)), L@L)
    elif hand == 'r':
        c.right_iso('right isometry', B)
        c.eq('left fixed point', np.einsum('sab,ac,scd->bd', np.conj(B), L@L, B), L@L)
    elif hand == 'm':
        c.eq('right fixed point', np.einsum('sab,bc,sdc->ad', B, L, np.conj(B)), L)
        c.eq('left fixed point', np.einsum('sab,ac,scd->bd', np.conj(B), L, B), L)
    else:
        c.left_iso('L G', L@G)
        c.right_iso('G L', G@L)
        c.eq('back', v.to_iMPS().data[0], G@L)


@contract('C15', 'expectation values in a declared form', grid=[dict(hand=h) for h in ('l', 'r', 'm', None)], note='assumes the contract of TransferMatrix.eigs')
def _(c, hand):
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d', 2), c.dim('D')
    c.fixed_points(I)
    A = c.injective('A', d, D)
    op, op2 = c.arr('o', d, d, herm=True), c.arr('p', d, d, herm=True)
    eta, l, r = I.TransferMatrix(A).eigs()
    # tr(l^T A_s r A_t^dagger) / (eta tr(l^T r))
    rho = np.einsum('sab,bc,tdc,ad->st', A, r, np.conj(A), l)
    n = np.einsum('ab,ab->', r, l)
    def state():
        m = I.iMPS([A])
        return m if hand is None else m.canonicalise(hand)
    m = state()
    for name, o in (('first', op), ('second', op2)):
        want = np.einsum('st,ts->', rho, o)
        c.eq('expectation value, '+name, c.num(m.E(o, hand))*n*c.num(eta), want)
        if hand is None:
            m = state()
    es = m.Es([op, op2], hand)
    c.eq('several', c.num(es[1])*n*c.num(eta), np.einsum('st,ts->', rho, op2))
    c.eq('several, first', c.num(es[0])*n*c.num(eta), np.einsum('st,ts->', rho, op))


@contract('C15', 'energy of a canonical state', grid=[dict(hand=h) for h in 'lr'], note='assumes the contract of TransferMatrix.eigs')
def _(c, hand):
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d', 2), c.dim('D')
    A, l, r = c.canonical(I, 'A', d, D, hand)
    h = c.arr('h', d, d, d, d, herm=True)
    m = I.iMPS([A])
    hAA = np.einsum('uvst,sab,tbc->uvac', h, A, A)
    e = np.einsum('uvac,cd,ube,ved,ab->', hAA, r, np.conj(A), np.conj(A), l)
    k = c.snap(m, h)
    c.eq('two-site expectation value', m.energy([h.reshape(d*d, d*d)]), np.real(e))
    c.unchanged('inputs', k)


@contract('C15', 'energy in any gauge', note='assumes the contract of TransferMatrix.eigs')
def _(c):
    """no canonical form, gauge or normalisation is needed: the energy is the two-site expectation value over the norm"""
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d', 2), c.dim('D')
    c.fixed_points(I)
    A = c.injective('A', d, D)
    h = c.arr('h', d, d, d, d, herm=True)
    eta, l, r = I.TransferMatrix(A).eigs()
    m = I.iMPS([A])
    hAA = np.einsum('uvst,sab,tbc->uvac', h, A, A)
    e = np.einsum('uvac,cd,ube,ved,ab->', hAA, r, np.conj(A), np.conj(A), l)
    k = c.snap(m, h)
    got = c.num(m.energy([h.reshape(d*d, d*d)]))
    c.eq('two-site expectation value', got*c.num(eta)*c.num(eta)*np.einsum('ab,ab->', l, r), e)
    c.unchanged('inputs', k)


@contract('C15', 'derivative of a left canonical state', grid=[dict(gauge=g) for g in ('diagonal', 'any')], note='assumes the contracts of TransferMatrix.eigs and of iMPS.Lh')
def _(c, gauge):
    """given the resummed left environment K of the Hamiltonian (Lh), the derivative is orthogonal to the state and equals
    -i times the null-space projection of the energy gradient divided by the right fixed point"""
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d', 2), c.dim('D')
    A, l, r = c.canonical(I, 'A', d, D, 'l', gauge == 'diagonal')
    h = c.arr('h', d, d, d, d, herm=True)
    m = I.iMPS([A])
    K = c.callee(I.iMPS, 'Lh', lambda: c.arr('K', D, D), m, [h.reshape(d*d, d*d)])
    k = c.snap(m, h)
    dA = m.dA_dt([h.reshape(d*d, d*d)])
    c.unchanged('inputs', k)
    B = dA.data[0]
    c.shape('shape', B, (d, D, D))
    c.zero('orthogonal to the state', np.einsum('sab,sac->bc', np.conj(A), B))
    hAA = np.einsum('uvst,sab,tbc->uvac', h, A, A)
    G = np.einsum('uvac,cd,ved->uae', hAA, r, np.conj(A))
    G = np.einsum('uae,ef->uaf', G, c.la.inv(r))
    G = G+np.einsum('uvac,uad->vdc', hAA, np.conj(A))
    G = G+np.einsum('ab,sac->sbc', K, A)/l[0, 0]
    want = G-np.einsum('sab,tcb,tcd->sad', A, np.conj(A), G)
    c.eq('projected gradient', B, -1j*want)
    e = np.einsum('uvac,cd,ube,ved,ab->', hAA, r, np.conj(A), np.conj(A), l)
    c.eq('records the energy', c.num(m.e), e)


@contract('C15', 'the resolvent equations', grid=[dict(side=s, hand=h) for s in 'lr' for h in 'lr'], note='scipy.optimize.root is assumed to solve the equation it is given')
def _(c, side, hand):
    """the function Lh (Rh) hands to the root finder vanishes exactly at the solution of the resolvent equation"""
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d', 2), c.dim('D')
    A, l, r = c.canonical(I, 'A', d, D, hand)
    h = c.arr('h', d, d, d, d, herm=True)
    m = I.iMPS([A])
    H = [h.reshape(d*d, d*d)]
    O, l_, r_, K0 = m.Lh(H, testing=True) if side == 'l' else m.Rh(H, testing=True)
    K = c.arr('K', D, D)
    v = K.reshape(D*D)
    got = O(np.concatenate([np.real(v), np.imag(v)]))
    hAA = np.einsum('uvst,sab,tbc->uvac', h, A, A)
    if side == 'l':
        src = np.einsum('ab,uvac,ube,ved->dc', l, hAA, np.conj(A), np.conj(A))
        src = src-l.T*np.einsum('dc,cd->', src, r)
        lhs = K-np.einsum('sba,bc,scd->ad', np.conj(A), K, A)+l.T*np.einsum('dc,cd->', K, r)
    else:
        src = np.einsum('uvac,cd,ube,ved->ba', hAA, r, np.conj(A), np.conj(A))
        src = src-r*np.einsum('ab,ba->', l, src)
        lhs = K-np.einsum('sab,bc,sdc->ad', np.conj(A), K, A)+r*np.einsum('ab,ba->', l, K)
    want = (lhs-src).reshape(D*D)
    c.eq('equation', got, np.concatenate([np.real(want), np.imag(want)]))


@contract('C15', 'the left environment of the energy', grid=[dict(gauge=g) for g in ('diagonal', 'any')], note='assumes the contract of TransferMatrix.eigs')
def _(c, gauge):
    """Lh returns (transposed) the solution of the resolvent equation"""
    I = c.mod(M)
    np = c.np
    d, D = c.dim('d', 2), c.dim('D')
    A, l, r = c.canonical(I, 'A', d, D, 'l', gauge == 'diagonal')
    h = c.arr('h', d, d, d, d, herm=True)
    m = I.iMPS([A])
    K = np.transpose(m.Lh([h.reshape(d*d, d*d)]), [1, 0])
    hAA = np.einsum('uvst,sab,tbc->uvac', h, A, A)
    src = np.einsum('ab,uvac,ube,ved->dc', l, hAA, np.conj(A), np.conj(A))
    src = src-l.T*np.einsum('dc,cd->', src, r)
    c.solves('resolvent equation', K, lambda X: X-np.einsum('sba,bc,scd->ad', np.conj(A), X, A)+l.T*np.einsum('dc,cd->', X, r), src,
             lambda n: c.arr(n, D, D))
