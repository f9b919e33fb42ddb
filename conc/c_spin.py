"""contracts of spin.py and Hamiltonians.py (C16, C17) and of qmb/fHam model builders"""
from base import *


def sp():
    import xmps.spin as M
    return M


HALF = [.5*k for k in range(1, 12)]


@case('C16', 30)
def angular_momentum(g):
    M = sp()
    S = g.pick('S', HALF)
    x, y, z = [np.asarray(a) for a in M.spins(S)]
    n = int(2*S+1)
    g.ok('dimension 2S+1', x.shape == y.shape == z.shape == (n, n))
    for a, b, c_ in ((x, y, z), (y, z, x), (z, x, y)):
        g.close('[Sa, Sb] = i Sc', a@b-b@a, 1j*c_, 1e-10)
    for a in (x, y, z):
        g.close('hermitian', a, a.conj().T, 1e-12)
    g.close('Casimir', x@x+y@y+z@z, S*(S+1)*np.eye(n), 1e-10)
    g.close('Sz diagonal, from S down to -S', z, np.diag(np.arange(S, -S-1, -1)), 1e-12)
    g.ok('Sx real with non-negative entries', np.all(np.real(x) >= 0) and np.allclose(np.imag(x), 0))
    g.ok('commutation test accepts spins', M.CR(x, y, z))
    g.ok('Pauli commutation test accepts doubled spins', M.pCR(2*x, 2*y, 2*z))
    if g.bool('spoil', .7):
        k = g.int('which', 0, 2)
        bad = [x, y, z]
        bad[k] = bad[k]*g.pick('f', [-1, 2, 1.01])
        g.ok('commutation test rejects other matrices', not M.CR(*bad))
        bad = [2*x, 2*y, 2*z]
        bad[k] = bad[k]*g.pick('f2', [-1, .5, 1.01])
        g.ok('Pauli commutation test rejects other matrices', not M.pCR(*bad))
    if S <= 1.5:
        sm, sp_ = M.ladders(S)
        g.close('raising operator', sp_, x+1j*y, 1e-10)
        g.close('lowering operator', sm, x-1j*y, 1e-10)
    p = M.paulis(.5)
    g.close('Pauli matrices', p, [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]], 1e-12)


def check_algebra(g, xs, N, norm2=2.):
    xs = np.asarray(xs)
    g.ok('one generator per dimension', len(xs) == N**2-1)
    for x in xs:
        g.close('traceless', np.trace(x), 0, 1e-12)
        g.close('hermitian', x, x.conj().T, 1e-12)
    gram = np.einsum('aij,bji->ab', xs, xs)
    g.close('orthogonal with norm two', gram, norm2*np.eye(len(xs)), 1e-10)


@case('C16', 10)
def algebras(g):
    M = sp()
    N = g.int('N', 2, 9)
    check_algebra(g, M.su(N), N)
    check_algebra(g, M.lambdas(), 4)
    H = g.herm(N)
    H = H-np.trace(H)/N*np.eye(N)
    c = M.components(H)
    g.close('components reconstruct the element', np.tensordot(c, M.su(N), [0, 0]), H, 1e-10)
    v = g.re(N*N-1)
    g.close('components of a combination', M.components(np.tensordot(v, M.su(N), [0, 0])), v, 1e-10)
    s = M.slambdas()
    for x in s:
        g.close('symmetric generators are hermitian', x, x.conj().T, 1e-12)
        g.close('traceless', np.trace(x), 0, 1e-12)
        g.close('symmetric under exchange', M.swap()@x@M.swap(), x, 1e-12)
    gram = np.einsum('aij,bji->ab', s, s)
    g.close('symmetric generators orthogonal', gram, np.diag(np.diag(gram)), 1e-12)
    for f in (M.antiferro, M.ferro):
        a = f()
        for i in range(3):
            g.close('spinors satisfy the su(2) relations', a[i]@a[(i+1) % 3]-a[(i+1) % 3]@a[i], 2j*a[(i+2) % 3], 1e-12)
            g.close('spinors hermitian', a[i], a[i].conj().T, 1e-12)
    loc = M.locals()
    S3 = M.spins(.5)
    for i in range(3):
        g.close('local spinors of the second site', loc[i], np.kron(np.eye(2), S3[i]), 1e-12)
        g.close('local spinors of the first site', loc[3+i], np.kron(S3[i], np.eye(2)), 1e-12)


@case('C16', 40)
def unitaries(g):
    import scipy.linalg as sl
    M = sp()
    sc = g.pick('scale', [0., 1e-6, 1e-3, .02, .3, 1., 4., 20.])
    w = g.pick('which', ['U1', 'U2', 'U4', 'U4s', 'SU', 'SU4', 'SU8', 'SU2N'])
    if w in ('U1', 'U2'):
        v = sc*g.re(3)
        U = getattr(M, w)(v)
        S3 = M.spins(.5)
        u = sl.expm(-1j*sum(a*b for a, b in zip(v, S3)))
        g.close('single site rotation', U, np.kron(np.eye(2), u) if w == 'U1' else np.kron(u, np.eye(2)), 1e-9)
    elif w in ('U4', 'U4s'):
        B = M.lambdas() if w == 'U4' else M.slambdas()
        v = sc*g.re(len(B))
        U = getattr(M, w)(v)
        g.close('exponential of the combination', U, sl.expm(-1j*np.tensordot(v, B, [0, 0])), 1e-9)
        if w == 'U4s':
            g.close('symmetric unitary commutes with exchange', M.swap()@U@M.swap(), U, 1e-9)
            g.ok('recognised as symmetric', M.is_swap_symmetric(U))
    elif w == 'SU2N':
        N = g.pick('N', [2, 4])
        v = sc*g.re(N*N-1)
        U = M.SU(v, N, rep='2N')
        g.ok('acts on one more qubit', U.shape == (2*N, 2*N))
    else:
        N = {'SU4': 4, 'SU8': 8}.get(w) or g.int('N', 2, 6)
        v = sc*g.re(N*N-1)
        U = M.SU(v, N) if w == 'SU' else getattr(M, w)(v)
        g.close('exponential of the combination', U, sl.expm(-1j*np.tensordot(v, M.su(N), [0, 0])), 1e-9)
    g.close('unitary', U@U.conj().T, np.eye(len(U)), 1e-9)
    g.close('determinant one', np.linalg.det(U), 1, 1e-8)


@case('C16', 30)
def extraction(g):
    M = sp()
    N = g.int('N', 2, 6)
    v = g.re(N*N-1)
    H = np.tensordot(v, M.su(N), [0, 0])
    e = np.max(np.abs(np.linalg.eigvalsh(H)))
    v = v*g.pick('r', [.3, .9])*np.pi/2/e if g.bool('small', .7) else v
    U = M.SU(v, N)
    u = M.extractv(U)
    g.ok('one component per generator', np.shape(u) == (N*N-1,))
    V = M.SU(u, N)
    k = np.vdot(U, V)/N
    g.close('same unitary up to phase', V, U*k, 1e-6)
    g.close('phase', abs(k), 1, 1e-6)
    if np.max(np.abs(np.linalg.eigvalsh(np.tensordot(v, M.su(N), [0, 0])))) < np.pi/2:
        g.close('inverse of the parametrisation near the identity', u, v, 1e-6)
        g.close('equivalent components', M.to_new_v(v), v, 1e-6)


@case('C16', 20)
def embeddings(g):
    import scipy.linalg as sl
    M = sp()
    n = g.pick('n', [2, 4, 8])
    v = g.re(n*n-1)
    where = g.pick('where', ['left', 'right', 'mid'])
    w = M.insu2N(v, where)
    X, Y = np.tensordot(v, M.su(n), [0, 0]), np.tensordot(w, M.su(2*n), [0, 0])
    if where == 'left':
        want = np.kron(np.eye(2), X)
    elif where == 'right':
        want = np.kron(X, np.eye(2))
    else:
        k = int(np.log2(n))
        want = np.kron(X, np.eye(2)).reshape([2]*(2*k+2))
        p = list(range(k-1))+[k, k-1]
        want = want.transpose(p+[k+1+i for i in p]).reshape(2*n, 2*n)
    g.close('embedded element is the element times identity', Y, want, 1e-10)


@case('C16', 20)
def gates(g):
    M = sp()
    a, b = g.vec(2), g.vec(2)
    g.close('swap exchanges', M.swap()@np.kron(a, b), np.kron(b, a), 1e-12)
    g.close('CNOT', M.CNOT(), [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], 1e-14)
    g.close('CZ', M.CZ(), np.diag([1, 1, 1, -1]), 1e-14)
    t = g.real('theta', -7, 7)
    R = M.CRy(t)
    g.close('controlled rotation acts as identity on control 0', R[:2, :], np.eye(4)[:2], 1e-14)
    c, s = np.cos(t/2), np.sin(t/2)
    g.close('controlled rotation', R[2:, 2:], [[c, s], [-s, c]], 1e-12)
    U = g.cplx(4, 4)
    P = M.swap()
    g.close('symmetrisation', M.swap_symmetrise(U), (U+P@U@P)/2, 1e-12)
    g.close('antisymmetrisation', M.swap_antisymmetrise(U), (U-P@U@P)/2, 1e-12)
    g.close('they add up', M.swap_symmetrise(U)+M.swap_antisymmetrise(U), U, 1e-12)
    g.ok('symmetric part is symmetric', M.is_swap_symmetric(M.swap_symmetrise(U)))
    g.ok('a generic matrix is not', not M.is_swap_symmetric(U))
    x, y = g.cplx(3, 3), g.cplx(3, 3)
    g.close('commutator', M.comm(x, y), x@y-y@x, 1e-12)
    g.close('anticommutator', M.acomm(x, y), x@y+y@x, 1e-12)
    i, j = g.int('i', 0, 3), g.int('j', 0, 3)
    w = U.copy()
    w[[i, j]] = U[[j, i]]
    g.close('row exchange', M.swap_rows(U, i, j), w, 1e-14)
    ph = np.exp(1j*g.real('phase', -3, 3))
    g.ok('equal up to a phase', M.equal_up_to_phase(U, ph*U))
    g.ok('not equal up to a phase', not M.equal_up_to_phase(U, ph*U+.1*g.cplx(4, 4)))


@case('C16', 12)
def symbols(g):
    from itertools import permutations, product
    M = sp()
    n = g.int('n', 2, 4)
    e = M.levi_civita(n)
    g.ok('shape', e.shape == (n,)*n)
    for p in product(range(n), repeat=n):
        if len(set(p)) < n:
            s = 0
        else:
            s = round(np.linalg.det(np.eye(n)[list(p)]))
        g.ok('Levi-Civita symbol', e[p] == s, (p, e[p], s))
    k = g.int('k', 1, 6)
    v = g.rng.uniform(-4, 4, k)
    x = M.Nsphere(v)
    g.ok('a point in k+1 dimensions', x.shape == (k+1,))
    g.close('on the unit sphere', np.linalg.norm(x), 1, 1e-12)
    g.close('spherical coordinates', x, [np.prod(np.sin(v[:i]))*np.cos(v[i]) for i in range(k)]+[np.prod(np.sin(v))], 1e-12)


# ------------------------------------------------------------------ C17
@case('C17', 40)
def placed_operators(g):
    M = sp()
    d, n = g.pick('d', [2, 3]), g.int('n', 1, 5)
    i = g.int('i', 1, n)
    O = g.cplx(d, d)
    g.close('one site operator in a chain', M.n_body(O, i, n), op_on(O, [i-1], n, d), 1e-12)
    if n > 1:
        O2 = g.cplx(d*d, d*d)
        b = g.int('b', 0, n-2)
        g.close('two site operator on a bond', M.n_body(O2, b, n-1, d=d), op_on(O2, [b, b+1], n, d), 1e-12)
    S = g.pick('S', [.5, 1., 1.5])
    if (2*S+1)**n < 300:
        for a, b in zip(M.N_body_spins(S, i, n), M.spins(S)):
            g.close('placed spins', a, op_on(b, [i-1], n, int(2*S+1)), 1e-12)
        for a, b in zip(M.N_body_ladders(S, i, n), M.ladders(S)):
            g.close('placed ladders', a, op_on(b, [i-1], n, int(2*S+1)), 1e-12)
    for a, b in zip(M.N_body_paulis(.5, i, n), M.paulis(.5)):
        g.close('placed Paulis', a, op_on(b, [i-1], n, 2), 1e-12)
    ops = [g.cplx(2, 2) for _ in range(g.int('k', 1, 4))]
    w = ops[0]
    for o in ops[1:]:
        w = np.kron(w, o)
    g.close('tensor product', M.tensor(ops), w, 1e-12)


PAULI = {'I': np.eye(2), 'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}


def draw_strings(g):
    keys = [a+b for a in 'XYZ' for b in 'XYZ']
    s = {}
    for k in keys:
        if g.bool('use'+k, .35):
            s[k] = g.real(k, -2, 2)
    for k in 'XYZ':
        if g.bool('field'+k, .5):
            s[k] = g.real(k, -2, 2)
    if not s:
        s['ZZ'] = 1.
    if g.bool('round numbers', .3):
        s = {k: g.pick('J', [0, 0., 1, -1, 2, -.5]) for k in s}
    elif g.bool('uneven', .2):
        s = {k: J*10.**g.int('e', -4, 5) for k, J in s.items()}
    return s


def dense_model(s, L):
    H = np.zeros((2**L, 2**L), dtype=complex)
    for k, J in s.items():
        if len(k) == 1:
            for i in range(L):
                H += J*op_on(PAULI[k], [i], L, 2)
        else:
            for i in range(L-1):
                H += J*op_on(np.kron(PAULI[k[0]], PAULI[k[1]]), [i, i+1], L, 2)
    return H


@case('C17', 80)
def models(g):
    from xmps.Hamiltonians import Hamiltonian
    s = draw_strings(g)
    keep = dict(s)
    L = g.int('L', 2, 6)
    H = Hamiltonian(s)
    g.ok('the description is not modified', s == keep)
    ms = H.to_matrices(L)
    g.ok('one term per bond', len(ms) == L-1, len(ms))
    want = dense_model(s, L)
    g.close('bond terms add up to the described operator', ham_dense(ms, 2), want, 1e-10)
    for m in ms:
        g.close('bond terms are hermitian', m, m.conj().T, 1e-12)
    g.close('full matrix is the described operator', Hamiltonian(s).to_full(L), want, 1e-10)
    two = sum(J*(np.kron(PAULI[k[0]], PAULI[k[1]]) if len(k) == 2 else np.kron(PAULI[k], np.eye(2))+np.kron(np.eye(2), PAULI[k])) for k, J in s.items())
    g.close('matrix of one bond', Hamiltonian(s).to_matrix(), two, 1e-12)
    full = ham_dense(ms, 2)
    for k, J in s.items():      # weak terms beside strong ones: each coefficient by itself
        P = dense_model({k: 1.}, L)
        got = np.vdot(P, full)/np.vdot(P, P)
        g.ok('every term has its coefficient', abs(got-J) <= 1e-7*abs(J)+1e-12*max(map(abs, s.values()))+1e-8, (k, got, J))
    g.close('asking twice gives the same', ham_dense(H.to_matrices(L), 2), want, 1e-10)
    L2 = g.int('L2', 2, 5)
    g.close('and other lengths too', ham_dense(H.to_matrices(L2), 2), dense_model(s, L2), 1e-10)
    for n in (L, L2, L):
        g.close('the full matrix of the length asked for', H.to_full(n), dense_model(s, n), 1e-10)
    g.close('and again', H.to_full(), want, 1e-10)
    g.close('the bond terms after the full matrix', ham_dense(H.to_matrices(L2), 2), dense_model(s, L2), 1e-10)
    g.ok('the description is still not modified', s == keep)


@case('C17', 30)
def explicit_fields(g):
    """explicit first/second site terms: the bulk matrix is the two site operator described"""
    from xmps.Hamiltonians import Hamiltonian
    ks = [a+b for a in 'IXYZ' for b in 'IXYZ' if a+b != 'II']
    s = {k: g.real(k) for k in ks if g.bool('u'+k)} or {'XX': 1.}
    H = Hamiltonian(s)
    want = sum(J*np.kron(PAULI[k[0]], PAULI[k[1]]) for k, J in s.items())
    g.close('one bond', H.to_matrix(), want, 1e-12)
    g.close('chain of two', H.to_matrices(2)[0], want, 1e-12)


@case('C17', 40)
def reading_back(g):
    from xmps.Hamiltonians import Hamiltonian
    h = g.herm(4)
    h = h-np.trace(h)/4*np.eye(4)
    H = Hamiltonian().from_matrix(h)
    g.close('from_matrix is inverse to to_matrix', H.to_matrix(), h, 1e-12)
    s = {a+b: g.real(a+b) for a in 'IXYZ' for b in 'IXYZ' if a+b != 'II'}
    k = Hamiltonian().from_matrix(Hamiltonian(s).to_matrix())
    g.ok('same strings', set(k.strings) == set(s))
    for a in s:
        g.close('same coefficients', k.strings[a], s[a], 1e-12)


@case('C17', 40)
def from_matrices(g):
    from xmps.Hamiltonians import Hamiltonian
    k, n = g.int('k', 1, 3), g.int('n', 1, 4)
    if k+n-1 > 6:
        raise Skip()
    ms = [g.herm(2**k) for _ in range(n)]
    H = Hamiltonian(matrices=ms)
    L = n+k-1
    g.ok('range of the terms', H.k == k, H.k)
    g.ok('length of the chain', H.L == L, H.L)
    want = sum(np.kron(np.kron(np.eye(2**i), m), np.eye(2**(L-k-i))) for i, m in enumerate(ms))
    g.close('full matrix', H.to_full(), want, 1e-12)


@case('C17', 30)
def operator_form(g):
    """the matrix product operator of Heisenberg type models contracts to the model"""
    from xmps.Hamiltonians import Hamiltonian
    s = {k: g.real(k, -2, 2) for k in ['XX', 'YY', 'ZZ'] if g.bool('u'+k, .7)}
    s.update({k: g.real(k, -2, 2) for k in 'XYZ' if g.bool('f'+k)})
    s = s or {'XX': .5}
    L = g.int('L', 2, 5)
    W = Hamiltonian(s).to_mpo(L)
    g.ok('one tensor per site', len(W) == L)
    v = np.zeros((5, 1, 1), dtype=complex)
    v[0] = 1
    for w in W:
        v = np.einsum('aij,abkl->bikjl', v, w).reshape(5, v.shape[1]*2, v.shape[2]*2)
    g.close('contracts to the model', v[4], dense_model(s, L), 1e-10)
    bad = dict(s, XY=.3)
    try:
        Hamiltonian(bad).to_mpo(L)
        g.ok('other models are refused', False)
    except NotImplementedError:
        pass
