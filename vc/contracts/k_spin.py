"""xmps/spin.py and xmps/Hamiltonians.py: matrices are concrete (exact up to rounding of their constants), coefficients,
parameters, states and general operators are arbitrary."""
from api import contract
from functools import reduce
import numpy

SP, HA = 'xmps.spin', 'xmps.Hamiltonians'


def paulis(c):
    np = c.np
    I, X, Y, Z = [numpy.array(m) for m in ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
    return dict(I=I, X=X, Y=Y, Z=Z)


def krons(c, ms):
    return reduce(c.np.kron, ms)


TWO = [a+b for a in 'IXYZ' for b in 'IXYZ']


@contract('C17', 'matrix of two-site strings')
def _(c):
    H = c.mod(HA)
    P = paulis(c)
    J = {s: c.scalar('J'+s) for s in TWO}
    given = dict(J)
    c.allocs()
    h = H.Hamiltonian(given)
    c.eq('sum of the described terms', h.to_matrix(), sum(J[s]*krons(c, [P[a] for a in s]) for s in TWO))
    c.true('the caller\'s strings are not touched', given == J)


@contract('C17', 'chain of two-site strings', bounded='chain length', grid=[dict(L=n) for n in (2, 3, 4, 5)], thorough=[dict(L=6), dict(L=7)])
def _(c, L):
    """full matrix: every two-site term at each bond, every single-site term IX = XI = h counted once per site"""
    H = c.mod(HA)
    P = paulis(c)
    c.allocs()
    # contract 'negligible strings': strings dropped there have zero coefficient
    c.replace(H.Hamiltonian, '_squeeze', lambda self: self)
    J = {s: c.scalar('J'+s, real=True) for s in TWO if 'I' not in s}
    f = {a: c.scalar('h'+a, real=True) for a in 'XYZ'}
    strings = dict(J)
    for a in f:
        strings[a] = f[a]
    h = H.Hamiltonian(strings)
    full = h.to_full(L)
    spec = 0
    for i in range(L-1):
        for s in J:
            spec = spec+J[s]*krons(c, [P['I']]*i+[P[a] for a in s]+[P['I']]*(L-2-i))
    for i in range(L):
        for a in f:
            spec = spec+f[a]*krons(c, [P['I']]*i+[P[a]]+[P['I']]*(L-1-i))
    c.eq('sum over the chain', full, spec)
    c.true('length', h.L == L)
    if L > 2:
        other = h.to_full(L-1)
        c.eq('a shorter chain', other, sum([J[s]*krons(c, [P['I']]*i+[P[a] for a in s]+[P['I']]*(L-3-i)) for i in range(L-2) for s in J]) +
             sum([f[a]*krons(c, [P['I']]*i+[P[a]]+[P['I']]*(L-2-i)) for i in range(L-1) for a in f]))


@contract('C17', 'negligible strings', grid=[dict(names='XX,IX'), dict(names='ZZ,X'), dict(names='XY,ZI,IZ')])
def _(c, names):
    """dropping the strings with zero coefficient keeps the matrix"""
    H = c.mod(HA)
    h = H.Hamiltonian({n: c.scalar('J'+n) for n in names.split(',')})
    c.allocs()
    m = h.to_matrix()
    c.true('the same object', h._squeeze() is h)
    c.eq('the same matrix', h.to_matrix(), m)


@contract('C17', 'coefficients of a matrix')
def _(c):
    H = c.mod(HA)
    np = c.np
    P = paulis(c)
    mat = c.arr('M', 4, 4)
    h = H.Hamiltonian({}).from_matrix(mat)
    c.allocs()
    c.true('every string but the identity', sorted(h.strings) == sorted(s for s in TWO if s != 'II'))
    for s in TWO:
        if s != 'II':
            c.eq('coefficient '+s, h.strings[s], np.trace(krons(c, [P[a] for a in s])@mat)/4)
    c.eq('rebuilt up to the identity', h.to_matrix(), mat-np.trace(mat)/4*krons(c, [P['I'], P['I']]))


@contract('C17', 'coefficients read back')
def _(c):
    H = c.mod(HA)
    J = {s: c.scalar('J'+s) for s in TWO if s != 'II'}
    c.allocs()
    m = H.Hamiltonian(dict(J)).to_matrix()
    back = H.Hamiltonian({}).from_matrix(m).strings
    for s in J:
        c.eq('coefficient '+s, back[s], J[s])


@contract('C17', 'matrix product operator of a Heisenberg type chain', bounded='chain length', grid=[dict(L=n) for n in (2, 3, 4)], thorough=[dict(L=5)])
def _(c, L):
    H = c.mod(HA)
    np = c.np
    P = paulis(c)
    c.allocs()
    J = {a: c.scalar('J'+a, real=True) for a in 'XYZ'}
    f = {a: c.scalar('h'+a, real=True) for a in 'XYZ'}
    st = {a+a: J[a] for a in J}
    for a in f:
        st[a] = f[a]
    W = H.Hamiltonian(st).to_mpo(L)
    c.true('one tensor per site', len(W) == L)
    # first row of the first tensor to the last column of the last
    r = W[0][0, :, :, :]
    for i, w in enumerate(W[1:]):
        r = np.tensordot(r, w, ([0], [0]))                     # (out,in)*k, bond, out, in
        n = 2*(i+1)
        r = np.moveaxis(r, n, 0)
    r = r[4]
    r = np.transpose(r, list(range(0, 2*L, 2))+list(range(1, 2*L, 2))).reshape(2**L, 2**L)
    spec = 0
    for i in range(L-1):
        for a in J:
            spec = spec+J[a]*krons(c, [P['I']]*i+[P[a], P[a]]+[P['I']]*(L-2-i))
    for i in range(L):
        for a in f:
            spec = spec+f[a]*krons(c, [P['I']]*i+[P[a]]+[P['I']]*(L-1-i))
    c.eq('sum over the chain', r, spec)


@contract('C17', 'matrices of a chain', bounded='chain length', grid=[dict(L=n) for n in (2, 3, 4, 5)])
def _(c, L):
    """full matrix of given two-site matrices: each at its bond"""
    H = c.mod(HA)
    np = c.np
    c.allocs()
    ms = [c.arr('h%d' % i, 4, 4) for i in range(L-1)]
    h = H.Hamiltonian(matrices=ms)
    c.true('length', h.L == L)
    I = numpy.eye(2)
    c.eq('sum over the bonds', h.to_full(), sum(krons(c, [I]*i+[m]+[I]*(L-2-i)) for i, m in enumerate(ms)))


@contract('C17', 'one-site operator of a chain', bounded='chain length', grid=[dict(n=n, i=i) for n in (1, 2, 3, 4) for i in range(1, n+1)],
          thorough=[dict(n=5, i=i) for i in range(1, 6)]+[dict(n=8, i=i) for i in (1, 4, 8)])
def _(c, n, i):
    s = c.mod(SP)
    d = c.dim('d')
    op = c.arr('o', d, d)
    t = c.snap(op)
    r = s.n_body(op, i, n)
    I = c.eye(d)
    c.eq('product with identities', r, krons(c, [I]*(i-1)+[op]+[I]*(n-i)))
    c.unchanged('operand', t)


@contract('C17', 'operator of a chain of given local dimension', bounded='chain length, local dimension',
          grid=[dict(n=n, i=i, d=d) for d in (2, 3) for n in (1, 2, 3) for i in range(n)],
          thorough=[dict(n=5, i=i, d=2) for i in range(5)])
def _(c, n, i, d):
    """two-site operator on bond i of n (counted from zero here)"""
    s = c.mod(SP)
    op = c.arr('o', d**2, d**2)
    r = s.n_body(op, i, n, d)
    I = numpy.eye(d)
    c.eq('product with identities', r, krons(c, [I]*i+[op]+[I]*(n-1-i)))


@contract('C17', 'spin operators of a chain', bounded='chain length, spin', grid=[dict(S=S, n=n) for S in (.5, 1, 1.5) for n in (1, 2, 3)])
def _(c, S, n):
    s = c.mod(SP)
    for i in range(1, n+1):
        for name, many, one in (('spins', s.N_body_spins(S, i, n), s.spins(S)), ('ladders', s.N_body_ladders(S, i, n), s.ladders(S))):
            c.true('%s at %d: number' % (name, i), len(many) == len(one))
            for a, o in zip(many, one):
                I = c.eye(o.shape[0])
                c.eq('%s at %d' % (name, i), a, krons(c, [I]*(i-1)+[o]+[I]*(n-i)))
        if S == .5:
            for a, o in zip(s.N_body_paulis(S, i, n), s.paulis(S)):
                c.eq('paulis at %d' % i, a, krons(c, [c.eye(2)]*(i-1)+[o]+[c.eye(2)]*(n-i)))


# ------------------------------------------------------------------ C16

@contract('C16', 'angular momentum of every spin')
def _(c):
    s = c.mod(SP)
    S = c.spin()
    x, y, z = s.spins(S)
    for nm, a, b, d in (('xy', x, y, z), ('yz', y, z, x), ('zx', z, x, y)):
        c.eq('[S%s, S%s] = i S' % tuple(nm), a@b-b@a, 1j*d)
        c.eq('comm '+nm, s.comm(a, b), a@b-b@a)
        c.eq('acomm '+nm, s.acomm(a, b), a@b+b@a)
    for nm, a in zip('xyz', (x, y, z)):
        c.eq('S%s hermitian' % nm, a.conj().T, a)
    c.eq('Casimir', x@x+y@y+z@z, S*(S+1)*c.spineye(S))
    c.eq('Sz diagonal', z, c.spindiag(S))
    c.eq('Sx real', x.conj(), x)


def dag(x):
    return x.conj().T


@contract('C16', 'ladders and Pauli matrices')
def _(c):
    s = c.mod(SP)
    for S in (.5, 1, 1.5):
        x, y, z = s.spins(S)
        lo, hi = s.ladders(S)
        c.eq('raising operator %s' % S, hi, x+1j*y)
        c.eq('lowering operator %s' % S, lo, x-1j*y)
    P = paulis(c)
    for a, p in zip('XYZ', s.paulis(.5)):
        c.eq('pauli '+a, p, P[a])
    for S in (.5, 1, 1.5, 2, 2.5, 3):
        c.true('commutation test accepts spins %s' % S, bool(s.CR(*s.spins(S))))
        c.true('Pauli test accepts doubled spins %s' % S, bool(s.pCR(*[2*m for m in s.spins(S)])))
        x, y, z = s.spins(S)
        c.true('commutation test rejects %s' % S, not s.CR(y, x, z) and not s.CR(2*x, 2*y, 2*z) and not s.pCR(x, y, z) and not s.CR(x, x, z))


def generators(c, name, xs, n, count):
    xs = [numpy.asarray(x) for x in xs]
    c.true(name+': number', len(xs) == count)
    for i, x in enumerate(xs):
        c.eq('%s: hermitian' % name, x.conj().T, x)
        c.zero('%s: traceless' % name, numpy.asarray(numpy.trace(x)))
    g = numpy.einsum('aij,bji->ab', numpy.array(xs), numpy.array(xs))
    return g


@contract('C16', 'generators of su(N)', bounded='N', grid=[dict(N=n) for n in (2, 3, 4, 5)], thorough=[dict(N=n) for n in (6, 7, 8)])
def _(c, N):
    """traceless, hermitian, orthogonal (trace norm two) and complete: every matrix is its trace part and its components"""
    s = c.mod(SP)
    xs = s.su(N)
    g = generators(c, 'su', xs, N, N*N-1)
    c.eq('orthogonal', g, 2*numpy.eye(N*N-1))
    np = c.np
    M = c.arr('M', N, N)
    co = s.components(M)
    c.shape('components', co, (N*N-1,))
    c.eq('complete', np.tensordot(co, numpy.array(xs), [0, 0]), M-np.trace(M)*numpy.eye(N)/N)
    v = c.arr('v', N*N-1)
    c.eq('components of a combination', s.components(np.tensordot(v, numpy.array(xs), [0, 0])), v)


@contract('C16', 'generators of SU(4) and of its exchange symmetric part')
def _(c):
    s = c.mod(SP)
    np = c.np
    xs = s.lambdas()
    g = generators(c, 'lambdas', xs, 4, 15)
    c.eq('orthogonal', g, 2*numpy.eye(15))
    M = c.arr('M', 4, 4)
    c.eq('complete', sum(np.trace(M@x)/2*x for x in xs), M-np.trace(M)*numpy.eye(4)/4)
    ys = s.slambdas()
    g = generators(c, 'slambdas', ys, 4, 9)
    c.eq('symmetric generators orthogonal', g, numpy.diag(numpy.diag(g)))
    SW = numpy.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
    for y in ys:
        c.eq('exchange symmetric', SW@y@SW, y)
    Q = (M+SW@M@SW)/2
    c.eq('complete on exchange symmetric matrices', sum(np.trace(Q@y)/numpy.trace(y@y)*y for y in ys), Q-np.trace(Q)*numpy.eye(4)/4)


@contract('C16', 'spinors')
def _(c):
    s = c.mod(SP)
    S3 = [p/2 for p in (paulis(c)[a] for a in 'XYZ')]
    I = numpy.eye(2)
    loc = s.locals()
    for i in range(3):
        c.eq('second site', loc[i], numpy.kron(I, S3[i]))
        c.eq('first site', loc[3+i], numpy.kron(S3[i], I))
    for nm in ('antiferro', 'ferro'):
        a = getattr(s, nm)()
        for i in range(3):
            c.eq(nm+': su(2) relations', a[i]@a[(i+1) % 3]-a[(i+1) % 3]@a[i], 2j*a[(i+2) % 3])
            c.eq(nm+': hermitian', a[i].conj().T, a[i])


def is_exp(c, name, U, gens, v, site=None):
    """U = exp(-i v.gens) for real v; with hermitian traceless gens (checked on the spot) it is special unitary"""
    np = c.np
    n = gens[0].shape[0]
    X = np.tensordot(v, numpy.array(gens), [0, 0])
    c.eq(name+': exponential of the combination', U, c.la.expm(-1j*X))
    c.eq(name+': unitary', np.conj(U).T@U, numpy.eye(n))
    c.eq(name+': unitary (rows)', U@np.conj(U).T, numpy.eye(n))
    for x in gens:
        c.eq(name+': generators hermitian', x.conj().T, x)
        c.zero(name+': determinant one (traceless generators)', numpy.asarray(numpy.trace(x)))


@contract('C16', 'unitary parametrisations', bounded='N', grid=[dict(w=w) for w in ('U1', 'U2', 'U4', 'U4s', 'SU2', 'SU3', 'SU4', 'SU(4)')], thorough=[dict(w='SU8'), dict(w='SU5'), dict(w='SU6')])
def _(c, w):
    s = c.mod(SP)
    S3 = [p/2 for p in (paulis(c)[a] for a in 'XYZ')]
    I = numpy.eye(2)
    if w in ('U1', 'U2'):
        gens = [numpy.kron(I, x) if w == 'U1' else numpy.kron(x, I) for x in S3]
        v = c.arr('v', 3, real=True)
        U = getattr(s, w)(v)
    elif w == 'U4':
        gens, v = s.lambdas(), c.arr('v', 15, real=True)
        U = s.U4(v)
    elif w == 'U4s':
        gens, v = s.slambdas(), c.arr('v', 9, real=True)
        U = s.U4s(v)
        SW = numpy.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
        for x in gens:
            c.eq('generators commute with the exchange', SW@x, x@SW)
    else:
        N = int(w.strip('SU()'))
        gens, v = s.su(N), c.arr('v', N*N-1, real=True)
        U = s.SU(v, N) if w not in ('SU4', 'SU8') else getattr(s, w)(v)
    is_exp(c, w, U, [numpy.asarray(x) for x in gens], v)


@contract('C16', 'embedding into twice the dimension', bounded='N', grid=[dict(N=2, where=w) for w in ('left', 'mid', 'right')], thorough=[dict(N=4, where=w) for w in ('left', 'mid', 'right')])
def _(c, N, where):
    s = c.mod(SP)
    np = c.np
    v = c.arr('v', N*N-1, real=True)
    w = s.insu2N(v, where)
    X = np.tensordot(v, numpy.array(s.su(N)), [0, 0])
    Y = np.tensordot(w, numpy.array(s.su(2*N)), [0, 0])
    I = numpy.eye(2)
    if where == 'left':
        want = np.kron(I, X)
    elif where == 'right':
        want = np.kron(X, I)
    else:
        # the new qubit sits before the last one
        k = N.bit_length()-1
        P = numpy.eye(2*N).reshape([2]*(k+1)+[2*N])
        P = numpy.moveaxis(P, k-1, k).reshape(2*N, 2*N)
        want = P@np.kron(X, I)@P.T
    c.eq('element times identity', Y, want)
    if where == 'mid':
        c.eq('unitary of the embedded element', s.SU(v, N, rep='2N'), c.la.expm(-1j*Y))


@contract('C16', 'gates and rotations')
def _(c):
    s = c.mod(SP)
    np = c.np
    c.eq('swap', s.swap(), numpy.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]))
    c.eq('CNOT', s.CNOT(), numpy.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]))
    c.eq('CZ', s.CZ(), numpy.diag([1, 1, 1, -1]))
    t = c.scalar('theta', real=True)
    R = s.CRy(t)
    co, si = np.cos(t/2), np.sin(t/2)
    want = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, co, si], [0, 0, -si, co]])
    c.eq('controlled rotation', R, want)
    c.eq('controlled rotation is unitary', R@np.conj(R).T, numpy.eye(4))
    U = c.arr('U', 4, 4)
    P = numpy.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
    t = c.snap(U)
    c.eq('symmetrisation', s.swap_symmetrise(U), (U+P@U@P)/2)
    c.eq('antisymmetrisation', s.swap_antisymmetrise(U), (U-P@U@P)/2)
    c.true('symmetric part is recognised', bool(s.is_swap_symmetric(s.swap_symmetrise(U))))
    d = c.dim('d')
    A, B = c.arr('A', d, d), c.arr('B', d, d)
    c.eq('commutator', s.comm(A, B), A@B-B@A)
    c.eq('anticommutator', s.acomm(A, B), A@B+B@A)
    c.unchanged('operands', t)


@contract('C16', 'Levi-Civita symbol', bounded='rank', grid=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5)])
def _(c, n):
    import itertools
    e = c.mod(SP).levi_civita(n)
    want = numpy.zeros((n,)*n)
    for p in itertools.permutations(range(n)):
        want[p] = round(numpy.linalg.det(numpy.eye(n)[list(p)]))
    c.eq('sign of the permutation', e, want)


@contract('C16', 'spherical coordinates', bounded='dimension', grid=[dict(k=k) for k in (1, 2, 3, 4)], thorough=[dict(k=5), dict(k=6)])
def _(c, k):
    s = c.mod(SP)
    np = c.np
    v = [c.scalar('v%d' % i, real=True) for i in range(k)]
    x = s.Nsphere(v)
    c.shape('one more coordinate than angles', x, (k+1,))
    p = 1
    for i in range(k):
        c.eq('coordinate %d' % i, x[i], p*np.cos(v[i]))
        p = p*np.sin(v[i])
    c.eq('last coordinate', x[k], p)
    c.eq('on the unit sphere', sum(x[i]*x[i] for i in range(k+1)), c.const(1.0))


@contract('C16', 'partial trace of a density matrix', grid=[dict(n=n, keep=''.join(map(str, k))) for n in (1, 2, 3, 4) for r in range(1, n+1) for k in __import__('itertools').combinations(range(n), r)])
def _(c, n, keep):
    s = c.mod(SP)
    np = c.np
    ds = [c.dim('d%d' % i) for i in range(n)]
    rho = c.arr('rho', *(ds+ds))
    k = [int(a) for a in keep]
    tot = 1
    kk = 1
    for i, d in enumerate(ds):
        tot = tot*d
        if i in k:
            kk = kk*d
    r = s.partial_trace(rho.reshape(tot, tot), k, ds)
    want = np.einsum(rho, list(range(n))+[n+i if i in k else i for i in range(n)], k+[n+i for i in k])
    c.eq('trace over the other spaces', r, want.reshape(kk, kk))
