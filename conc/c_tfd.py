"""contracts of thermofield doubles (C22) and of the Vidal form and entropies (C23)"""
from base import *


def F():
    import xmps.fMPS as M
    return M


def tfd(g, kind=None, L=None):
    """-> (fTFD, dense vector over (left, right) pairs, d of one copy)"""
    M = F()
    kind = kind or g.pick('how', ['from_fMPS', 'pure', 'mixed', 'general'])
    L = g.int('L', 2, 5) if L is None else L
    d = g.pick('d1', [2, 2, 3]) if L <= 3 else 2
    D = g.int('D1', 1, 2)
    if kind == 'from_fMPS':
        m, v = fmps(g, L=L, d=d, Dmax=2, kinds=['std', 'irregular'])
        if len(m.data) != L:
            raise Skip()
        t = M.fTFD().from_fMPS(m)
    elif kind == 'pure':
        t = M.fTFD().random(L, d, D)
    elif kind == 'mixed':
        t = M.fTFD().random(L, d, D, pure=False)
    else:
        bb = std_bonds(L, d*d, D*D)
        t = M.fTFD([g.cplx(d*d, bb[i], bb[i+1]) for i in range(L)])
    v = dense(t.data)
    if not np.linalg.norm(v) > 1e-9*np.prod([np.linalg.norm(a) for a in t.data]):
        raise Skip()
    return t, v, d, kind


def side(op, lr, d):
    return np.kron(op, np.eye(d)) if lr == 0 else np.kron(np.eye(d), op)


@case('C22', 40)
def construction(g):
    M = F()
    L = g.int('L', 1, 5)
    d = g.pick('d', [2, 3]) if L <= 3 else 2
    m, v = fmps(g, L=L, d=d, Dmax=3, kinds=['std', 'irregular', 'product'])
    keep = [a.copy() for a in m.data]
    t = M.fTFD().from_fMPS(m)
    L = len(m.data)
    w = np.multiply.outer(v, v).reshape([d]*(2*L)).transpose([k for i in range(L) for k in (i, L+i)]).reshape(-1)
    g.close('doubled state', dense(t.data), w, 1e-9)
    g.ok('sizes', t.L == L and t.d == d*d and all(a.shape == (d*d, b.shape[1]**2, b.shape[2]**2) for a, b in zip(t.data, m.data)))
    g.ok('kind', isinstance(t, M.fTFD))
    for a, b in zip(m.data, keep):
        g.close('source kept', a, b, 0)
    L, d, D = g.int('L', 2, 6), g.pick('d', [2, 3]), g.int('D', 1, 3)
    r = M.fTFD().random(L, d, D, pure=g.bool('pure'))
    g.ok('random sizes', r.L == L and len(r.data) == L and all(a.shape[0] == d*d for a in r.data) and r.data[0].shape[1] == 1 == r.data[-1].shape[2])
    g.ok('bond dimension bound', max(max(a.shape[1:]) for a in r.data) <= D*D)


@case('C22', 50)
def observables(g):
    t, v, d, kind = tfd(g)
    L = len(t.data)
    v0 = v/np.linalg.norm(v)
    s, lr = g.int('site', 0, L-1), g.int('copy', 0, 1)
    op = g.herm(d) if g.bool('herm', .7) else g.cplx(d, d)
    w = np.vdot(v0, apply_dense(v0, side(op, lr, d), [s], L, d*d))
    g.close('expectation value on the chosen copy', t.E(op, s, lr), w.real, 1e-8*max(1, np.linalg.norm(op)))
    ops = [g.herm(d) for _ in range(g.int('nops', 1, 3))]
    w = [np.vdot(v0, apply_dense(v0, side(o, lr, d), [s], L, d*d)) for o in ops]
    g.close('several observables', t.Es(ops, s, lr), w, 1e-8, scale=max(1, max(np.linalg.norm(o) for o in ops)))
    g.fid('state kept', dense(t.data), v)
    s2 = g.int('site2', 0, L-1)
    w = np.vdot(v0, apply_dense(v0, side(op, 1-lr, d), [s2], L, d*d))
    g.close('expectation value on the other copy afterwards', t.E(op, s2, 1-lr), w.real, 1e-8*max(1, np.linalg.norm(op)))
    if kind in ('from_fMPS', 'pure'):
        g.close('both copies alike', t.E(op, s, 0), t.E(op, s, 1), 1e-8*max(1, np.linalg.norm(op)))


def squares(g):
    """a doubled chain with square bond dimensions at every cut"""
    M = F()
    L, d = g.int('L', 2, 4), g.pick('d1', [2, 2, 3])
    L = min(L, 3) if d == 3 else L
    b = [1]+[g.int('b', 1, 3)**2 for _ in range(L-1)]+[1]
    t = M.fTFD([g.cplx(d*d, b[i], b[i+1]) for i in range(L)])
    return t, dense(t.data), d


@case('C22', 40)
def exchange(g):
    M = F()
    t, v, d = squares(g)
    L = len(t.data)
    s = t.symmetry()
    sw = lambda w: w.reshape([d]*(2*L)).transpose([k for i in range(L) for k in (2*i+1, 2*i)]).reshape(-1)
    g.close('copies exchanged', dense(s.data), sw(v), 1e-9)
    for a, b in zip(s.symmetry().data, t.data):
        g.close('involution', a, b, 0)
    y = t.symmetrise()
    for a, b in zip(y.data, y.symmetry().data):
        g.close('symmetrised tensors are symmetric', a, b, 1e-10)
    g.close('symmetrised state is symmetric', sw(dense(y.data)), dense(y.data), 1e-9)
    g.close('state kept', dense(t.data), v, 0)


@case('C22', 40)
def sums(g):
    M = F()
    L, d = g.int('L', 1, 4), 2
    x = M.fTFD(raw_state(g, L=L, d=4, kinds=['std', 'irregular']))
    L = len(x.data)
    y = M.fTFD(raw_state(g, L=L, d=4, kinds=['std', 'irregular']))
    v, w = dense(x.data), dense(y.data)
    s = x.add(y)
    g.close('sum', dense(s.data), v+w, 1e-9)
    g.ok('sum is a thermofield double', isinstance(s, M.fTFD))
    g.close('first kept', dense(x.data), v, 0)
    c = complex(g.real('re'), g.real('im'))
    for z in (x*c, c*x):
        g.ok('scaled kind', isinstance(z, M.fTFD))
        for a, b in zip(z.data, x.data):
            g.close('tensorwise product', a, c*b, 1e-12)
    for a, b in zip((x/c).data, x.data):
        g.close('tensorwise quotient', a, b/c, 1e-10)
    y = M.fTFD([g.cplx(*a.shape) for a in x.data])
    for a, b, c_ in zip((x+y).data, x.data, y.data):
        g.close('tensorwise sum', a, b+c_, 1e-12)
    for a, b, c_ in zip((x-y).data, x.data, y.data):
        g.close('tensorwise difference', a, b-c_, 1e-12)


@case('C22', 40)
def local_overlaps(g):
    M = F()
    t, v, d, kind = tfd(g)
    if d != 2:
        raise Skip()
    L = len(t.data)
    v0 = v/np.linalg.norm(v)
    p, pv = fmps(g, L=L, d=2, kinds=['product'])
    p = M.fMPS([a/np.linalg.norm(a) for a in p.data])
    k = g.int('k', 1, min(3, L))
    s = g.int('site', 0, L-k)
    sites = list(range(s, s+k))
    r = [np.outer(p.data[i][:, 0, 0], p.data[i][:, 0, 0].conj()) for i in sites]
    O, O2 = np.eye(1), np.eye(1)
    for x in r:
        O, O2 = np.kron(O, np.kron(np.eye(2), x)), np.kron(O2, np.kron(x, x))
    t = t.left_canonicalise()
    g.close('one copy', t.local_overlap(p, sites), np.vdot(v0, apply_dense(v0, O, sites, L, 4)).real, 1e-8)
    g.close('both copies', t.local_overlap(p, sites, double=True), np.vdot(v0, apply_dense(v0, O2, sites, L, 4)).real, 1e-8)
    A = [[i] for i in range(L)]
    want = np.mean([np.vdot(v0, apply_dense(v0, np.kron(np.eye(2), np.outer(p.data[i][:, 0, 0], p.data[i][:, 0, 0].conj())), [i], L, 4)).real for i in range(L)])
    g.close('average of local overlaps', t.approx_overlap(p, A), want, 1e-8)


@case('C22', 30)
def fidelity(g):
    """the overlap of two doubled pure states is the squared overlap of the states"""
    M = F()
    L = g.int('L', 1, 5)
    a, v = fmps(g, L=L, d=2, Dmax=3, kinds=['std', 'irregular'])
    b, w = fmps(g, L=len(a.data), d=2, Dmax=3, kinds=['std', 'irregular'])
    s, t = M.fTFD().from_fMPS(a), M.fTFD().from_fMPS(b)
    n = (np.linalg.norm(v)*np.linalg.norm(w))**2
    g.close('overlap of doubles', s.overlap(t)/n, np.vdot(w, v)**2/n, 1e-8)
    g.close('norm of a double', s.norm()/np.linalg.norm(v)**4, 1, 1e-7)


@case('C22', 20)
def evolution(g):
    """both copies evolve with the Hamiltonian"""
    from c_tdvp import project, tangent_vector, model, std_bonds
    M = F()
    d = g.pick('d1', [2, 2, 2, 3])
    L = g.int('L', 2, 3 if d == 2 else 2)
    if g.bool('pure', .4):
        b = std_bonds(L, d, g.int('D', 1, 3))
        m = M.fMPS([g.cplx(d, b[i], b[i+1]) for i in range(L)])
        t = M.fTFD().from_fMPS(m)
    else:
        b = std_bonds(L, d*d, g.int('D', 1, 4))
        t = M.fTFD([g.cplx(d*d, b[i], b[i+1]) for i in range(L)])
    structure = [a.shape for a in t.data]
    t = getattr(t, g.pick('form', ['left_canonicalise', 'right_canonicalise']))()
    if [a.shape for a in t.data] != structure:
        raise Skip()
    v = dense(t.data)
    if min(schmidt(v, k, L, d*d)[:structure[k][1]].min() for k in range(1, L)) < 1e-2:
        raise Skip()
    hs = model(g, L, d)
    H = ham_dense(hs, d)
    one = lambda w, H, lr: np.moveaxis(np.tensordot(H.reshape([d]*(2*L)), w.reshape([d]*(2*L)), (list(range(L, 2*L)), list(range(lr, 2*L, 2)))), list(range(L)), list(range(lr, 2*L, 2))).reshape(-1)
    Hv = one(v, H, 0)+one(v, H, 1)
    As = [a.copy() for a in t.data]
    full = g.bool('full H', .3)
    B = t.dA_dt(H if full else [h.copy() for h in hs], fullH=full)
    g.close('the variation is -i times the projected H psi', tangent_vector(As, B.data), -1j*project(As, Hv, v), 1e-7, scale=1+np.linalg.norm(Hv))
    for a, b in zip(As, t.data):
        g.ok('the state is not modified', np.array_equal(a, b))


@case('C22', 12)
def trajectories(g):
    """a double of a pure state stays one: each copy evolves as the state does"""
    from xmps.fTDVP import Trajectory
    from c_tdvp import model, std_bonds
    from scipy.linalg import expm
    M = F()
    L = g.int('L', 2, 3)
    b = std_bonds(L, 2, 100)
    m = M.fMPS([g.cplx(2, b[i], b[i+1]) for i in range(L)]).left_canonicalise()
    v = dense(m.data)
    if min(schmidt(v, k, L, 2)[:m.data[k].shape[1]].min() for k in range(1, L)) < .1:
        raise Skip()
    hs = model(g, L, 2)
    n = np.linalg.norm(ham_dense(hs, 2), 2) or 1
    hs = [h/n for h in hs]
    t = M.fTFD().from_fMPS(m).left_canonicalise()
    full = g.bool('full H', .3)
    T = .02*np.arange(g.int('steps', 2, 4))
    r = Trajectory(t, ham_dense(hs, 2) if full else hs, fullH=full)
    order = g.pick('integrator', ['eulerint', 'rk4int', 'odeint'])
    getattr(r, order)(T)
    g.ok('the final state is a thermofield double', isinstance(r.mps, M.fTFD))
    op, s, lr = g.herm(2), g.int('site', 0, L-1), g.int('copy', 0, 1)
    w = expm(-1j*ham_dense(hs, 2)*T[-1])@v
    g.close('each copy evolves', r.mps.E(op, s, lr), np.real(np.vdot(w, apply_dense(w, op, [s], L, 2))), 5e-3 if order == 'eulerint' else 1e-4, scale=1+np.linalg.norm(op))
    evs = r.mps_evs([op], s)
    u = [expm(-1j*ham_dense(hs, 2)*x)@v for x in T]
    g.close('observables along the trajectory', np.ravel(evs), [np.real(np.vdot(x, apply_dense(x, op, [s], L, 2))) for x in u], 5e-3 if order == 'eulerint' else 1e-4, scale=1+np.linalg.norm(op))


@case('C22', 15)
def copies(g):
    M = F()
    t, v, d, kind = tfd(g)
    s = t.copy()
    g.ok('kind', isinstance(s, M.fTFD) and s.L == t.L)
    for a, b in zip(s.data, t.data):
        g.ok('same tensors, no shared memory', np.array_equal(a, b) and not np.shares_memory(a, b))
    op, i, lr = g.herm(d), g.int('site', 0, len(t.data)-1), g.int('copy', 0, 1)
    g.close('same observables', s.E(op, i, lr), t.E(op, i, lr), 1e-8*max(1, np.linalg.norm(op)))
    st = [a.shape for a in t.data]
    z = M.fTFD().deserialize(t.serialize(real=True), structure=st, real=True)
    g.ok('read back', isinstance(z, M.fTFD) and all(np.allclose(a, b) for a, b in zip(z.data, t.data)))


# ------------------------------------------------------------------ C23
def fullrank(g, L=None, Lmax=6):
    """normalised state with well separated non-zero Schmidt coefficients at the standard profile"""
    for _ in range(20):
        m, v = fmps(g, normalise=True, Lmin=2, Lmax=Lmax, kinds=['std'], L=L)
        Ln, d = len(m.data), m.data[0].shape[0]
        ok = True
        for c in range(1, Ln):
            s = schmidt(v, c, Ln, d)
            D = m.data[c].shape[1]
            if s[D-1] < 1e-3 or (len(s) > D and s[D] > 1e-9):
                ok = False
        if ok:
            return m, v
    raise Skip()


@case('C23', 40)
def vidal(g):
    M = F()
    m, v = fullrank(g)
    L, d = len(m.data), m.data[0].shape[0]
    if g.bool('history', .5):
        for _ in range(g.int('n', 1, 2)):
            getattr(m, g.pick('op', ['left_canonicalise', 'right_canonicalise', 'left_orthogonalise']))()
    t = M.vfMPS().from_fMPS(m)
    g.ok('one pair per site', len(t.data) == L and t.d == d)
    for i, (S, G) in enumerate(t.data):
        S = np.asarray(S)
        sv = schmidt(v, i, L, d)[:S.shape[0]] if i else np.array([np.linalg.norm(v)])
        g.ok('bond matrix diagonal', np.allclose(S, np.diag(np.diag(S))))
        g.close('bond matrix holds the squared Schmidt coefficients', np.diag(S), (sv/np.linalg.norm(v))**2, 1e-8)
        B = np.einsum('ab,sbc->sac', S, G)
        g.close('pair multiplies to a right canonical tensor', right_iso(B), np.eye(B.shape[1]), 1e-6)
        if i+1 < L:
            g.close('next bond matrix is the transferred one', np.einsum('sab,ac,scd->bd', B.conj(), S, B), t.data[i+1][0], 1e-6)
    r = t.to_fMPS()
    g.fid('round trip', dense(r.data), v, 1e-7)


@case('C23', 90)
def entropies(g):
    m, v = fmps(g, Lmin=2, minnorm=1e-6)
    L, d = len(m.data), m.data[0].shape[0]
    if g.bool('used before', .6):
        if g.bool('form, change, form', .5):
            m, v = form_change_form(g, m, v)
        else:
            m, v = history(g, m, v, g.int('n', 1, 5))
        v = dense(m.data)
        if not np.linalg.norm(v) > 1e-6*np.prod([np.linalg.norm(x) for x in m.data]):
            raise Skip()
    n = np.linalg.norm(v)
    for c in [g.int('bond', 1, L-1) for _ in range(2)]:
        p = (schmidt(v, c, L, d)/n)**2
        want = -sum(x*np.log(x) for x in p if x > 1e-14)
        got = m.entanglement_entropy(c)
        g.close('von Neumann entropy', got, want, 1e-5)
        g.ok('non-negative', got > -1e-9)
        g.ok('bounded by the bond dimension', got <= np.log(min(d**c, d**(L-c)))+1e-7)
    g.close('outer bond', m.entanglement_entropy(0), 0, 1e-7)
    if g.bool('local unitary'):
        s = g.int('site', 0, L-1)
        m = m.apply((g.unitary(d), s))
        g.close('invariant under local unitaries', m.entanglement_entropy(c), want, 1e-5)
