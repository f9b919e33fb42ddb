"""contracts of the TDVP vector field (C11) and of the integrators (C12)"""
import numpy as np, contextlib
from scipy.linalg import expm
from base import *
from c_mps import F


def tangent(As):
    """columns: all single site variations of the state"""
    cols = []
    L, d = len(As), As[0].shape[0]
    lefts = [np.ones((1, 1))]
    for A in As:
        lefts.append(np.einsum('pa,sab->psb', lefts[-1], A).reshape(-1, A.shape[2]))
    rights = [np.ones((1, 1))]
    for A in As[::-1]:
        rights.insert(0, np.einsum('sab,bq->asq', A, rights[0]).reshape(A.shape[1], -1))
    for n in range(L):
        J = np.einsum('pa,st,bq->psqtab', lefts[n], np.eye(d), rights[n+1])
        cols.append(J.reshape(d**L, -1))
    return np.concatenate(cols, 1)


def tangent_vector(As, Bs):
    return sum(dense([B if m == n else A for m, A in enumerate(As)]) for n, B in enumerate(Bs))


def project(As, w, v):
    """projection of w on the tangent space of As, orthogonal to the state v"""
    J = tangent(As)
    U, s, _ = np.linalg.svd(J, full_matrices=False)
    U = U[:, s > 1e-9*s[0]]
    w = U@(U.conj().T@w)
    return w-v*np.vdot(v, w)/np.vdot(v, v)


def model(g, L, d, real=False):
    kind = g.pick('H', ['random', 'random', 'ising', 'heisenberg', 'diagonal', 'zero_tail'])
    if d == 2 and kind in ('ising', 'heisenberg'):
        X, Y, Z = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
        I = np.eye(2)
        if kind == 'ising':
            h = -np.kron(Z, Z)+g.real('h')*np.kron(X, I)+.3*np.kron(I, Y)
        else:
            h = np.kron(X, X)+np.kron(Y, Y)+g.real('h')*np.kron(Z, Z)
        return [h+0j]*(L-1) if g.bool('shared term') else [h+0j for _ in range(L-1)]
    if kind == 'diagonal':
        return [np.diag(g.re(d*d))+0j for _ in range(L-1)]
    hs = g.terms(L-1, d*d)
    if kind == 'zero_tail':
        k = g.int('only', 0, L-2)
        hs = [h if i == k else 0*h for i, h in enumerate(hs)]
    return hs


def full_rank(g, Lmin=2, Lmax=6, ds=(2, 2, 2, 3), Dmax=4, canon=None, dense_cap=300):
    d = g.pick('d', ds)
    L = g.int('L', Lmin, Lmax)
    while d**L > dense_cap:
        L -= 1
    D = g.int('D', 1, Dmax)
    b = std_bonds(L, d, D)
    As = [g.cplx(d, b[i], b[i+1])/np.sqrt(d*b[i]) for i in range(L)]
    m = F()(As)
    c = g.pick('canon', ['l', 'r', 'none', 'm']) if canon is None else canon
    if c == 'l':
        m.left_canonicalise()
    elif c == 'r':
        m.right_canonicalise()
    elif c == 'm':
        m.mixed_canonicalise(g.int('oc', 0, L-1))
    for x, y in zip(m.data, b):
        if x.shape[1] != y:
            raise Skip()
    v = dense(m.data)
    if c in ('none', 'm'):
        m.data[0] = m.data[0]/np.linalg.norm(v)
        v = v/np.linalg.norm(v)
    if min(schmidt(v, k, L, d)[:b[k]].min() for k in range(1, L)) < 2e-3 if L > 1 else False:
        raise Skip()
    return m, v, L, d


@case('C11', 140)
def vector_field(g):
    m, v, L, d = full_rank(g)
    hs = model(g, L, d)
    H = ham_dense(hs, d)
    As = [a.copy() for a in m.data]
    B = m.dA_dt([h.copy() for h in hs])
    g.ok('one variation per site, of the shape of the site', len(B.data) == L and all(b.shape == a.shape for a, b in zip(As, B.data)))
    for a, b in zip(As, m.data):
        g.ok('the state is not modified', np.array_equal(a, b))
    w = tangent_vector(As, B.data)
    want = -1j*project(As, H@v, v)
    s = np.linalg.norm(H@v)+1e-3
    g.close('the variation is -i times the projected H psi', w, want, 1e-7, scale=s)
    l = np.ones((1, 1))
    for n, (a, b) in enumerate(zip(As, B.data)):
        g.close('gauge: variations are left orthogonal to the state', np.einsum('sab,ac,scd->bd', a.conj(), l, b),
                np.zeros((a.shape[2], a.shape[2])), 1e-7, scale=max(1, np.linalg.norm(b)*np.linalg.norm(a)*np.linalg.norm(l)))
        l = np.einsum('sab,ac,scd->bd', a.conj(), l, a)
    g.close('norm conserved to first order', np.real(np.vdot(v, w)), 0, 1e-7, scale=s)
    g.close('energy conserved to first order', np.real(np.vdot(H@v, w)), 0, 1e-7, scale=s*s)


@case('C11', 60)
def full_hamiltonian_form(g):
    m, v, L, d = full_rank(g, Lmax=5, ds=(2, 2, 3))
    if g.bool('local', .5):
        hs = model(g, L, d)
        H = ham_dense(hs, d)
        Bl = m.copy().dA_dt(hs)
    else:
        H = g.herm(d**L)
        Bl = None
    B = m.dA_dt(H, fullH=True)
    s = np.linalg.norm(H@v)+1e-3
    w = tangent_vector(m.data, B.data)
    g.close('full H: the variation is -i times the projected H psi', w, -1j*project(m.data, H@v, v), 1e-7, scale=s)
    if Bl is not None:
        for x, y in zip(B.data, Bl.data):
            g.close('sum of terms and full H agree', x, y, 1e-7, scale=max(1, np.linalg.norm(y), s))


@case('C11', 40)
def field_is_linear_in_H_and_gauge_covariant(g):
    m, v, L, d = full_rank(g)
    h1, h2 = model(g, L, d), g.terms(L-1, d*d)
    a = g.real('a')
    B = m.dA_dt([a*x+y for x, y in zip(h1, h2)]).data
    B1, B2 = m.dA_dt(h1).data, m.dA_dt(h2).data
    for x, y, z in zip(B, B1, B2):
        g.close('linear in the Hamiltonian', x, a*y+z, 1e-7, scale=1+np.linalg.norm(y)+np.linalg.norm(z))
    w = tangent_vector(m.data, B)
    As = gauge(g, m.data)
    n = F()(As)
    B_ = n.dA_dt([a*x+y for x, y in zip(h1, h2)]).data
    g.close('the variation does not depend on the gauge', tangent_vector(As, B_), w, 1e-6, scale=1+np.linalg.norm(w))
    sh = [x+g.real('c')*np.eye(d*d) for x in h1]
    for x, y in zip(m.dA_dt(sh).data, B1):
        g.close('constants in the Hamiltonian drop out', x, y, 1e-7, scale=1+np.linalg.norm(y))


@case('C11', 30)
def full_bond_dimension(g):
    """with the largest bonds the projection is the identity: Schroedinger's equation"""
    m, v, L, d = full_rank(g, Lmax=5, Dmax=30)
    b = std_bonds(L, d, 10**6)
    As = [g.cplx(d, b[i], b[i+1]) for i in range(L)]
    m = F()(As).left_canonicalise()
    v = dense(m.data)
    if min(schmidt(v, k, L, d)[:b[k]].min() for k in range(1, L)) < 2e-3:
        raise Skip()
    hs = model(g, L, d)
    H = ham_dense(hs, d)
    w = tangent_vector(m.data, m.dA_dt(hs).data)
    Hv = H@v
    g.close('Schroedinger equation', w, -1j*(Hv-v*np.vdot(v, Hv)), 1e-7, scale=1+np.linalg.norm(Hv))


@case('C11', 30)
def null_projectors(g):
    """the projectors the field is built from"""
    m, v, L, d = full_rank(g)
    if g.bool('thermofield double', .3):
        from xmps.fMPS import fTFD
        d, L = 4, g.int('L', 2, 4)
        b = std_bonds(L, d, g.int('D', 1, 4))
        m = getattr(fTFD([g.cplx(d, b[i], b[i+1]) for i in range(L)], d), g.pick('canon', ['left_orthogonalise', 'right_orthogonalise', 'left_canonicalise', 'right_canonicalise']))()
        well = [np.linalg.cond(x(k)) for x in m.get_envs() for k in range(L)]
        if max(well) > 1e5 or [a.shape for a in m.data] != [(d, b[i], b[i+1]) for i in range(L)]:
            raise Skip()
    l, r = m.get_envs()
    n = g.int('n', 0, L-1)
    A = m.data[n]
    pr, vL = m.left_null_projector(n, l, get_vL=True)
    pl = l(n-1)
    g.close('vL is an isometry', np.einsum('sab,sac->bc', vL.conj(), vL), np.eye(vL.shape[2]), 1e-9)
    g.ok('vL has all the missing directions', vL.shape[2] == d*A.shape[1]-A.shape[2], vL.shape)
    P = np.einsum('satb->satb', pr)
    # P = l^{-1/2} vL vL^+ l^{-1/2}: annihilates l A, and is a projector with respect to the metric l
    lA = np.einsum('ab,sbc->sac', pl, A)
    g.close('annihilates the state', np.einsum('satb,tbc->sac', P, lA), np.zeros_like(lA), 1e-8)
    PlP = np.einsum('satb,bc,tcud->saud', P, pl, P)
    g.close('projector in the metric of the left environment', PlP, P, 1e-7)
    g.close('hermitian', P, P.transpose(2, 3, 0, 1).conj(), 1e-8)


# ------------------------------------------------------------------ C12
def traj(m, H, fullH=False):
    from xmps.fTDVP import Trajectory
    return Trajectory(m, H, fullH=fullH)


def field(As, hs, fullH):
    return [x for x in F()([a.copy() for a in As]).dA_dt(hs, fullH=fullH).data]


def lin(*pairs):
    return [sum(c*x[i] for c, x in pairs) for i in range(len(pairs[0][1]))]


def step(As, hs, fullH, dt, order):
    f = lambda X: field(X, hs, fullH)
    if order == 1:
        return lin((1, As), (dt, f(As)))
    k1 = f(As)
    k2 = f(lin((1, As), (dt/2, k1)))
    k3 = f(lin((1, As), (dt/2, k2)))
    k4 = f(lin((1, As), (dt, k3)))
    return lin((1, As), (dt/6, k1), (dt/3, k2), (dt/3, k3), (dt/6, k4))


def entropies_ok(g, t, states, L, d):
    """largest von Neumann and Renyi entropy over the bonds, at each time"""
    al = g.pick('alpha', [2, 3, .5])
    vn, rn = t.von_neumann(), t.renyi(al)
    g.ok('one entropy per time', vn.shape == (len(states),) == rn.shape, (vn.shape, rn.shape))
    spec = [[(lambda p: p[p > 1e-14]/np.sum(p[p > 1e-14]))(schmidt(x/np.linalg.norm(x), k, L, d)**2) for k in range(L+1)] for x in states]
    g.close('largest entanglement entropy', vn, [max(-p@np.log(p) for p in S) for S in spec], 1e-6)
    if al > 1:
        g.close('largest Renyi entropy', rn, [max(np.log(np.sum(p**al))/(1-al) for p in S) for S in spec], 1e-6)
    else:       # the rank of rounding errors decides the small-alpha entropies
        g.close('largest Renyi entropy', rn, [max(np.log(np.sum(p**al))/(1-al) for p in S) for S in spec], 1e-4)


@case('C12', 60)
def single_steps(g):
    m, v, L, d = full_rank(g, Lmax=5, canon='l')
    hs = model(g, L, d)
    fullH = g.bool('fullH', .3)
    H = ham_dense(hs, d) if fullH else hs
    t = traj(m, H, fullH)
    dt = g.pick('dt', [.01, .05, .1])
    order = g.pick('order', [1, 4])
    As = [a.copy() for a in m.data]
    store = g.bool('store')
    out = (t.euler if order == 1 else t.rk4)(m, dt, store=store)
    want = dense(step(As, H, fullH, dt, order))
    g.fid('the step is the stated combination of slopes, canonicalised', dense(out.data), want, 1e-7)
    g.close('unit norm', np.linalg.norm(dense(out.data)), 1, 1e-8)
    for a, b in zip(As, m.data):
        g.ok('the start of the step is not modified', np.array_equal(a, b))
    g.ok('history grows by one exactly when storing', len(t.mps_history) == int(store) and len(t.Ds) == 1+int(store))
    if store:
        w = F()().deserialize(t.mps_history[0], L, d, m.D, real=True)
        for a, b in zip(w.data, As):
            g.close('the stored state is the one before the step', a, b, 1e-12)


@case('C12', 25)
def integrated_trajectories(g):
    m, v, L, d = full_rank(g, Lmax=4, canon=g.pick('c', ['l', 'r']), ds=(2, 2, 2, 3))
    hs = model(g, L, d)
    fullH = g.bool('fullH', .3)
    H = ham_dense(hs, d) if fullH else hs
    order = g.pick('order', [1, 4])
    dt, n = g.pick('dt', [.01, .03]), g.int('steps', 2, 6)
    t0 = g.pick('t0', [0., 1.])
    T = t0+dt*np.arange(n)
    t = traj(m, H, fullH)
    As = [a.copy() for a in m.data]
    r = t.eulerint(T) if order == 1 else t.rk4int(T)
    g.ok('returns the trajectory', r is t)
    for a, b in zip(As, m.data):
        g.ok('the caller state is not modified', np.array_equal(a, b))
    g.ok('one stored state per time', len(t.mps_history) == n)
    w = v/np.linalg.norm(v)
    lst = t.mps_list()
    g.ok('one listed state per time', len(lst) == n)
    op = g.herm(d)
    site = g.int('site', 0, L-1)
    want = []
    for k in range(n):
        cur = lst[k]
        g.fid('entry k is the state after k steps', dense(cur.data), w, 1e-6)
        want.append(np.real(np.vdot(w, apply_dense(w, op, [site], L, d))))
        w = dense(step(cur.data, H, fullH, dt, order))
        w = w/np.linalg.norm(w)
    g.fid('the final state is the last entry', dense(t.mps.data), dense(lst[-1].data), 1e-8)
    evs = t.mps_evs([op], site)
    g.ok('one row per time, one column per operator', evs.shape == (n, 1), evs.shape)
    g.close('expectation values along the trajectory', evs[:, 0], np.array(want), 1e-6)
    Hd = ham_dense(hs, d)
    states = [dense(x.data) for x in lst]
    g.close('energies along the trajectory', np.ravel(t.mps_energies()), [np.real(np.vdot(x, Hd@x)/np.vdot(x, x))/(1 if fullH else L) for x in states], 1e-6, scale=1+np.linalg.norm(Hd))
    g.close('return amplitude along the trajectory', np.ravel(t.loschmidt()), [abs(np.vdot(states[0], x)) for x in states], 1e-7)
    sch = t.schmidts()
    g.ok('one list of spectra per time', len(sch) == n)
    for x, s in zip(states, sch):
        for k in range(L+1):
            a = np.sort(np.real(s[k]))[::-1]
            b = schmidt(x, k, L, d)**2
            q = max(len(a), len(b))
            g.close('spectra along the trajectory', np.pad(a, (0, q-len(a))), np.pad(b, (0, q-len(b))), 1e-7)
    entropies_ok(g, t, states, L, d)


@case('C12', 25)
def accuracy_order(g):
    """with full bonds the integrators follow the exact evolution to their order"""
    d = g.pick('d', [2, 2, 3])
    L = g.int('L', 2, 4 if d == 2 else 3)
    b = std_bonds(L, d, 10**6)
    m = F()([g.cplx(d, b[i], b[i+1]) for i in range(L)]).left_canonicalise()
    v = dense(m.data)
    if min(schmidt(v, k, L, d)[:b[k]].min() for k in range(1, L)) < 5e-2:
        raise Skip()
    hs = g.terms(L-1, d*d)
    H = ham_dense(hs, d)
    nH = np.linalg.norm(H, 2) or 1.
    hs, H = [h/nH for h in hs], H/nH
    def err(dt):
        t = traj(m, hs)
        t.rk4int(np.array([0, dt, 2*dt]))
        w, z = dense(t.mps.data), expm(-2j*dt*H)@v
        ph = np.vdot(z, w)
        return np.linalg.norm(w/np.linalg.norm(w)*abs(ph)/ph-z)
    e1, e2 = err(.02), err(.01)
    g.ok('fourth order: halving the step reduces the error sixteenfold', e2 < e1/8+1e-9, (e1, e2))
    t = traj(m, hs)
    t.eulerint(np.array([0, .01, .02]))
    z = expm(-.02j*H)@v
    w = dense(t.mps.data)
    g.ok('first order: small error of one Euler step pair', abs(np.vdot(w/np.linalg.norm(w), z)) > 1-5e-3)


@case('C12', 40)
def exact_evolution(g):
    L = g.int('L', 2, 5)
    d = 2
    b = std_bonds(L, d, g.int('D', 1, 4))
    m = F()([g.cplx(d, b[i], b[i+1]) for i in range(L)]).left_canonicalise()
    v = dense(m.data)
    hs = model(g, L, d)
    H = ham_dense(hs, d)
    fullH = g.bool('fullH', .4)
    t = traj(m, H if fullH else hs, fullH)
    n = g.int('steps', 2, 6)
    dt = g.pick('dt', [.05, .2])
    T = g.pick('t0', [0., 2.])+dt*np.arange(n)
    As = [a.copy() for a in m.data]
    t.edint(T)
    for a, b_ in zip(As, m.data):
        g.ok('the caller state is not modified', np.array_equal(a, b_))
    g.ok('one state per time', np.shape(t.ed_history) == (n, d**L), np.shape(t.ed_history))
    for k in range(n):
        g.close('entry k is exp(-iHt_k) psi', t.ed_history[k], expm(-1j*H*dt*k)@v, 1e-7)
    g.fid('the final state', dense(t.mps.data), t.ed_history[-1], 1e-8)
    ops = [g.herm(d**L), g.herm(d**L)]
    evs = t.ed_evs(ops)
    g.ok('shape of the expectation values', evs.shape == (n, 2), evs.shape)
    g.close('exact expectation values', evs, np.array([[np.real(np.vdot(x, o@x)) for o in ops] for x in t.ed_history]), 1e-8, scale=10)
    E = np.ravel(t.ed_energies())
    g.close('exact energy is conserved', E, np.full(n, np.real(np.vdot(v, H@v))), 1e-7, scale=1+np.linalg.norm(H))
    sch = t.schmidts()
    for x, s in zip(t.ed_history, sch):
        for k in range(L+1):
            a = np.sort(np.real(s[k]))[::-1]
            c = schmidt(x, k, L, d)**2
            q = max(len(a), len(c))
            g.close('exact spectra', np.pad(a, (0, q-len(a))), np.pad(c, (0, q-len(c))), 1e-7)
    g.close('exact return amplitude', np.ravel(t.loschmidt()), [abs(np.vdot(v, x)) for x in t.ed_history], 1e-8)
    entropies_ok(g, t, t.ed_history, L, d)


@case('C12', 30)
def bond_dimension_changes(g):
    """expand/contract keep the state (up to truncation) and the bookkeeping"""
    m, v, L, d = full_rank(g, Lmin=3, Lmax=5, canon='l', ds=(2,))
    hs = model(g, L, d)
    t = traj(m, hs)
    t.rk4int(np.array([0., .01]))
    n0 = len(t.mps_history)
    D = g.int('Dto', 1, m.D)
    t.contract(D)
    g.ok('recorded bond dimension', t.Ds[-1] == D)
    lst = t.mps_list()
    g.ok('history still readable', len(lst) == n0 and all(x.data[0].shape[0] == d for x in lst))
    t.eulerint(np.array([0., .01])) if g.bool('go on') else None
    states = [dense(x.data) for x in t.mps_list()]
    g.fid('the history still begins at the start', states[0], v, 1e-8)
    for a, b in zip(t.deserialize(), states):
        g.close('the history read back', dense(a.data), b, 1e-9)
    g.close('return amplitude along the trajectory', np.ravel(t.loschmidt()), [abs(np.vdot(states[0], x)) for x in states], 1e-7)
    t.clear()
    g.ok('clear forgets the history', len(t.mps_history) == 0)
    g.fid('clear goes back to the initial state', dense(t.mps.data), v, 1e-9)
    # nothing of the first run is left in the second
    if g.bool('exact run first'):
        t.edint(np.array([0., .5, 1.]))
        t.clear()
    fresh = traj(m, hs)
    for x in (t, fresh):
        getattr(x, g.drawn['again'] if 'again' in g.drawn else g.pick('again', ['rk4int', 'eulerint']))(np.array([0., .01, .02]))
    for a, b in zip(t.mps_list(), fresh.mps_list()):
        g.fid('the history of the second run', dense(a.data), dense(b.data), 1e-9)
    for a, b in zip(t.schmidts(), fresh.schmidts()):
        for x, y in zip(a, b):
            g.close('the spectra of the second run', np.real(x), np.real(y), 1e-7)


@case('C12', 12)
def saved_trajectory(g):
    """what is saved is what was recorded, at the place asked for"""
    import tempfile, os
    m, v, L, d = full_rank(g, Lmin=2, Lmax=4, canon='l', ds=(2,))
    t = traj(m, model(g, L, d))
    t.run_name = 'run'
    t.rk4int(np.array([0., .01, .02]))
    h = [np.array(x) for x in t.mps_history]
    basis = g.pick('basis', ['', 'q', 'Q'])
    t.lys = t.exps = g.re(3, 2)
    if basis:
        setattr(t, basis, g.cplx(3, 3))
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as dir:
        loc = dir+'/out/'
        os.makedirs(loc+'bases')
        os.chdir(dir)
        try:
            exps = g.bool('exps')
            now = dense(t.mps.data)
            t.save(loc, exps=exps, clear=False)
            r = np.load(loc+t.id+'.npy')
            g.close('what was recorded', r, t.lys if exps else np.array(h), 1e-12)
            if exps and basis:
                g.close('the basis', np.load(loc+'bases/'+t.id+'_basis.npy'), getattr(t, basis), 1e-12)
                g.close('the state', dense(F()().load(loc+'bases/'+t.id+'_state.npy').data), now, 1e-9)
            t.save(loc, exps=exps)
            g.ok('cleared', not t.mps_history)
        finally:
            os.chdir(here)


def well_conditioned(m):
    """the field needs the inverse of the fixed point: keep it (and the gap) away from zero"""
    A = m.data[0]
    D = A.shape[1]
    w, V = np.linalg.eig(np.einsum('sab,scd->acbd', A, A.conj()).reshape(D*D, D*D))
    k = np.argsort(-np.abs(w))
    r = V[:, k[0]].reshape(D, D)
    r = r/np.trace(r)
    if np.min(np.linalg.eigvalsh((r+r.conj().T)/2)) < 2e-2 or (D > 1 and abs(w[k[1]]) > .9*abs(w[k[0]])):
        raise Skip()


@case('C12', 25)
def infinite_steps(g):
    from xmps.iMPS import iMPS
    from xmps.iTDVP import Trajectory
    d, D = g.pick('d', [2, 3]), g.int('D', 1, 3)
    m = iMPS([g.cplx(d, D, D)]).left_canonicalise()
    well_conditioned(m)
    hs = [g.herm(d*d)]
    hs = [h/np.linalg.norm(h, 2) for h in hs]
    t = Trajectory(m, hs)
    dt = g.pick('dt', [.01, .05])
    order = g.pick('order', [1, 4])
    f = lambda A: iMPS([A.copy()]).dA_dt(hs).data[0]
    A = m.data[0].copy()
    if order == 1:
        W = A+dt*f(A)
        out = t.euler(m, dt)
    else:
        k1 = f(A)
        k2 = f(A+dt/2*k1)
        k3 = f(A+dt/2*k2)
        k4 = f(A+dt*k3)
        W = A+dt*(k1+2*k2+2*k3+k4)/6
        out = t.rk4(m, dt)
    g.ok('the start of the step is not modified', np.array_equal(A, m.data[0]))
    B = out.data[0]
    E = np.einsum('sab,scd->acbd', B, W.conj()).reshape(D*D, D*D)
    n1 = np.max(np.abs(np.linalg.eigvals(np.einsum('sab,scd->acbd', W, W.conj()).reshape(D*D, D*D))))
    n2 = np.max(np.abs(np.linalg.eigvals(np.einsum('sab,scd->acbd', B, B.conj()).reshape(D*D, D*D))))
    g.close('normalised', n2, 1, 1e-7)
    g.close('the step is the stated combination of slopes (fidelity per site)', np.max(np.abs(np.linalg.eigvals(E)))/np.sqrt(n1*n2), 1, 1e-7)
    w = iMPS().deserialize(t.mps_history[0], d, D, real=True)
    g.close('the stored state is the one before the step', w.data[0], A, 1e-12)


@case('C11', 25)
def tangent_coordinates(g):
    """coordinates of tangent vectors: the field and its coordinate vector determine each other, isometrically"""
    m, v, L, d = full_rank(g, Lmin=3, Lmax=5, canon=g.pick('c', ['l', 'r']), ds=(2,))
    hs = model(g, L, d)
    if g.bool('asked before', .4):      # what an earlier question left behind must not matter
        m.extract_tangent_vector(m.dA_dt(hs))
        getattr(m, g.pick('then', ['left_canonicalise', 'right_canonicalise']))()
        s = g.int('site', 0, L-1)
        if g.bool('changed'):
            m[s] = np.tensordot(g.unitary(d), m[s], [1, 0])
        B = m.copy().dA_dt(hs)
    else:
        B = m.dA_dt(hs)
    w = tangent_vector(m.data, B.data)
    x = m.extract_tangent_vector(B)
    dims = m.tangent_space_dims()
    g.ok('one coordinate per direction', x.shape == (sum(a*b for a, b in dims),), (x.shape, dims))
    g.close('coordinates keep the length', np.linalg.norm(x), np.linalg.norm(w), 1e-7, scale=1+np.linalg.norm(w))
    C = m.import_tangent_vector(x)
    for a, b in zip(C.data, B.data):
        g.close('coordinates give the vector back', a, b, 1e-7, scale=1+np.linalg.norm(b))


@case('C12', 16)
def infinite_trajectories(g):
    from xmps.iMPS import iMPS
    from xmps.iTDVP import Trajectory
    d, D = g.pick('dD', [(2, 1), (3, 1), (2, 2), (2, 3), (3, 2)])
    m = iMPS([g.cplx(d, D, D)]).left_canonicalise()
    well_conditioned(m)
    hs = [g.herm(d*d)]
    hs = [h/np.linalg.norm(h, 2) for h in hs]
    order = g.pick('order', [1, 4])
    n = g.int('steps', 2, 4)
    dt = g.pick('dt', [.01, .03])
    A0 = m.data[0].copy()
    t = Trajectory(m, hs)
    T = g.pick('t0', [0., 1.])+dt*np.arange(n)
    r = t.eulerint(T) if order == 1 else t.rk4int(T)
    g.ok('returns the trajectory', r is t)
    g.ok('the caller state is not modified', np.array_equal(m.data[0], A0))
    g.ok('one stored state per time', len(t.mps_history) == n)

    def lam(A, B):
        return np.max(np.abs(np.linalg.eigvals(np.einsum('sab,scd->acbd', A, B.conj()).reshape(A.shape[1]*B.shape[1], -1))))

    f = lambda A: iMPS([A.copy()]).dA_dt(hs).data[0]
    lst = [iMPS().deserialize(x, d, D, real=True).data[0] for x in t.mps_history]
    g.close('starts at the initial state', lam(lst[0], A0)**2, lam(A0, A0)*lam(lst[0], lst[0]), 1e-7)
    for k in range(n-1):
        A = lst[k]
        if order == 1:
            W = A+dt*f(A)
        else:
            k1 = f(A)
            k2 = f(A+dt/2*k1)
            k3 = f(A+dt/2*k2)
            k4 = f(A+dt*k3)
            W = A+dt*(k1+2*k2+2*k3+k4)/6
        g.close('entry k is the state after k steps', lam(lst[k+1], W)**2, lam(W, W)*lam(lst[k+1], lst[k+1]), 1e-7)
    g.close('the final state is the last entry', t.mps.data[0], lst[-1], 1e-12)
    le = t.loschmidts()
    g.close('return rate along the trajectory', np.ravel(np.real(le)), [-np.log(lam(A, lst[0])**2/(lam(A, A)*lam(lst[0], lst[0]))) for A in lst], 1e-6)   # overlap is the fidelity per site


@case('C12', 14)
def adaptive_integration(g):
    """odeint follows the exact evolution when the bonds are full, on the times asked for"""
    d = 2
    L = g.int('L', 2, 4)
    b = std_bonds(L, d, 10**6)
    m = F()([g.cplx(d, b[i], b[i+1]) for i in range(L)]).left_canonicalise()
    v = dense(m.data)
    if min(schmidt(v, k, L, d)[:b[k]].min() for k in range(1, L)) < 5e-2:
        raise Skip()
    hs = g.terms(L-1, d*d)
    H = ham_dense(hs, d)
    nH = np.linalg.norm(H, 2) or 1.
    hs, H = [h/nH for h in hs], H/nH
    fullH = g.bool('fullH', .3)
    t = traj(m, H if fullH else hs, fullH)
    n = g.int('steps', 2, 6)
    dt = g.pick('dt', [.01, .05, .1])
    t0 = g.pick('t0', [0., 1.])
    As = [a.copy() for a in m.data]
    g.ok('returns the trajectory', t.odeint(t0+dt*np.arange(n)) is t)
    for a, c in zip(As, m.data):
        g.ok('the caller state is not modified', np.array_equal(a, c))
    g.ok('one stored state per time', len(t.mps_history) == n, len(t.mps_history))
    lst = t.mps_list()
    g.ok('one listed state per time', len(lst) == n)
    for k, x in enumerate(lst):
        w = dense(x.data)
        z = expm(-1j*k*dt*H)@v
        g.ok('entry k is the evolved state', abs(np.vdot(w/np.linalg.norm(w), z)) > 1-2e-4, abs(np.vdot(w/np.linalg.norm(w), z)))
        g.close('norm', np.linalg.norm(w), 1, 5e-3)
    g.fid('the final state is the last entry', dense(t.mps.data), dense(lst[-1].data), 1e-10)


@case('C12', 14)
def exact_history_as_states(g):
    L, d = g.int('L', 2, 4), 2
    b = std_bonds(L, d, g.int('D', 1, 4))
    m = F()([g.cplx(d, b[i], b[i+1]) for i in range(L)]).left_canonicalise()
    hs = g.terms(L-1, d*d)
    fullH = g.bool('fullH', .3)
    t = traj(m, ham_dense(hs, d) if fullH else hs, fullH)
    n = g.int('steps', 2, 5)
    T = g.pick('dt', [.1, .3])*np.arange(n)
    t.edint(T)
    op, site = g.herm(d), g.int('site', 0, L-1)
    want = [np.real(np.vdot(x, apply_dense(x, op, [site], L, d))) for x in t.ed_history]
    if g.bool('evs first'):
        evs = t.mps_evs([op], site)
        lst = t.mps_list()
    else:
        lst = t.mps_list()
        evs = t.mps_evs([op], site)
    g.ok('one state per time', len(lst) == n, len(lst))
    for x, w in zip(lst, t.ed_history):
        g.fid('the listed state is the exact one', dense(x.data), w, 1e-7)
    g.close('observables of the recorded states', np.ravel(evs), want, 1e-7)


@case('C12', 12)
def out_of_time_order(g):
    L, d = g.int('L', 2, 4), 2
    b = std_bonds(L, d, 10**6)
    m = F()([g.cplx(d, b[i], b[i+1]) for i in range(L)]).left_canonicalise()
    v = dense(m.data)
    H, V, W = g.herm(d**L), g.herm(d**L), g.herm(d**L)
    t = traj(m, H, True)
    T = g.pick('dt', [.1, .3])*np.arange(g.int('n', 2, 4))+g.pick('t0', [0., .5])
    want = []
    for s in T:
        Wt = expm(1j*H*s)@W@expm(-1j*H*s)
        want.append(np.linalg.norm((Wt@V-V@Wt)@v)**2)
    g.close('squared commutator', t.ed_OTOC(T, (V, W)), want, 1e-7, scale=1+max(want))


# ------------------------------------------------------------------ C26
def uneven(g, L, d, D):
    """bonds of any pattern that a state of full Schmidt rank can have"""
    b = [1]
    for n in range(1, L):
        b.append(g.int('bond', 1, max(1, min(D, d*b[-1], d**(L-n)))))
    b.append(1)
    for n in range(L, 0, -1):
        b[n-1] = min(b[n-1], d*b[n])
    return b


def tangent_state(g, Lmax=5, Dmax=3, cap=100, Lmin=2, full=False, ds=(2, 2, 2, 3)):
    """a normalised state of full Schmidt rank, in any gauge, whose Hilbert space is small"""
    d = g.pick('d', ds)
    L = g.int('L', Lmin, Lmax)
    while d**L > cap:
        L -= 1
    D = g.int('D', 1, Dmax)
    b = std_bonds(L, d, 10**6 if full else D) if full or g.bool('standard bonds', .6) else uneven(g, L, d, D)
    As = [g.cplx(d, b[i], b[i+1])/np.sqrt(d*b[i]) for i in range(L)]
    form = g.pick('form', ['left', 'right', 'any'])
    if form == 'any':
        As[0] = As[0]/np.linalg.norm(dense(As))
        m = F()(As)
    else:
        m = F()(As)
        getattr(m, form+'_canonicalise')()
    if [a.shape for a in m.data] != [a.shape for a in As]:
        raise Skip()
    v = dense(m.data)
    if min(schmidt(v, k, L, d)[:b[k]].min() for k in range(1, L)) < (1e-2 if L < 7 else 1e-3):
        raise Skip()
    if all(d*b[n] == b[n+1] for n in range(L)):
        raise Skip()
    return m, v, L, d


def apply_terms(hs, v, d):
    return sum(np.einsum('ab,xby->xay', h, v.reshape(d**k, d*d, -1)).reshape(-1) for k, h in enumerate(hs))


def flat(As):
    """state vector, for chains of many sites"""
    v = np.ones((1, 1))
    for A in As:
        v = np.tensordot(v, A, ([-1], [1])).reshape(-1, A.shape[2])
    return v.reshape(-1)


def put(As, at):
    return flat([at.get(n, A) for n, A in enumerate(As)])


def linearised(g, m, v, hs, tol=1e-7):
    """the blocks of the Jacobian of dA/dt, against the state vectors of the variations they are built from"""
    As = [a.copy() for a in m.data]
    L, d = len(As), As[0].shape[0]
    J1, J2, G2 = m.jac([h.copy() for h in hs], real_matrix=False)
    for a, b in zip(As, m.data):
        g.ok('the state is not modified', np.array_equal(a, b))
    l, r = m.get_envs()
    dirs = [(m.left_null_projector(n, l, get_vL=True)[1].shape[2], As[n].shape[2]) for n in range(L)]
    idx = [n for n in range(L) for _ in range(dirs[n][0]*dirs[n][1])]
    N = len(idx)
    g.ok('one row and column per tangent direction', J1.shape == J2.shape == G2.shape == (N, N), (J1.shape, N))
    Bs = [m.import_tangent_vector(e).data[n] for e, n in zip(np.eye(N), idx)]
    T = np.array([put(As, {n: B}) for n, B in zip(idx, Bs)])
    g.close('the basis of the tangent space is orthonormal', T.conj()@T.T, np.eye(N), tol)
    g.close('and orthogonal to the state', T.conj()@v, np.zeros(N), tol)
    hv = apply_terms(hs, v, d)
    s = 1+np.linalg.norm(hv)
    flow = T.T@(T.conj()@(-1j*hv))
    TT = np.zeros((N, N, len(v)), complex)
    for a in range(N):
        for b in range(a):
            if idx[a] != idx[b]:
                TT[a, b] = TT[b, a] = put(As, {idx[a]: Bs[a], idx[b]: Bs[b]})
    HT = np.array([apply_terms(hs, t, d) for t in T])
    s = max(s, np.linalg.norm(HT, axis=1).max(), abs(TT).max()*s)
    W1, W2, WG = -1j*T.conj()@HT.T, -1j*TT.conj()@hv, -TT.conj()@flow
    g.close('-i <d_i psi|H|d_j psi>', J1, W1, tol, scale=s)
    g.close('-i <d_i d_j psi|H|psi>', J2, W2, tol, scale=s)
    g.close('-<d_i d_j psi|d psi/dt>', G2, WG, tol, scale=s)
    return T, W1, W2+WG, s


def real_form(J1, J2):
    return np.block([[J1.real+J2.real, -J1.imag+J2.imag], [J1.imag+J2.imag, J1.real-J2.real]])


@case('C26', 40)
def jacobian(g):
    m, v, L, d = tangent_state(g)
    hs = model(g, L, d)
    T, J1, J2, s = linearised(g, m, v, hs)
    J = m.jac(hs)
    N = len(T)
    g.close('the real form acts on real and imaginary parts', J, real_form(J1, J2), 1e-7, scale=s)
    Om = np.kron([[0, 1], [-1, 0]], np.eye(N))
    g.close('the flow is Hamiltonian', Om@J, (Om@J).T, 1e-7, scale=s)
    x = g.cplx(N)
    B = m.import_tangent_vector(x)
    g.close('a vector of coefficients is the variation it names', tangent_vector(m.data, B.data), T.T@x, 1e-8, scale=np.linalg.norm(x))
    g.close('and can be read back', m.extract_tangent_vector(B), x, 1e-7, scale=np.linalg.norm(x))
    g.close('the evolution of a tangent vector', m.ddA_dt(x, hs), J1@x+J2@x.conj(), 1e-7, scale=s*np.linalg.norm(x))


@case('C26', 15)
def restricted_to_the_start(g):
    """a linearisation: the flow of a varied state differs by the image of the variation, as far as the tangent space sees it"""
    m, v, L, d = tangent_state(g, Lmax=4, Dmax=2)
    hs = model(g, L, d)
    H = ham_dense(hs, d)
    J1, J2, G2 = m.jac(hs, real_matrix=False)
    N = len(J1)
    x = g.cplx(N)
    x = x/np.linalg.norm(x)
    B = m.import_tangent_vector(x).data
    T = np.array([tangent_vector(m.data, m.import_tangent_vector(e).data) for e in np.eye(N)])
    def miss(e):
        """d/dt psi + i H psi at the varied state: its overlap with the fixed tangent space"""
        As = [a+e*b for a, b in zip(m.data, B)]
        return T.conj()@(-1j*(H@dense(As)))
    want = (miss(1e-4)-miss(-1e-4))/2e-4
    g.close('linear part', J1@x, want, 1e-5, scale=1+np.linalg.norm(H))


@case('C26', 20)
def full_bond_dimension_is_an_isometry(g):
    """where the bonds do not restrict the state the linearised flow is unitary"""
    m, v, L, d = tangent_state(g, Lmax=4, full=True, cap=30)
    hs = model(g, L, d)
    J = m.jac(hs)
    s = 1+sum(np.linalg.norm(h) for h in hs)*d**((L-2)/2)
    g.close('antisymmetric', J, -J.T, 1e-6, scale=s)


@case('C26', 20)
def gauge_independence(g):
    m, v, L, d = tangent_state(g)
    hs = model(g, L, d)
    spec = []
    for As in (m.data, gauge(g, m.data)):
        J = F()([a.copy() for a in As]).jac(hs)
        spec.append([np.trace(J), np.trace(J@J), np.trace(J@J@J), np.trace(J@J.T), np.linalg.norm(J@J)])
    s = 1+np.linalg.norm(J, 2)
    for k, (a, b) in enumerate(zip(*spec)):
        g.close('invariants do not depend on the gauge', a, b, 1e-6, scale=len(J)*s**(1, 2, 3, 2, 2)[k])


@case('C26', 6)
def long_chains(g):
    m, v, L, d = tangent_state(g, Lmin=11, Lmax=12, Dmax=1 if g.bool('product', .7) else 2, cap=5000, ds=(2,))
    linearised(g, m, v, model(g, L, d))


@case('C26', 12)
def along_a_trajectory(g):
    """the basis carried from one time to the next is a basis of the tangent space of the state it is used with"""
    m, v, L, d = tangent_state(g, Lmax=4, Dmax=2, cap=30)
    hs = model(g, L, d)
    m.jac(hs)
    n = traj(m, hs).rk4(m, g.pick('dt', [.01, .05]), hs)
    if g.bool('right', .5):
        n.right_canonicalise()
    w = dense(n.data)
    if [a.shape for a in n.data] != [a.shape for a in m.data] or min(schmidt(w, k, L, d)[:n.data[k].shape[1]].min() for k in range(1, L)) < 5e-3:
        raise Skip()
    n.match_gauge_to(m)
    g.fid('matching the gauge keeps the state', dense(n.data), w, 1e-8)
    w = dense(n.data)
    n.old_vL = m.new_vL
    J1, J2, G2 = n.jac(hs, real_matrix=False)
    l, r = n.get_envs()
    T = []
    for k, (A, V) in enumerate(zip(n.data, n.new_vL)):
        X, Y = np.linalg.inv(np.linalg.cholesky(l(k-1))).conj().T, np.linalg.inv(np.linalg.cholesky(r(k)))
        B = np.einsum('ab,sbx,yc->xysac', X, V, Y)
        T += [put(n.data, {k: b}) for b in B.reshape((-1,)+A.shape)]
    T = np.array(T)
    g.close('the carried basis is orthonormal', T.conj()@T.T, np.eye(len(T)), 1e-7)
    g.close('orthogonal to the new state', T.conj()@w, np.zeros(len(T)), 1e-7)
    H = ham_dense(hs, d)
    g.close('-i <d_i psi|H|d_j psi>', J1, -1j*T.conj()@H@T.T, 1e-7, scale=1+np.linalg.norm(H))
    for V, U in zip(n.new_vL, n.old_vL):
        if V.size:
            S = np.einsum('sax,say->xy', U.conj(), V)
            g.close('the frames are parallel', S, S.conj().T, 1e-6)


@case('C26', 10)
def lyapunov_exponents(g):
    full = g.bool('full bonds')
    m, v, L, d = tangent_state(g, Lmax=4, Dmax=2, full=full, cap=20, ds=(2,))
    hs = model(g, L, d)
    if full and min(schmidt(v, k, L, d)[:m.data[k].shape[1]].min() for k in range(1, L)) < 5e-2:
        raise Skip()
    n = sum(np.linalg.norm(h) for h in hs)
    if n > 0:
        hs = [h/n for h in hs]
    t = traj(m.copy(), hs)
    T = g.pick('dt', [.01, .02])*np.arange(g.int('steps', 2, 5))
    basis = g.pick('basis', ['eye', 'rand', 'F2'])
    T_, (exps, lys, conv, paired), _ = t.lyapunov(T, D=None, t_burn=0, initial_basis=basis, thresh=None)
    N = 2*sum(p[0]*p[1] for p in m.tangent_space_dims(m.get_envs()[0]))
    g.ok('one spectrum per time', np.shape(lys) == np.shape(exps) == (len(T), N), (np.shape(lys), np.shape(exps), len(T), N))
    g.close('phase space volume is conserved', np.sum(lys, 1), np.zeros(len(T)), 1e-7)
    g.close('the exponents are the running means', exps, np.cumsum(lys, 0)/np.arange(1, len(T)+1)[:, None]/(T[1]-T[0]), 1e-7, scale=1/(T[1]-T[0]))
    if full:
        g.close('an unrestricted state has no unstable directions', lys, np.zeros_like(lys), 1e-6)
