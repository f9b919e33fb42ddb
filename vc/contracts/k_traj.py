"""trajectories (C12): the integrators over the contracts of the field (C11) and of the canonicalisation (C02)"""
from api import contract

F, T, I, J = 'xmps.fMPS', 'xmps.fTDVP', 'xmps.iMPS', 'xmps.iTDVP'
BL = 'chain length'


def profile(c, L):
    """the standard bonds at a limit D that every chain of this length can reach: d, D with D at most the largest rank"""
    d, D = c.dim('d', 2), c.dim('D', 2)
    c.atmost(D, c.np.prod([d]*(L//2)))
    for k in range(1, L//2):
        c.atmost(c.np.prod([d]*k), D)
    b = [1]+[None]*(L-1)+[1]
    for k in range(1, L):
        j = min(k, L-k)
        b[k] = D if j == L//2 else c.np.prod([d]*j)
    return d, D, b


def setup(c, L, full=False, sizes=None):
    """a state, a Hamiltonian and a trajectory; the field is an arbitrary function of the state, canonicalising keeps the ray"""
    M = c.mod(F)
    if sizes:
        d, D, b = sizes
        m = M.fMPS([c.arr('A%d' % i, d, b[i], b[i+1]) for i in range(L)])
    else:
        m = c.mps('A', L)
        d = m.d
        for A in m.data:
            c.atmost(A.shape[2], d*A.shape[1])
            c.atmost(A.shape[1], d*A.shape[2])
    if not c.symbolic:
        # small steps whatever the scale of the drawn state
        m = m.left_canonicalise(minD=False)
    hs = [c.arr('h%d' % k, d, d, d, d, herm=True).reshape(d*d, d*d) for k in range(L-1)]
    H = c.arr('H', *[d]*(2*L), herm=True).reshape(*[c.np.prod([d]*L)]*2) if full else hs
    c.uninterpreted(M.fMPS, 'dA_dt')
    c.same_ray(M.fMPS, 'left_canonicalise')
    return m, H, c.mod(T).Trajectory(m, H, fullH=full)


def embedded(np, hs, L):
    r = 0
    for k, h in enumerate(hs):
        r = np.kron(np.kron(np.eye(2**k), h), np.eye(2**(L-2-k)))+r
    return r


def comb(*terms):
    """sum of multiples of lists of tensors"""
    return [sum([k*x[i] for k, x in terms[1:]], terms[0][0]*terms[0][1][i]) for i in range(len(terms[0][1]))]


def stages(c, cls, A, dt, order, field):
    """the next state by the textbook formula"""
    f = lambda X: field(cls(list(X))).data
    if order == 1:
        return comb((1, A), (dt, f(A)))
    k1 = f(A)
    k2 = f(comb((1, A), (dt/2, k1)))
    k3 = f(comb((1, A), (dt/2, k2)))
    k4 = f(comb((1, A), (dt, k3)))
    return comb((1, A), (dt/6, k1), (dt/3, k2), (dt/3, k3), (dt/6, k4))


@contract('C12', 'one step', BL, grid=[dict(L=n, order=o, full=f, store=s) for n in (2, 3) for o in (1, 4) for f, s in ((False, True), (True, False), (False, False))])
def _(c, L, order, full, store):
    m, H, t = setup(c, L, full)
    dt = .03125
    tok = c.snap(m, H)
    A = list(m.data)
    want = stages(c, c.mod(F).fMPS, A, dt, order, lambda x: x.dA_dt(H, fullH=full))
    s = m.serialize(real=True)
    out = (t.euler if order == 1 else t.rk4)(m, dt, store=store)
    c.proportional('the combination of slopes of the stated order', c.dense(out.data), c.dense(want))
    c.unchanged('the start and the Hamiltonian are kept', tok)
    c.true('history grows by one exactly when storing', len(t.mps_history) == int(store) and len(t.Ds) == 1+int(store))
    if store:
        c.eq('the stored state is the start of the step', t.mps_history[-1], s)
        c.true('with its bond dimension', lambda: c.same(t.Ds[-1], m.D))


@contract('C12', 'one step with another Hamiltonian', BL, grid=[dict(L=2, order=o) for o in (1, 4)])
def _(c, L, order):
    m, H, t = setup(c, L)
    d = m.data[0].shape[0]
    G = [c.arr('g%d' % k, d*d, d*d, herm=True) for k in range(L-1)]
    want = stages(c, c.mod(F).fMPS, list(m.data), .03125, order, lambda x: x.dA_dt(G, fullH=False))
    out = (t.euler if order == 1 else t.rk4)(m, .03125, G)
    c.proportional('the combination of slopes of that Hamiltonian', c.dense(out.data), c.dense(want))


@contract('C12', 'integrated trajectory', 'chain length, number of times', grid=[dict(L=n, order=o, steps=s) for n, o, s in ((2, 1, 3), (2, 4, 2), (3, 1, 2), (4, 1, 2))])
def _(c, L, order, steps):
    m, H, t = setup(c, L, sizes=profile(c, L))
    dt = .03125
    times = [.25+dt*k for k in range(steps)]
    tok = c.snap(m, H)
    r = (t.eulerint if order == 1 else t.rk4int)(times)
    c.true('returns the trajectory', r is t)
    c.true('one stored state per time', len(t.mps_history) == steps and len(t.Ds) == steps+1)
    c.unchanged('the state given is kept', tok)
    lst = t.mps_list()
    c.true('one listed state per time', len(lst) == steps)
    cur = m.left_canonicalise() if c.symbolic else m.copy().left_canonicalise()
    for k in range(steps):
        c.proportional('entry %d is the state after %d steps' % (k, k), c.dense(lst[k].data), c.dense(cur.data))
        cur = (t.euler if order == 1 else t.rk4)(cur, dt, store=False)
    c.proportional('the final state is the last entry', c.dense(t.mps.data), c.dense(lst[-1].data))


@contract('C12', 'exact evolution', 'chain length, local dimension, number of times', grid=[dict(L=2, full=True, steps=3), dict(L=2, full=False, steps=2)], thorough=[dict(L=3, full=False, steps=2)])
def _(c, L, full, steps):
    np = c.np
    if c.symbolic:
        c.allocs()
    m, H, t = setup(c, L, full, sizes=(2, 2, [1]+[2]*(L-1)+[1]))
    dt = .25
    v = c.dense(m.data)
    n = 2**L
    t.edint([dt*k for k in range(steps)])
    if full:
        Hd = H
    else:
        Hd = embedded(np, H, L)
    psi = v.reshape(n)
    c.true('one state per time', lambda: c.same(len(t.ed_history), steps))
    for k in range(steps):
        c.eq('entry %d' % k, t.ed_history[k], psi)
        psi = c.mod(T).expm_multiply(-1j*Hd*dt, psi)
    c.proportional('the final state', c.dense(t.mps.data).reshape(n), t.ed_history[-1])


@contract('C12', 'exact observables', 'chain length, local dimension, number of times', grid=[dict(L=2, full=True), dict(L=2, full=False), dict(L=3, full=False)])
def _(c, L, full):
    np = c.np
    m, H, t = setup(c, L, full, sizes=(2, 2, [1]+[2]*(L-1)+[1]))
    n, steps = 2**L, 2
    ps = [c.arr('p%d' % k, *[2]*L).reshape(n) for k in range(steps)]
    t.ed_history = np.array(ps)
    ops = [c.arr('o%d' % k, *[2]*(2*L)).reshape(n, n) for k in range(2)]
    e = t.ed_evs(ops)
    E = t.ed_energies()
    Hd = H if full else embedded(np, H, L)
    for k in range(steps):
        for j in range(2):
            z = c.vdot(ps[k], ops[j]@ps[k])
            c.eq('exact expectation value %d at time %d' % (j, k), e[k][j]*2, z+np.conj(z))
        z = c.vdot(ps[k], Hd@ps[k])
        c.eq('exact energy at time %d' % k, E[k][0]*2, z+np.conj(z))
    ls = t.loschmidt()
    c.true('one return amplitude per time', len(ls) == steps)
    for k in range(steps):
        c.eq('exact return amplitude %d' % k, ls[k], np.abs(c.vdot(ps[k], ps[0])))


@contract('C12', 'adaptive integration', 'chain length, number of times', grid=[dict(L=n, steps=s, full=f) for n, s, f in ((2, 3, False), (3, 2, False), (2, 2, True))])
def _(c, L, steps, full):
    """the right-hand side, the initial value and the times handed to solve_ivp, and what is made of its answer"""
    np = c.np
    d, D, b = profile(c, L)
    m, H, t = setup(c, L, full, sizes=(d, D, b))
    M = c.mod(F)
    got = {}
    shapes = [x.shape for x in m.data]
    ys = [M.fMPS([c.arr('Y%d_%d' % (k, i), *x) for i, x in enumerate(shapes)]) for k in range(steps)]
    Y = np.stack([y.serialize(real=True) for y in ys], axis=1)

    class Answer:
        y = Y

    def solve_ivp(f, span, v0, **k):
        got.update(f=f, span=span, v0=v0, **k)
        return Answer()
    c.always(c.mod(T), 'solve_ivp', solve_ivp)
    times = [.5+.25*k for k in range(steps)]
    tok = c.snap(m, H)
    c.true('returns the trajectory', t.odeint(times) is t)
    c.unchanged('the state given is kept', tok)
    c.true('span', tuple(got['span']) == (times[0], times[-1]))
    c.true('times', list(got['t_eval']) == times)
    c.true('steps bounded by the spacing', got.get('max_step', 1) <= times[1]-times[0])
    start = M.fMPS().deserialize(got['v0'], L, d, D, real=True)
    c.proportional('starts at the state', c.dense(start.data), c.dense(m.data))
    x = M.fMPS([c.arr('X%d' % i, *s) for i, s in enumerate(shapes)])
    if not c.symbolic:
        x = x.left_canonicalise(minD=False)
    c.eq('the right-hand side is the field', got['f'](.7, x.serialize(real=True)), x.dA_dt(H, fullH=full).serialize(real=True))
    c.true('one stored state per time', len(t.mps_history) == steps and len(t.mps_list()) == steps)
    for k, y in enumerate(t.mps_list()):
        c.eq('entry %d is read back' % k, y.serialize(real=True), Y[:, k])
    c.eq('the final state is the last entry', t.mps.serialize(real=True), Y[:, steps-1])


def history(c, L, steps, grown=False):
    """a trajectory with a history of arbitrary states; grown: the first of them was a product state"""
    M = c.mod(F)
    d, D, b = profile(c, L)
    m, H, t = setup(c, L, sizes=(d, D, b))
    bs = [[1]*(L+1) if grown and k == 0 else b for k in range(steps)]
    xs = [M.fMPS([c.arr('X%d_%d' % (k, i), d, bs[k][i], bs[k][i+1]) for i in range(L)]) for k in range(steps)]
    t.mps_history = [x.serialize(real=True) for x in xs]
    t.Ds = [1 if grown and k == 0 else D for k in range(steps+1)]
    return m, H, t, xs


@contract('C12', 'observables along a trajectory', 'chain length, number of times', grid=[dict(L=2, steps=2), dict(L=3, steps=2), dict(L=2, steps=2, grown=True), dict(L=3, steps=2, grown=True)], thorough=[dict(L=4, steps=1)])
def _(c, L, steps, grown=False):
    np = c.np
    M = c.mod(F)
    m, H, t, xs = history(c, L, steps, grown)
    d = m.d
    lst = t.mps_list()
    c.true('one state per time', len(lst) == steps and len(t.deserialize()) == steps)
    for k in range(steps):
        for i in range(L):
            c.eq('state %d site %d' % (k, i), lst[k].data[i], xs[k].data[i])
            c.eq('deserialised state %d site %d' % (k, i), t.deserialize()[k].data[i], xs[k].data[i])
    ops = [c.arr('o%d' % j, d, d) for j in range(2)]
    for s in range(L):
        e = t.mps_evs(ops, s)
        for k in range(steps):
            w = M.fMPS(list(xs[k].data)).Es(ops, s)
            for j in range(2):
                c.eq('expectation value %d at site %d of state %d' % (j, s, k), e[k][j], w[j])
    e = t.mps_energies()
    for k in range(steps):
        x = M.fMPS(list(xs[k].data)).left_canonicalise()
        c.eq('energy of state %d' % k, e[k], x.energy(H))
    ls = t.loschmidt()
    c.true('one return amplitude per time', len(ls) == steps)
    for k in range(steps):
        z = c.vdot(c.dense(xs[k].data), c.dense(xs[0].data))
        c.eq('return amplitude %d' % k, ls[k], np.abs(z))


@contract('C12', 'changes of bond dimension are recorded', 'sizes', grid=[dict(L=3)])
def _(c, L):
    M = c.mod(F)
    m, H, t = setup(c, L)
    calls = []

    def expand(self, D):
        calls.append(('expand', D))
        return self

    def left(self, *a, **k):
        calls.append(('left', a))
        return self
    c.always(M.fMPS, 'expand', expand)
    c.always(M.fMPS, 'left_canonicalise', left)
    n = len(t.Ds)
    c.true('returns the trajectory', t.expand(3) is t)
    c.true('expanded', calls == [('expand', 3)] and t.Ds[-1] == 3 and len(t.Ds) == n)
    c.true('returns the trajectory', t.contract(2) is t)
    c.true('cut', calls[1:] == [('left', (2,))] and t.Ds[-1] == 2 and len(t.Ds) == n)
    t.mps_history = [m.serialize(real=True)]
    t.mps.data[0] = c.arr('other', *m.data[0].shape)
    t.ed_history = [m.serialize()]
    t.clear()
    c.true('history cleared', not t.mps_history and not getattr(t, 'ed_history', None))
    c.true('the list of bond dimensions starts again', t.Ds == [m.D])
    c.proportional('back at the start', c.dense(t.mps.data), c.dense(m.data))


@contract('C12', 'one step of an infinite state', None, grid=[dict(order=o, store=s) for o in (1, 4) for s in (True, False)])
def _(c, order, store):
    Im = c.mod(I)
    d, D = c.dim('d', 2), c.dim('D', 2)
    A = c.injective('A', d, D)
    m = Im.iMPS([A])
    if not c.symbolic:
        m = m.left_canonicalise()
        m = Im.iMPS([m.data[0]])
        A = m.data[0]
    h = c.arr('h', d*d, d*d, herm=True)
    c.uninterpreted(Im.iMPS, 'dA_dt')
    c.same_ray(Im.iMPS, 'left_canonicalise')
    if not c.symbolic:
        # the canonical form of a tensor is unique up to a unitary: look at the tensor before
        c.always(Im.iMPS, 'left_canonicalise', lambda self, *a, **k: self)
    t = c.mod(J).Trajectory(m, [h])
    dt = .03125
    tok = c.snap(m, h)
    want = stages(c, Im.iMPS, [A], dt, order, lambda x: x.dA_dt([h]))
    s = m.serialize(real=True)
    out = (t.euler if order == 1 else t.rk4)(m, dt, store=store)
    c.eq('the combination of slopes of the stated order', out.data[0], want[0])
    c.unchanged('the start and the Hamiltonian are kept', tok)
    c.true('history grows by one exactly when storing', len(t.mps_history) == int(store) and len(t.Ds) == 1+int(store))
    if store:
        c.eq('the stored state is the start of the step', t.mps_history[-1], s)


@contract('C12', 'integrated trajectory of an infinite state', 'sizes, number of times', grid=[dict(d=2, D=2, order=1, steps=3), dict(d=2, D=3, order=4, steps=2), dict(d=3, D=2, order=1, steps=2)])
def _(c, d, D, order, steps):
    Im = c.mod(I)
    A = c.injective('A', d, D)
    m = Im.iMPS([A])
    if not c.symbolic:
        m = m.left_canonicalise()
        m = Im.iMPS([m.data[0]])
    h = c.arr('h', d*d, d*d, herm=True)
    c.uninterpreted(Im.iMPS, 'dA_dt')
    c.same_ray(Im.iMPS, 'left_canonicalise')
    if not c.symbolic:
        c.always(Im.iMPS, 'left_canonicalise', lambda self, *a, **k: self)
    t = c.mod(J).Trajectory(m, [h])
    dt = .03125
    r = (t.eulerint if order == 1 else t.rk4int)([dt*k for k in range(steps)])
    c.true('returns the trajectory', r is t)
    c.true('one stored state per time', len(t.mps_history) == steps)
    cur = m
    for k in range(steps):
        c.eq('entry %d is the state after %d steps' % (k, k), t.mps_history[k], cur.serialize(real=True))
        cur = (t.euler if order == 1 else t.rk4)(cur, dt, store=False)
    c.eq('the final state is the last entry', t.mps.serialize(real=True), t.mps_history[-1])
