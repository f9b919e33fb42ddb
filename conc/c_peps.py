"""contracts of fPEPS.py: two-dimensional states (C20) and matrix product operators (C21)"""
from base import *


def pp():
    import xmps.fPEPS as M
    return M


def raw_peps(g, Lxmin=1, Lymin=1, cap=4096, dmax=3, D=None, d=None, Lx=None, Ly=None):
    """tensors (d, up, right, down, left); non-uniform bonds"""
    Lx = g.int('Lx', Lxmin, 3) if Lx is None else Lx
    Ly = g.int('Ly', Lymin, 3) if Ly is None else Ly
    d = g.int('d', 2, dmax) if d is None else d
    while d**(Lx*Ly) > cap:
        if d > 2:
            d = 2
        elif Lx >= Ly:
            Lx -= 1
        else:
            Ly -= 1
    uni = D if D is not None else g.pick('bonds', [1, 2, 0, 0])
    h = {(i, j): (uni or g.py.randint(1, 3)) for j in range(Ly) for i in range(Lx-1)}
    v = {(i, j): (uni or g.py.randint(1, 3)) for j in range(Ly-1) for i in range(Lx)}
    re = g.bool('real', .2)
    As = bulk(g, [(g.re if re else g.cplx)(d, v.get((i, j-1), 1), h.get((i, j), 1), v.get((i, j), 1), h.get((i-1, j), 1)) for j in range(Ly) for i in range(Lx)])
    return [As[j*Lx:(j+1)*Lx] for j in range(Ly)]


def dense_peps(data, order=None):
    """vector in reading order (or the given list of (i, j)); outer bonds of size one"""
    Ly, Lx = len(data), len(data[0])
    args, n = [], [0]
    lab = {}

    def new(k):
        lab.setdefault(k, len(lab))
        return lab[k]
    ones = []
    for j in range(Ly):
        for i in range(Lx):
            ls = [('p', i, j), ('v', i, j-1), ('h', i, j), ('v', i, j), ('h', i-1, j)]
            args += [data[j][i], [new(k) for k in ls]]
    order = order or [(i, j) for j in range(Ly) for i in range(Lx)]
    return np.einsum(*args, [lab[('p',)+s] for s in order], optimize=True).reshape(-1)


def peps(g, normalise=False, **kw):
    for _ in range(10):
        data = raw_peps(g, **kw)
        v = dense_peps(data)
        sc = np.prod([np.linalg.norm(a) for r in data for a in r])
        if np.linalg.norm(v) > 1e-6*sc:
            break
    else:
        raise Skip()
    if normalise:
        n = np.linalg.norm(v)**(1/(len(data)*len(data[0])))
        data = [[a/n for a in r] for r in data]
        v = dense_peps(data)
    Lx, As = len(data[0]), cp([a for r in data for a in r])
    return pp().fPEPS([As[j*Lx:(j+1)*Lx] for j in range(len(data))]), v


def snake(Lx, Ly):
    return [(i if j % 2 == 0 else Lx-1-i, j) for j in range(Ly) for i in range(Lx)]


def perm_of(v, dims, order_from, order_to):
    """reorder the factors of v"""
    w = v.reshape([dims]*len(order_from))
    return w.transpose([order_from.index(s) for s in order_to]).reshape(-1)


@case('C20', 30)
def recombination(g):
    x, v = peps(g)
    Lx, Ly, d = x.Lx, x.Ly, x.d
    g.ok('lattice', Lx == len(x.data[0]) and Ly == len(x.data) and d == x.data[0][0].shape[0])
    g.close('reading order', x.recombine().reshape(-1), v, 1e-9)
    rd = [(i, j) for j in range(Ly) for i in range(Lx)]
    g.close('snake order', x.recombine('row_snake').reshape(-1), perm_of(v, d, rd, snake(Lx, Ly)), 1e-9)
    g.ok('largest bond', x.bond_dimension == max(max(a.shape[1:]) for r in x.data for a in r))
    g.ok('structure', x.structure == [[a.shape for a in r] for r in x.data])
    y = x.copy()
    g.ok('copy equal', y == x)
    y.data[0][0] = y.data[0][0]*2
    y.data[-1][-1][...] = 0
    g.close('copy independent', x.recombine().reshape(-1), v, 1e-9)


@case('C20', 30)
def geometry(g):
    x, v = peps(g)
    Lx, Ly, d = x.Lx, x.Ly, x.d
    rd = [(i, j) for j in range(Ly) for i in range(Lx)]
    if g.bool('centre'):
        x.oc = (g.int('oi', 0, Lx-1), g.int('oj', 0, Ly-1))
    for name, y, m in (('T', x.T, lambda s: (s[1], s[0])), ('R', x.R, lambda s: (Lx-1-s[0], s[1])), ('U', x.U, lambda s: (s[0], Ly-1-s[1]))):
        g.ok(name+' lattice', (y.Lx, y.Ly) == ((Ly, Lx) if name == 'T' else (Lx, Ly)))
        rd2 = [(i, j) for j in range(y.Ly) for i in range(y.Lx)]
        # site s of x sits at m(s) of y (all three are involutions)
        order = [{m(s): s for s in rd}[t] for t in rd2]
        g.close(name+' moves the sites', dense_peps(y.data), perm_of(v, d, rd, order), 1e-9)
        g.ok(name+' twice is the identity', getattr(y, name) == x)
        if hasattr(x, 'oc'):
            g.ok(name+' moves the centre', tuple(y.oc) == m(x.oc))
    M = pp()
    A = x.data[0][0]
    g.close('clockwise quarter turn', M.rotate_peps_tensor_cc(A), A.transpose(0, 4, 1, 2, 3), 0)
    g.close('quarter turns are inverse', M.rotate_peps_tensor_ac(M.rotate_peps_tensor_cc(A)), A, 0)
    t = A
    for _ in range(4):
        t = M.rotate_peps_tensor_cc(t)
    g.close('four quarter turns', t, A, 0)
    g.close('transposition is an involution', M.transpose_peps_tensor(M.transpose_peps_tensor(A)), A, 0)


@case('C20', 25)
def overlaps(g):
    x, v = peps(g)
    y, w = peps(g, Lx=x.Lx, Ly=x.Ly, d=x.d, cap=10**9) if g.bool('other', .7) else (x, v)
    sc = np.linalg.norm(v)*np.linalg.norm(w)
    g.close('overlap', np.squeeze(x.overlap(y)), np.vdot(v, w), 1e-8, scale=sc)
    g.close('full overlap', np.squeeze(x.full_overlap(y)), np.vdot(v, w), 1e-8, scale=sc)
    g.close('norm', np.squeeze(x.norm()), np.linalg.norm(v), 1e-7, scale=np.linalg.norm(v))
    g.close('first operand kept', dense_peps(x.data), v, 0)
    g.close('second operand kept', dense_peps(y.data), w, 0)


@case('C20', 25)
def normalisation(g):
    x, v = peps(g)
    if any(np.isrealobj(a) for r in x.data for a in r):
        x.data = [[a+0j for a in r] for r in x.data]
    y = x.normalise()
    g.close('norm one', np.linalg.norm(dense_peps(y.data)), 1, 1e-8)
    g.fid('same ray', dense_peps(y.data), v)


@case('C20', 30)
def expectation(g):
    x, v = peps(g, normalise=g.bool('normalised', .7))
    Lx, Ly, d = x.Lx, x.Ly, x.d
    i, j = g.int('i', 0, Lx-1), g.int('j', 0, Ly-1)
    op = g.herm(d) if g.bool('herm') else g.cplx(d, d)
    w = apply_dense(v, op, [j*Lx+i], Lx*Ly, d)
    n = np.linalg.norm(v)**2
    g.close('expectation value', x.E(op, (i, j)), np.vdot(v, w).real, 1e-8*max(n, 1e-300)*max(1, np.linalg.norm(op)), scale=1.)
    y = x.apply(op, (i, j))
    g.close('apply', dense_peps(y.data), w, 1e-9)
    g.close('apply leaves the state', dense_peps(x.data), v, 0)
    wd, ht = g.int('width', 1, Lx-i), g.int('height', 1, Ly-j)
    k = wd*ht
    if k <= 4:
        op = g.herm(d**k)
        sites = [(j+b)*Lx+i+a for a in range(wd) for b in range(ht)]      # the order rho uses: column by column
        w = apply_dense(v, op, sites, Lx*Ly, d)
        g.close('block expectation value, operator column by column', x.E_k(op, ((i, j), (wd, ht))), np.vdot(v, w).real,
                1e-8*n*np.linalg.norm(op), scale=1.)
        c = x.contract(((i, j), (wd, ht)))
        g.ok('contracted lattice', (c.Lx, c.Ly) == (Lx-wd+1, Ly-ht+1))
    g.close('state kept', dense_peps(x.data), v, 0)


@case('C20', 25)
def addition(g):
    Lx, Ly = g.int('Lx', 2, 3), g.int('Ly', 2, 3)
    d = 2
    x, v = peps(g, Lx=Lx, Ly=Ly, d=d)
    y, w = peps(g, Lx=Lx, Ly=Ly, d=d)
    if (x.Lx, x.Ly) != (y.Lx, y.Ly):
        raise Skip()
    s = x.add(y)
    g.close('sum of the vectors', dense_peps(s.data), v+w, 1e-9)
    g.close('operands kept', dense_peps(x.data), v, 0)


@case('C20', 25)
def from_chain(g):
    from xmps.fMPS import fMPS
    Lx, Ly = g.pick('lattice', [(2, 2), (3, 3), (2, 3), (3, 2), (4, 2), (2, 4), (2, 5), (5, 2)])
    L = Lx*Ly
    bonds = [1]+[g.int('b', 1, 3) for _ in range(L-1)]+[1]
    m = fMPS([g.cplx(2, bonds[i], bonds[i+1]) for i in range(L)])
    v = dense(m.data)
    p = pp().fPEPS().from_mps(m, Lx) if (Lx != Ly or g.bool('explicit')) else pp().fPEPS().from_mps(m)
    g.ok('lattice', (p.Lx, p.Ly) == (Lx, Ly))
    g.close('same vector in snake order', dense_peps(p.data, snake(Lx, Ly)), v, 1e-9)
    g.close('recombines in snake order', p.recombine('row_snake').reshape(-1), v, 1e-9)
    g.close('chain kept', dense(m.data), v, 0)


@case('C20', 20)
def random_states(g):
    Lx, Ly, d, X = g.int('Lx', 1, 4), g.int('Ly', 1, 4), g.int('d', 1, 3), g.int('X', 1, 3)
    if Lx*Ly == 1:
        raise Skip()
    p = pp().fPEPS().random(Lx, Ly, d, X)
    g.ok('size', len(p.data) == Ly and all(len(r) == Lx for r in p.data))
    for j in range(Ly):
        for i in range(Lx):
            want = (d, 1 if j == 0 else X, 1 if i == Lx-1 else X, 1 if j == Ly-1 else X, 1 if i == 0 else X)
            g.ok('bonds', p.data[j][i].shape == want, (p.data[j][i].shape, want))


@case('C20', 20)
def isometric(g):
    Lx, Ly = g.int('Lx', 2, 4), g.int('Ly', 2, 3)
    chi = g.int('chi', 2, 4)
    p = pp().fPEPS().random(Lx, Ly, 2, chi)
    oc = (g.int('i', 0, Lx-1), g.int('j', 0, Ly-1))
    x = p.isometrise(oc)
    g.close('norm one', np.squeeze(x.norm()), 1, 1e-7)
    op = g.herm(2)
    g.close('centre expectation value', x.iso_E(op), np.vdot(dense_peps(x.data), apply_dense(dense_peps(x.data), op, [oc[1]*Lx+oc[0]], Lx*Ly, 2)).real, 1e-7)
    g.close('agrees with the full contraction', x.iso_E(op, oc), x.E(op, oc), 1e-7)
    g.ok('centre', tuple(x.oc) == oc)
    for name in 'TRU':
        g.close('local contents under '+name, getattr(x, name).iso_E(op), x.iso_E(op), 1e-9)


@case('C20', 25)
def product_blocks(g):
    x, v = peps(g, D=1, normalise=g.bool('normalised'))
    y, w = peps(g, D=1, Lx=x.Lx, Ly=x.Ly, d=x.d)
    i, j = g.int('i', 0, x.Lx-1), g.int('j', 0, x.Ly-1)
    wd, ht = g.int('width', 1, x.Lx-i), g.int('height', 1, x.Ly-j)
    r = x.rho(((i, j), (wd, ht)))
    rp = x.rho_proj(y, ((i, j), (wd, ht)))
    g.ok('block', r.shape[:2] == (wd, ht) == rp.shape[:2])
    for a in range(wd):
        for b in range(ht):
            s, t = x.data[j+b][i+a].reshape(-1), y.data[j+b][i+a].reshape(-1)
            g.close('local density matrix', r[a, b], np.outer(s, s.conj()), 1e-12)
            g.close('local transition matrix', rp[a, b], np.outer(s, t.conj()), 1e-12)


@case('C20', 25)
def truncation(g):
    x, v = peps(g, Lxmin=2, Lymin=2)
    i, j = g.int('i', 0, x.Lx-1), g.int('j', 0, x.Ly-1)
    D = g.int('D', 1, 3)
    before = [[a.copy() for a in r] for r in x.data]
    k = g.pick('which', ['above', 'below', 'left', 'fix'])
    S = slice(None)

    def cut(j_, i_, ax):
        s = [S]*5
        s[ax] = slice(0, D)
        before[j_][i_] = before[j_][i_][tuple(s)]
    if k == 'above' and j > 0:
        x.truncate_above(j, D)
        for a in range(x.Lx):
            cut(j-1, a, 3)
            cut(j, a, 1)
    elif k == 'below' and j < x.Ly-1:
        x.truncate_below(j, D)
        for a in range(x.Lx):
            cut(j, a, 3)
            cut(j+1, a, 1)
    elif k == 'left' and i > 0:
        x.truncate_left(i, D)
        for b in range(x.Ly):
            cut(b, i, 4)
            cut(b, i-1, 2)
    elif k == 'fix':
        # oversize one tensor and let it fit its neighbours again
        t = x.data[j][i]
        pads = [(0, 0)]+[(0, 0 if e else 1) for e in (j == 0, i == x.Lx-1, j == x.Ly-1, i == 0)]
        x.data[j][i] = np.pad(t, pads)
        x.fix_neighbours(i, j)
    else:
        raise Skip()
    for r, q in zip(x.data, before):
        for a, b in zip(r, q):
            g.close('tensor', a, b, 0)


# ------------------------------------------------------------------ C21
def raw_mpo(g, L=None, d=None, dims=None):
    """tensors (d_out?, right, d_in?, left): leg order 0 up, 1 right, 2 down, 3 left"""
    L = g.int('L', 2, 5) if L is None else L
    d = g.int('d', 1, 3) if d is None else d
    while d**(2*L) > 10**5:
        L -= 1
    k = g.pick('bonds', [0, 0, 0, 1, 2])
    b = [1]+[k or g.int('b', 1, 3) for _ in range(L-1)]+[1]
    re = g.bool('real', .2)
    return bulk(g, [(g.re if re else g.cplx)(d, b[i+1], d, b[i]) for i in range(L)])


def dense_mpo(Ws):
    """M[(up...), (down...)]"""
    out = np.ones((1, 1, 1), dtype=complex)        # up, down, bond
    for W in Ws:
        out = np.einsum('udl,arbl->uadbr', out, W).reshape(out.shape[0]*W.shape[0], out.shape[1]*W.shape[2], W.shape[1])
    return out[:, :, 0]


@case('C21', 40)
def operators(g):
    M = pp()
    Ws = raw_mpo(g)
    o = M.fMPO(cp(Ws))
    A = dense_mpo(Ws)
    # recombine returns the operator mapping the up legs to the down legs: conjugate transpose of M[up, down]
    g.close('dense operator', o.recombine(), A.conj().T, 1e-9)
    g.ok('lattice', o.L == len(Ws) and o.d == Ws[0].shape[0])
    g.ok('structure', o.structure() == [w.shape for w in Ws])
    g.close('transposed twice (ud)', dense_mpo(M.fMPO(cp(Ws)).transpose_ud().transpose_ud().data), A, 1e-12)
    g.close('transposed (ud)', dense_mpo(M.fMPO(cp(Ws)).transpose_ud().data), A.T, 1e-12)
    t = M.fMPO(cp(Ws)).transpose_lr()
    g.close('reflected', dense_mpo(t.reverse().data), reflect(A, len(Ws), Ws[0].shape[0]), 1e-10)
    t = M.fMPO(cp(Ws)).transpose_lr().transpose_lr()
    for a, b in zip(t.data, Ws):
        g.close('transposed twice (lr)', a, b, 0)
    r = o.rotate_90()
    for a, b in zip(r.data, Ws):
        g.close('quarter turn', a, b.transpose(3, 0, 1, 2), 0)
    for a, b in zip(r.unrotate_90().data, Ws):
        g.close('turned back', a, b, 0)
    for a, b in zip(o.rotate_90().rotate_90().rotate_90().rotate_90().data, Ws):
        g.close('four quarter turns', a, b, 0)
    for a, b in zip(o.data, Ws):
        g.close('operator kept', a, b, 0)
    t = M.fMPO(list(o.data)).reverse().reverse()
    for a, b in zip(t.data, Ws):
        g.close('reversed twice', a, b, 0)


def reflect(A, L, d):
    T = A.reshape([d]*(2*L))
    return T.transpose(list(range(L))[::-1]+list(range(L, 2*L))[::-1]).reshape(A.shape)


@case('C21', 40)
def products(g):
    M = pp()
    d = g.int('d', 1, 3)
    X = raw_mpo(g, d=d)
    Y = raw_mpo(g, L=len(X), d=d)
    if len(Y) != len(X):
        raise Skip()
    x, y = M.fMPO(cp(X)), M.fMPO(cp(Y))
    p = x*y
    g.close('product of operators', p.recombine(), x.recombine()@y.recombine(), 1e-8)
    g.close('product of operators (dense)', p.recombine(), dense_mpo(X).conj().T@dense_mpo(Y).conj().T, 1e-8)
    for a, b in zip(x.data+y.data, X+Y):
        g.close('factors kept', a, b, 0)
    g.ok('length', p.L == len(X))
    g.ok('bond dimension bound', p.X == x.X*y.X)
    z = M.fMPO(raw_mpo(g, L=len(X), d=d))
    if z.L == len(X):
        g.close('associative', ((x*y)*z).recombine(), (x*(y*z)).recombine(), 1e-7)


@case('C21', 40)
def on_states(g):
    M = pp()
    from xmps.fMPS import fMPS
    d = g.int('d', 2, 3)
    X = raw_mpo(g, d=d)
    L = len(X)
    m, v = fmps(g, L=L, d=d, kinds=['std', 'irregular'])
    if len(m.data) != L:
        raise Skip()
    x = M.fMPO(cp(X))
    s = M.fMPO().from_mps(m)
    g.close('state as operator', s.recombine().reshape(-1), v.conj(), 1e-9)
    g.ok('state sizes', s.L == L and s.d == d)
    q = x*m
    g.close('operator on a state', q.recombine().reshape(-1), x.recombine()@v.conj(), 1e-8)
    g.close('operator on a state (dense)', q.recombine().reshape(-1), dense_mpo(X).conj().T@v.conj(), 1e-8)
    g.close('state kept', dense(m.data), v, 0)
    t = M.fMPO().trivial(L)
    g.close('trivial operator', t.recombine(), np.ones((1, 1)), 0)
    r = M.fMPO().random(L, d, 2)
    g.ok('random structure', [w.shape for w in r.data] == r.create_structure(L, d, 2) and r.L == L and r.d == d)
    g.close('random operator', r.recombine(), dense_mpo(r.data).conj().T, 1e-9)
