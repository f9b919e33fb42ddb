"""fPEPS.py: two-dimensional states (C20) and matrix product operators (C21)"""
from api import contract
import itertools

M = 'xmps.fPEPS'
LT = 'lattice'
LATS = [dict(Lx=x, Ly=y) for x, y in ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3))]
BIG = [dict(Lx=x, Ly=y) for x, y in ((4, 1), (1, 4), (3, 3))]
PLANE = [dict(Lx=x, Ly=y) for x, y in ((2, 2), (3, 2), (2, 3))]


def tensors(c, name, Lx, Ly, d=None, D=None):
    """tensors (d, up, right, down, left) with arbitrary bonds"""
    d = d or c.dim('d')
    b = {}
    for j in range(Ly):
        for i in range(Lx):
            if i < Lx-1:
                b['h', i, j] = D or c.dim('%sh%d%d' % (name, i, j))
            if j < Ly-1:
                b['v', i, j] = D or c.dim('%sv%d%d' % (name, i, j))
    return [[c.arr('%s%d%d' % (name, i, j), d, *[b.get(k, 1) for k in (('v', i, j-1), ('h', i, j), ('v', i, j), ('h', i-1, j))])
             for i in range(Lx)] for j in range(Ly)]


def reading(Lx, Ly):
    return [(i, j) for j in range(Ly) for i in range(Lx)]


def snake(Lx, Ly):
    return [(i if j % 2 == 0 else Lx-1-i, j) for j in range(Ly) for i in range(Lx)]


def dense(c, data, order=None):
    """the contraction of the network, one index per site in the given order (reading order by default)"""
    Ly, Lx = len(data), len(data[0])
    lab, args = {}, []

    def new(k):
        return lab.setdefault(k, len(lab))
    for i, j in reading(Lx, Ly):
        A = data[j][i]
        ls = [('p', i, j)]
        idx = [slice(None)]
        for e, k in ((j == 0, ('v', i, j-1)), (i == Lx-1, ('h', i, j)), (j == Ly-1, ('v', i, j)), (i == 0, ('h', i-1, j))):
            if e:
                if not c.one(A.shape[len(idx)]):
                    raise AssertionError('outer bond of another size')
                idx.append(0)
            else:
                idx.append(slice(None))
                ls.append(k)
        args += [A[tuple(idx)], [new(k) for k in ls]]
    order = order or reading(Lx, Ly)
    return c.np.einsum(*args, [lab[('p',)+s] for s in order])


def flat(c, v):
    return v.reshape(c.np.prod(v.shape))


def state(c, name, Lx, Ly, **k):
    return c.mod(M).fPEPS(tensors(c, name, Lx, Ly, **k))


@contract('C20', 'recombine', LT, grid=LATS, thorough=BIG)
def _(c, Lx, Ly):
    x = state(c, 'A', Lx, Ly)
    t = c.snap(x)
    c.true('lattice', (x.Lx, x.Ly) == (Lx, Ly))
    c.eq('reading order', x.recombine().reshape(-1), flat(c, dense(c, x.data)))
    c.eq('snake order', x.recombine('row_snake').reshape(-1), flat(c, dense(c, x.data, snake(Lx, Ly))))
    c.unchanged('state kept', t)


@contract('C20', 'geometric moves', LT, grid=LATS, thorough=BIG)
def _(c, Lx, Ly):
    x = state(c, 'A', Lx, Ly)
    v = dense(c, x.data)
    t = c.snap(x)
    x.oc = (Lx//2, Ly-1)
    for name, m in (('T', lambda s: (s[1], s[0])), ('R', lambda s: (Lx-1-s[0], s[1])), ('U', lambda s: (s[0], Ly-1-s[1]))):
        y = getattr(x, name)
        c.true(name+' lattice', (y.Lx, y.Ly) == ((Ly, Lx) if name == 'T' else (Lx, Ly)))
        # the site at s of x sits at m(s) of y
        c.eq(name+' moves the sites', dense(c, y.data, [m(s) for s in reading(Lx, Ly)]), v)
        c.true(name+' moves the centre', tuple(y.oc) == m(x.oc))
        z = getattr(y, name)
        c.true(name+' twice: lattice and centre', (z.Lx, z.Ly, tuple(z.oc)) == (Lx, Ly, tuple(x.oc)))
        for i, j in reading(Lx, Ly):
            c.eq(name+' twice is the identity at %d,%d' % (i, j), z.data[j][i], x.data[j][i])
    c.unchanged('state kept', t)


@contract('C20', 'turning a tensor')
def _(c):
    P = c.mod(M)
    np = c.np
    A = c.arr('A', *[c.dim(x) for x in ('d', 'u', 'r', 'e', 'l')])
    c.eq('clockwise', P.rotate_peps_tensor_cc(A), np.transpose(A, [0, 4, 1, 2, 3]))
    c.eq('anticlockwise', P.rotate_peps_tensor_ac(A), np.transpose(A, [0, 2, 3, 4, 1]))
    c.eq('inverse', P.rotate_peps_tensor_ac(P.rotate_peps_tensor_cc(A)), A)
    t = A
    for _ in range(4):
        t = P.rotate_peps_tensor_cc(t)
    c.eq('four quarter turns', t, A)
    c.eq('mirrored', P.transpose_peps_tensor(A), np.transpose(A, [0, 4, 3, 2, 1]))
    c.eq('mirrored twice', P.transpose_peps_tensor(P.transpose_peps_tensor(A)), A)
    B = np.conj(A)
    c.eq('transfer tensor', P.transfer_tensor(A), np.einsum(A, [0, 1, 2, 3, 4], B, [0, 5, 6, 7, 8], [1, 5, 2, 6, 3, 7, 4, 8]))


@contract('C20', 'joining two tensors')
def _(c):
    P = c.mod(M)
    np = c.np
    A = c.arr('A', *[c.dim(x) for x in ('d', 'u', 'r', 'm', 'l')])
    B = c.arr('B', *[c.dim(x) for x in ('e', 'm', 's', 'w', 'k')])
    pr = lambda *x: np.prod([c.dim(i) for i in x])
    c.eq('in a column', P.col_contract(A, B), np.einsum(A, [0, 1, 2, 3, 4], B, [5, 3, 6, 7, 8], [0, 5, 1, 2, 6, 7, 4, 8]).reshape(pr('d', 'e'), c.dim('u'), pr('r', 's'), c.dim('w'), pr('l', 'k')))
    A = c.arr('C', *[c.dim(x) for x in ('d', 'u', 'm', 'r', 'l')])
    B = c.arr('D', *[c.dim(x) for x in ('e', 's', 'w', 'k', 'm')])
    c.eq('in a row', P.row_contract(A, B), np.einsum(A, [0, 1, 2, 3, 4], B, [5, 6, 7, 8, 2], [0, 5, 1, 6, 7, 3, 8, 4]).reshape(pr('d', 'e'), pr('u', 's'), c.dim('w'), pr('r', 'k'), c.dim('l')))


@contract('C20', 'full overlap', LT, grid=LATS[:6], thorough=LATS[6:])
def _(c, Lx, Ly):
    x, y = state(c, 'A', Lx, Ly), state(c, 'B', Lx, Ly)
    t = c.snap(x, y)
    c.eq('inner product', c.num(x.full_overlap(y)), c.vdot(dense(c, x.data), dense(c, y.data)))
    c.unchanged('both kept', t)


@contract('C20', 'overlap', LT, grid=LATS)
def _(c, Lx, Ly):
    x, y = state(c, 'A', Lx, Ly), state(c, 'B', Lx, Ly)
    t = c.snap(x, y)
    v, w = dense(c, x.data), dense(c, y.data)
    c.eq('overlap', c.num(x.overlap(y)), c.vdot(v, w))
    if Lx*Ly < 5:
        c.eq('with itself', c.num(x.overlap(x)), c.vdot(v, v))
    c.unchanged('both kept', t)


@contract('C20', 'norm and normalisation', LT, grid=[dict(Lx=1, Ly=1), dict(Lx=2, Ly=1), dict(Lx=1, Ly=2), dict(Lx=2, Ly=2)])
def _(c, Lx, Ly):
    x = state(c, 'A', Lx, Ly)
    v = dense(c, x.data)
    n = c.num(x.norm())
    c.eq('norm squared', n*n, c.vdot(v, v))

    y = x.copy()
    z = y.normalise()
    w = dense(c, z.data)
    c.eq('unit norm', c.vdot(w, w), 1)
    c.proportional('same ray', w, v)
    c.eq('original kept', dense(c, x.data), v)


@contract('C20', 'single-site operators', LT, grid=[dict(l, i=i, j=j) for l in LATS for i, j in reading(l['Lx'], l['Ly'])])
def _(c, Lx, Ly, i, j):
    np = c.np
    x = state(c, 'A', Lx, Ly)
    t = c.snap(x)
    v = dense(c, x.data)
    d = c.dim('d')
    O = c.arr('O', d, d)
    w = c.op(O, v, [j*Lx+i])
    y = x.apply(O, (i, j))
    c.eq('apply', dense(c, y.data), w)
    c.disjoint('apply returns a new state', x, y)
    c.eq('expectation value', c.num(x.E(O, (i, j))), np.real(c.vdot(w, v)))
    c.unchanged('state kept', t)


def blocks(Lx, Ly):
    return [((i, j), (w, h)) for i, j in reading(Lx, Ly) for w in range(1, Lx-i+1) for h in range(1, Ly-j+1)]


@contract('C20', 'blocks', LT, grid=[dict(l, block=b) for l in ([LATS[0]]+LATS[1:6]) for b in blocks(l['Lx'], l['Ly'])], thorough=[dict(l, block=b) for l in LATS[6:] for b in blocks(l['Lx'], l['Ly'])])
def _(c, Lx, Ly, block):
    np = c.np
    (i, j), (w, h) = block
    x = state(c, 'A', Lx, Ly)
    t = c.snap(x)
    v = dense(c, x.data)
    d = c.dim('d')
    k = w*h
    O = c.arr('O', *[d]*(2*k))
    # column by column
    sites = [(j+b)*Lx+i+a for a in range(w) for b in range(h)]
    u = c.op(O, v, sites)
    n = np.prod([d]*k)
    y = x.contract(block)
    c.true('lattice', (y.Lx, y.Ly) == (Lx-w+1, Ly-h+1))
    c.eq('block expectation value', c.num(x.E_k(O.reshape(n, n), block)), np.real(c.vdot(u, v)))
    c.unchanged('state kept', t)


@contract('C20', 'merging rows or columns', LT, grid=PLANE[:1]+[dict(Lx=1, Ly=3), dict(Lx=3, Ly=1)], thorough=PLANE[1:])
def _(c, Lx, Ly):
    np = c.np
    x = state(c, 'A', Lx, Ly)
    t = c.snap(x)
    v = dense(c, x.data)
    d = c.dim('d')
    for fr in range(Ly):
        for to in range(fr+1, Ly+1):
            y = x.row_contract(fr, to)
            h = to-fr
            c.true('rows %d to %d: lattice' % (fr, to), (y.Lx, y.Ly) == (Lx, Ly-h+1))
            want = list(range(fr*Lx))+[b*Lx+a for a in range(Lx) for b in range(fr, to)]+list(range(to*Lx, Lx*Ly))
            c.eq('rows %d to %d' % (fr, to), flat(c, dense(c, y.data)), flat(c, np.transpose(v, want)))
    for fr in range(Lx):
        for to in range(fr+1, Lx+1):
            y = x.col_contract(fr, to)
            w = to-fr
            c.true('columns %d to %d: lattice' % (fr, to), (y.Lx, y.Ly) == (Lx-w+1, Ly))
            want = [b*Lx+a for b in range(Ly) for a in range(Lx)]
            c.eq('columns %d to %d' % (fr, to), flat(c, dense(c, y.data)), flat(c, np.transpose(v, want)))
    c.unchanged('state kept', t)


@contract('C20', 'add', LT, grid=PLANE, thorough=[dict(Lx=3, Ly=3)])
def _(c, Lx, Ly):
    x, y = state(c, 'A', Lx, Ly), state(c, 'B', Lx, Ly)
    t = c.snap(x, y)
    s = x.add(y)
    c.eq('sum of the vectors', dense(c, s.data), dense(c, x.data)+dense(c, y.data))
    c.unchanged('operands kept', t)


@contract('C20', 'from_mps', LT, grid=[dict(Lx=x, Ly=y) for x, y in ((2, 1), (3, 1), (2, 2), (3, 2), (2, 3))], thorough=[dict(Lx=3, Ly=3), dict(Lx=4, Ly=2), dict(Lx=2, Ly=4)])
def _(c, Lx, Ly):
    m = c.mps('A', Lx*Ly)
    v = c.dense(m.data)
    t = c.snap(m)
    p = c.mod(M).fPEPS().from_mps(m, Lx)
    c.true('lattice', (p.Lx, p.Ly) == (Lx, Ly))
    c.eq('same vector in snake order', dense(c, p.data, snake(Lx, Ly)), v)
    if Lx == Ly:
        q = c.mod(M).fPEPS().from_mps(m)
        c.eq('square by default', dense(c, q.data, snake(Lx, Ly)), v)
    c.unchanged('chain kept', t)


@contract('C20', 'copy', LT, grid=LATS[:6])
def _(c, Lx, Ly):
    x = state(c, 'A', Lx, Ly)
    x.oc = (0, Ly-1)
    y = x.copy()
    for i, j in reading(Lx, Ly):
        c.eq('tensor %d,%d' % (i, j), y.data[j][i], x.data[j][i])
    c.disjoint('no shared memory', x, y)
    c.true('attributes', (y.Lx, y.Ly, y.oc) == (x.Lx, x.Ly, x.oc))
    c.true('same local dimension and bond', lambda: bool(y.d == x.d) and bool(y.X == x.X))
    y.data[0][0] = y.data[0][0]*2
    z = x.copy()
    for i, j in reading(Lx, Ly):
        c.eq('source not affected %d,%d' % (i, j), z.data[j][i], x.data[j][i])


@contract('C20', 'structure', LT, grid=[l for l in LATS+BIG if l['Lx']*l['Ly'] > 1])
def _(c, Lx, Ly):
    d, X = c.dim('d'), c.dim('X')
    p = c.mod(M).fPEPS().random(Lx, Ly, d, X)
    c.true('size', len(p.data) == Ly == p.Ly and p.Lx == Lx and all(len(r) == Lx for r in p.data))
    for i, j in reading(Lx, Ly):
        want = (d, 1 if j == 0 else X, 1 if i == Lx-1 else X, 1 if j == Ly-1 else X, 1 if i == 0 else X)
        c.shape('bonds at %d,%d' % (i, j), p.data[j][i], want)
        c.true('structure at %d,%d' % (i, j), lambda: all(bool(a == b) for a, b in zip(p.structure[j][i], want)))


@contract('C20', 'truncation', LT, grid=[dict(Lx=2, Ly=2, op=o) for o in ('above', 'below', 'left')]+[dict(Lx=3, Ly=2, op='below')], thorough=[dict(l, op=o) for l in PLANE[1:] for o in ('above', 'below', 'left')])
def _(c, Lx, Ly, op):
    n = Lx if op == 'left' else Ly
    D = c.dim('D')
    for k in (range(1, n) if op != 'below' else range(n-1)):
        x = state(c, 'A%d' % k, Lx, Ly)
        old = [list(r) for r in x.data]
        r = getattr(x, 'truncate_'+op)(k, D)
        c.true('returns itself', r is x)
        for i, j in reading(Lx, Ly):
            A = old[j][i]
            if op == 'above':
                A = A[:, :, :, :D, :] if j == k-1 else A[:, :D] if j == k else A
            elif op == 'below':
                A = A[:, :, :, :D, :] if j == k else A[:, :D] if j == k+1 else A
            else:
                A = A[:, :, :, :, :D] if i == k else A[:, :, :D] if i == k-1 else A
            c.eq('%d: tensor %d,%d' % (k, i, j), x.data[j][i], A)


@contract('C20', 'fix_neighbours', LT, grid=[dict(l, i=i, j=j) for l in PLANE for i, j in reading(l['Lx'], l['Ly'])])
def _(c, Lx, Ly, i, j):
    """one tensor with larger bonds than its neighbours is cut to fit them"""
    x = state(c, 'A', Lx, Ly)
    old = [list(r) for r in x.data]
    sh = x.data[j][i].shape
    e = [c.dim('e%d' % k) for k in range(4)]
    edge = [j == 0, i == Lx-1, j == Ly-1, i == 0]
    big = c.arr('B', sh[0], *[s if q else s+y for s, q, y in zip(sh[1:], edge, e)])
    x.data[j][i] = big
    x.fix_neighbours(i, j)
    for a, b in reading(Lx, Ly):
        if (a, b) == (i, j):
            c.eq('cut to size', x.data[b][a], big[:, :sh[1], :sh[2], :sh[3], :sh[4]])
        else:
            c.eq('tensor %d,%d' % (a, b), x.data[b][a], old[b][a])


@contract('C20', 'product states', LT, grid=LATS[:6])
def _(c, Lx, Ly):
    np = c.np
    d = c.dim('d', 2)
    vs = [[c.arr('v%d%d' % (i, j), d) for i in range(Lx)] for j in range(Ly)]
    us = [[c.arr('u%d%d' % (i, j), d) for i in range(Lx)] for j in range(Ly)]
    P = c.mod(M).fPEPS
    x = P([[v.reshape(d, 1, 1, 1, 1) for v in r] for r in vs])
    y = P([[v.reshape(d, 1, 1, 1, 1) for v in r] for r in us])
    if c.symbolic:
        c.allocs()
    for (i, j), (w, h) in blocks(Lx, Ly):
        r = x.rho(((i, j), (w, h)))
        s = x.rho_proj(y, ((i, j), (w, h)))
        for a in range(w):
            for b in range(h):
                v, u = vs[j+b][i+a], us[j+b][i+a]
                c.eq('density matrix', r[a, b], np.outer(v, np.conj(v)))
                c.eq('transition matrix', s[a, b], np.outer(v, np.conj(u)))


# ---------------------------------------------------------------- C21

MPO = 'number of sites'
NS = [dict(L=n) for n in (1, 2, 3, 4)]


def wmpo(c, name, L, d=None):
    """tensors (up, right, down, left)"""
    d = d or c.dim('d')
    b = [1]+[c.dim('%sb%d' % (name, i)) for i in range(1, L)]+[1]
    return [c.arr('%s%d' % (name, i), d, b[i+1], d, b[i]) for i in range(L)]


def dense_mpo(c, Ws):
    """(up_0 ... up_n-1, down_0 ... down_n-1)"""
    n = len(Ws)
    args = []
    for k, W in enumerate(Ws):
        idx, ls = [slice(None)]*4, [k, 2*n+k+1, n+k, 2*n+k]
        if k == n-1:
            idx[1], ls[1] = 0, None
        if k == 0:
            idx[3], ls[3] = 0, None
        args += [W[tuple(idx)], [x for x in ls if x is not None]]
    return c.np.einsum(*args, list(range(2*n)))


def square(c, A, n=None):
    np = c.np
    k = A.ndim//2 if n is None else n
    return A.reshape(np.prod(A.shape[:k]), np.prod(A.shape[k:]))


@contract('C21', 'dense operator', MPO, grid=NS)
def _(c, L):
    F = c.mod(M).fMPO
    np = c.np
    Ws = wmpo(c, 'W', L)
    o = F(Ws)
    t = c.snap(o)
    c.true('length', o.L == L)
    c.eq('recombine maps the lower to the upper legs, conjugated', o.recombine(), np.conj(square(c, dense_mpo(c, Ws))).T)
    c.unchanged('operator kept', t)


@contract('C21', 'ring', MPO, grid=NS[:3])
def _(c, L):
    """a non-trivial outer bond closes into a trace"""
    F = c.mod(M).fMPO
    np = c.np
    d = c.dim('d')
    b = [c.dim('b%d' % i) for i in range(L)]
    b.append(b[0])
    Ws = [c.arr('W%d' % i, d, b[i+1], d, b[i]) for i in range(L)]
    args = []
    for k, W in enumerate(Ws):
        args += [W, [k, 2*L+(k+1) % L, L+k, 2*L+k]]
    A = np.einsum(*args, list(range(2*L)))
    c.eq('recombine', F(Ws).recombine(), np.conj(square(c, A)).T)


@contract('C21', 'products', MPO, grid=NS[:3], thorough=NS[3:])
def _(c, L):
    F = c.mod(M).fMPO
    np = c.np
    X, Y = wmpo(c, 'X', L), wmpo(c, 'Y', L)
    x, y = F(X), F(Y)
    t = c.snap(x, y)
    p = x*y
    A, B = [np.conj(square(c, dense_mpo(c, W))).T for W in (X, Y)]
    c.true('length', p.L == L)
    c.eq('product of the dense operators', p.recombine(), A@B)
    c.unchanged('factors kept', t)


@contract('C21', 'operator on a state', MPO, grid=NS[:3], thorough=NS[3:])
def _(c, L):
    F = c.mod(M).fMPO
    np = c.np
    X = wmpo(c, 'X', L)
    x = F(X)
    m = c.mps('A', L, c.dim('d'))
    v = flat(c, c.dense(m.data))
    t = c.snap(x, m)
    s = F().from_mps(m)
    c.true('length', s.L == L)
    c.eq('state as an operator', s.recombine(), np.conj(v).reshape(v.shape[0], 1))
    p = x*m
    c.eq('operator on a state', p.recombine(), (np.conj(square(c, dense_mpo(c, X))).T@np.conj(v)).reshape(v.shape[0], 1))
    c.unchanged('both kept', t)


@contract('C21', 'legs', MPO, grid=NS)
def _(c, L):
    F = c.mod(M).fMPO
    np = c.np
    Ws = wmpo(c, 'W', L)
    A = dense_mpo(c, Ws)
    n = list(range(L))
    ud = F(list(Ws)).transpose_ud()
    c.eq('up and down exchanged', dense_mpo(c, ud.data), np.transpose(A, [L+i for i in n]+n))
    ud = ud.transpose_ud()
    lr = F(list(Ws)).transpose_lr()
    for a, w in zip(lr.data, Ws):
        c.eq('left and right exchanged', a, np.transpose(w, [0, 3, 2, 1]))
    rv = lr.reverse()
    c.true('length', rv.L == L == len(rv.data))
    c.eq('mirror image', dense_mpo(c, rv.data), np.transpose(A, n[::-1]+[L+i for i in n[::-1]]))
    lr = rv.reverse().transpose_lr()
    o = F(list(Ws))
    t = c.snap(o)
    ro = o.rotate_90()
    back, four = ro.unrotate_90(), o.rotate_90().rotate_90().rotate_90().rotate_90()
    for k in n:
        c.eq('exchanged twice', ud.data[k], Ws[k])
        c.eq('mirrored twice', lr.data[k], Ws[k])
        c.eq('quarter turn', ro.data[k], np.transpose(Ws[k], [3, 0, 1, 2]))
        c.eq('turned back', back.data[k], Ws[k])
        c.eq('four quarter turns', four.data[k], Ws[k])
    c.unchanged('operator kept', t)


@contract('C21', 'structure', MPO, grid=NS[1:])
def _(c, L):
    F = c.mod(M).fMPO
    d, X = c.dim('d'), c.dim('X')
    r = F().random(L, d, X)
    c.true('length', r.L == L == len(r.data))
    for k, w in enumerate(r.data):
        c.shape('site %d' % k, w, (d, 1 if k == L-1 else X, d, 1 if k == 0 else X))
    t = F().trivial(L)
    c.eq('trivial operator', t.recombine(), c.eye(1))


@contract('C20 C21', 'row operators', LT, grid=PLANE+[dict(Lx=1, Ly=2), dict(Lx=2, Ly=1)])
def _(c, Lx, Ly):
    """row by row transfer operators of two states, and column by column"""
    np = c.np
    x, y = state(c, 'A', Lx, Ly), state(c, 'B', Lx, Ly)
    rows = x.row_mpos(y)
    c.true('number of rows', len(rows) == Ly and all(r.L == Lx for r in rows))
    for j in range(Ly):
        for i in range(Lx):
            A, B = x.data[j][i], y.data[j][i]
            c.eq('row %d tensor %d' % (j, i), rows[j].data[i], np.einsum(A, [0, 1, 2, 3, 4], np.conj(B), [0, 5, 6, 7, 8], [1, 5, 2, 6, 3, 7, 4, 8]).reshape(*[p*q for p, q in zip(A.shape[1:], B.shape[1:])]))
    cols = x.col_mpos()
    c.true('number of columns', len(cols) == Lx and all(r.L == Ly for r in cols))
    for i in range(Lx):
        for j in range(Ly):
            A = np.transpose(x.data[j][i], [0, 4, 3, 2, 1])
            c.eq('column %d tensor %d' % (i, j), cols[i].data[j], np.einsum(A, [0, 1, 2, 3, 4], np.conj(A), [0, 5, 6, 7, 8], [1, 5, 2, 6, 3, 7, 4, 8]).reshape(*[p*p for p in A.shape[1:]]))


@contract('C20', 'isometrise', LT, grid=[dict(l, i=i, j=j) for l in (dict(Lx=2, Ly=2), dict(Lx=3, Ly=2), dict(Lx=2, Ly=3), dict(Lx=2, Ly=1), dict(Lx=1, Ly=2)) for i, j in reading(l['Lx'], l['Ly'])])
def _(c, Lx, Ly, i, j):
    np = c.np
    d, X = c.dim('d', 2), c.dim('X')
    x = c.mod(M).fPEPS(tensors(c, 'A', Lx, Ly, d, X), d=d)
    r = x.isometrise((i, j))
    c.true('returns itself', r is x)
    c.true('centre', tuple(x.oc) == (i, j))
    C = x.data[j][i]
    c.eq('unit centre', c.vdot(C, C), 1)
    v = dense(c, x.data)
    c.eq('unit norm', c.vdot(v, v), 1)
    O = c.arr('O', d, d)
    w = c.op(O, v, [j*Lx+i])
    c.eq('the centre tensor alone gives the expectation value', c.num(x.iso_E(O)), np.real(c.vdot(v, w)))
