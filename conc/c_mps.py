"""contracts of fMPS: gauges, truncation, construction, overlaps, expectations, operators, arithmetic, storage"""
import numpy as np, os, tempfile, copy
from base import *


def F():
    from xmps.fMPS import fMPS
    return fMPS


def shapes_ok(g, m, clause='bond dimensions of neighbours agree'):
    for a, b in zip(m.data, m.data[1:]):
        g.ok(clause, a.shape[2] == b.shape[1], [x.shape for x in m.data])
    g.ok(clause, m.data[0].shape[1] == 1 and m.data[-1].shape[2] == 1, [x.shape for x in m.data])


def iso(g, m, left=(), right=(), tol=1e-8, spectra=False):
    """spectra: bond directions of exactly vanishing weight may have been cut off on one side only (known
    finding null-directions of C02), the isometry is then asked for on the directions that carry weight"""
    for i in left:
        A, n = m.data[i], m.data[i].shape[2]
        k = np.real(np.diag(m.Ls[i+1])) > 1e-13 if spectra and i+1 < len(m.data) else np.ones(n, bool)
        g.close('site k is a left isometry', left_iso(A)[np.ix_(k, k)], np.eye(n)[np.ix_(k, k)], tol)
    for i in right:
        A, n = m.data[i], m.data[i].shape[1]
        k = np.real(np.diag(m.Ls[i])) > 1e-13 if spectra and i > 0 else np.ones(n, bool)
        g.close('site k is a right isometry', right_iso(A)[np.ix_(k, k)], np.eye(n)[np.ix_(k, k)], tol)


# ------------------------------------------------------------------ C01
@case('C01', 120)
def left_sweep(g):
    m, v = fmps(g)
    r = m.left_orthogonalise()
    g.ok('returns the state itself', r is m)
    shapes_ok(g, m)
    iso(g, m, left=range(len(m.data)))
    g.close('norm_ times the swept state is the state', np.squeeze(m.norm_)*dense(m.data), v, 1e-9, scale=np.linalg.norm(v))
    g.close('unit norm', np.linalg.norm(dense(m.data)), 1, 1e-9)


@case('C01', 120)
def right_sweep(g):
    m, v = fmps(g)
    r = m.right_orthogonalise()
    g.ok('returns the state itself', r is m)
    shapes_ok(g, m)
    iso(g, m, right=range(len(m.data)))
    g.close('norm_ times the swept state is the state', np.squeeze(m.norm_)*dense(m.data), v, 1e-9, scale=np.linalg.norm(v))
    g.close('unit norm', np.linalg.norm(dense(m.data)), 1, 1e-9)


@case('C01', 150)
def mixed_sweep(g):
    m, v = fmps(g)
    L = len(m.data)
    if g.bool('pre', .4):
        m, v = history(g, m, v, 1, allow=['left_canonicalise', 'right_canonicalise', 'left_orthogonalise', 'mixed_orthogonalise', 'right_orthogonalise'])
        v = dense(m.data)
    oc = g.int('oc', 0, L-1)
    r = m.mixed_orthogonalise(oc)
    g.ok('returns the state itself', r is m)
    shapes_ok(g, m)
    iso(g, m, left=range(oc), right=range(oc+1, L))
    g.close('centre has norm one', np.linalg.norm(m.data[oc]), 1, 1e-9)
    g.fid('same state', dense(m.data), v)
    if oc != 0 and oc != L-1:       # at the edges an outer factor of modulus |norm| is recorded by the sweep itself
        g.close('norm_ times the centred state is the state', np.squeeze(m.norm_)*dense(m.data), v, 1e-9, scale=np.linalg.norm(v))


@case('C01', 150)
def partial_sweeps(g):
    m, v = fmps(g)
    L = len(m.data)
    a = g.int('fr', 0, L)
    b = g.int('to', a, L)
    before = [x.copy() for x in m.data]
    if g.bool('left'):
        m.left_orthogonalise(fr=a, to=b)
        iso(g, m, left=range(a, b))
        touched = range(a, min(b+1, L)) if b > a else []
        full = b == L and b > a
    else:
        m.right_orthogonalise(fr=a, to=b)
        iso(g, m, right=range(a, b))
        touched = range(max(a-1, 0), b) if b > a else []
        full = a == 0 and b > a
    shapes_ok(g, m)
    for i in range(L):
        if i not in touched:
            g.ok('sites outside the range are untouched', np.array_equal(m.data[i], before[i]), (i, a, b))
    k = np.squeeze(m.norm_) if full else 1
    g.close('the state is unchanged', k*dense(m.data), v, 1e-9, scale=np.linalg.norm(v))


@case('C01', 60)
def sweeps_compose(g):
    """any sequence of sweeps leaves the ray alone"""
    m, v = fmps(g)
    m, v = history(g, m, v, g.int('n', 2, 6), allow=['left_orthogonalise', 'right_orthogonalise', 'mixed_orthogonalise', 'part_left', 'part_right'])
    g.fid('same ray', dense(m.data), v)


# ------------------------------------------------------------------ C02
def check_left(g, m, v, Ls=True, tol=1e-8):
    L, d = len(m.data), m.data[0].shape[0]
    shapes_ok(g, m)
    g.fid('same state', dense(m.data), v, tol)
    g.close('unit norm', np.linalg.norm(dense(m.data)), 1, tol)
    iso(g, m, left=range(L), tol=tol, spectra=True)


def check_spectrum(g, m, v, tol=1e-8):
    L, d = len(m.data), m.data[0].shape[0]
    vn = v/np.linalg.norm(v)
    g.ok('one spectrum per bond, edges included', len(m.Ls) == L+1, len(m.Ls))
    for k in range(L+1):
        lam = np.asarray(m.Ls[k])
        g.ok('spectra are square matrices', lam.ndim == 2 and lam.shape[0] == lam.shape[1])
        g.close('spectra are diagonal', lam, np.diag(np.diag(lam)), tol)
        s = np.real(np.diag(lam))
        want = schmidt(vn, k, L, d)**2
        n = max(len(s), len(want))
        g.ok('spectra in descending order', np.all(np.diff(s) <= 1e-9), s)
        g.close('spectrum is the squared Schmidt coefficients', np.pad(s, (0, n-len(s))), np.pad(want, (0, n-len(want))), tol)
        if k < L:
            g.ok('spectrum has the size of its bond', len(s) == m.data[k].shape[1], (k, len(s), m.data[k].shape))


@case('C02', 130)
def left_canonical(g):
    m, v = fmps(g)
    if g.bool('pre', .3):
        m, _ = history(g, m, v, 1, allow=['right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'mixed_orthogonalise'])
        v = dense(m.data)
    r = m.left_canonicalise()
    g.ok('returns the state itself', r is m)
    check_left(g, m, v)
    check_spectrum(g, m, v)
    for n in range(len(m.data)):
        A = m.data[n]
        g.close('right environments are the spectra', np.einsum('sab,bc,sdc->ad', A, m.Ls[n+1], A.conj()), m.Ls[n], 1e-8)
    g.close('recorded norm', abs(np.squeeze(m.norm_)), np.linalg.norm(v), 1e-8, scale=np.linalg.norm(v))


@case('C02', 130)
def right_canonical(g):
    m, v = fmps(g)
    if g.bool('pre', .3):
        m, _ = history(g, m, v, 1, allow=['left_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'mixed_orthogonalise'])
        v = dense(m.data)
    r = m.right_canonicalise()
    g.ok('returns the state itself', r is m)
    L = len(m.data)
    shapes_ok(g, m)
    g.fid('same state', dense(m.data), v)
    g.close('unit norm', np.linalg.norm(dense(m.data)), 1, 1e-8)
    iso(g, m, right=range(L), spectra=True)
    check_spectrum(g, m, v)
    for n in range(L):
        A = m.data[n]
        g.close('left environments are the spectra', np.einsum('sab,ac,scd->bd', A.conj(), m.Ls[n], A), m.Ls[n+1], 1e-8)


@case('C02', 120)
def mixed_canonical(g):
    m, v = fmps(g)
    L = len(m.data)
    oc = g.int('oc', 0, L-1)
    m.mixed_canonicalise(oc)
    shapes_ok(g, m)
    g.fid('same state', dense(m.data), v)
    g.close('unit norm', np.linalg.norm(dense(m.data)), 1, 1e-8)
    iso(g, m, left=range(oc), right=range(oc+1, L))
    g.close('centre has norm one', np.linalg.norm(m.data[oc]), 1, 1e-8)


@case('C02', 60)
def no_sweep_back(g):
    m, v = fmps(g)
    L = len(m.data)
    kw = g.pick('kw', [{'sweep_back': False}, {'minD': False}, {'sweep_back': False, 'minD': False}])
    kw = kw if isinstance(kw, dict) else kw
    if g.bool('left'):
        m.left_canonicalise(**kw)
        iso(g, m, left=range(L))
    else:
        m.right_canonicalise(**kw)
        iso(g, m, right=range(L))
    shapes_ok(g, m)
    g.fid('same state', dense(m.data), v)
    g.close('unit norm', np.linalg.norm(dense(m.data)), 1, 1e-8)


@case('C02', 60)
def canonical_sequences(g):
    m, v = fmps(g)
    m, v = history(g, m, v, g.int('n', 2, 5), allow=['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'mixed_orthogonalise', 'right_orthogonalise'])
    g.fid('same ray', dense(m.data), v)
    if g.bool('left'):
        m.left_canonicalise()
        check_left(g, m, v)
    else:
        m.right_canonicalise()
        iso(g, m, right=range(len(m.data)), spectra=True)
    check_spectrum(g, m, v)


@case('C02', 20)
def canonical_real(g):
    """real states stay real up to rounding and signs"""
    m, v = fmps(g, real=True)
    m.left_canonicalise() if g.bool('left') else m.right_canonicalise()
    g.close('real states keep real amplitudes', np.imag(dense(m.data)), np.zeros_like(v.real), 1e-9)


# ------------------------------------------------------------------ C03
def tails(v, D, L, d):
    vn = v/np.linalg.norm(v)
    return sum(np.sum(schmidt(vn, k, L, d)[D:]**2) for k in range(1, L))


@case('C03', 130)
def truncating_canonicalisation(g):
    m, v = fmps(g, Dmax=7, Lmax=7)
    L, d = len(m.data), m.data[0].shape[0]
    D = g.int('Dto', 1, 5)
    how = g.pick('how', ['left', 'right', 'mixed', 'init', 'left_nosweep', 'right_nosweep'])
    pre = g.bool('pre', .7)
    if pre:     # orthogonality centre where the sweep starts: the discarded weights are the true ones
        m.right_canonicalise() if how.startswith('left') else m.left_canonicalise()
    old = m
    if how == 'left':
        m.left_canonicalise(D)
    elif how == 'right':
        m.right_canonicalise(D)
    elif how == 'left_nosweep':
        m.left_canonicalise(D, sweep_back=False)
    elif how == 'right_nosweep':
        m.right_canonicalise(D, sweep_back=False)
    elif how == 'mixed':
        oc = g.int('oc', 0, L-1)
        m.mixed_canonicalise(oc, D)
    else:
        m = F()([x.copy() for x in m.data], d, D)
    shapes_ok(g, m)
    g.ok('no bond exceeds the requested dimension', max(max(x.shape[1:]) for x in m.data) <= D, [x.shape for x in m.data])
    g.close('local dimension kept', [x.shape[0] for x in m.data], [d]*L)
    if how.startswith('left'):
        iso(g, m, left=range(L), spectra="nosweep" not in how)
    elif how == 'mixed':
        iso(g, m, left=range(oc), right=range(oc+1, L))
        g.ok('recorded as truncated', True)
    else:
        iso(g, m, right=range(L), spectra="nosweep" not in how and hasattr(m, "Ls"))
    w = dense(m.data)
    vn = v/np.linalg.norm(v)
    if how != 'mixed':
        g.close('unit norm', np.linalg.norm(w), 1, 1e-8)
    else:
        g.close('unit norm', np.linalg.norm(w)/np.linalg.norm(m.data[oc]), 1, 1e-8)
    full = max([x.shape[1] for x in old.data]+[1])
    if pre and how != 'mixed':
        fid = abs(np.vdot(vn, w))**2/np.linalg.norm(w)**2
        g.ok('fidelity at least one minus the discarded weight', fid >= 1-tails(v, D, L, d)-1e-8, (fid, 1-tails(v, D, L, d)))
        if L == 2:
            g.close('single cut: fidelity is the kept weight', fid, 1-tails(v, D, L, d), 1e-8)


@case('C03', 60)
def truncation_above_the_rank_is_lossless(g):
    m, v = fmps(g)
    L, d = len(m.data), m.data[0].shape[0]
    Dmax = max(max(x.shape[1:]) for x in m.data)
    D = Dmax + g.int('more', 0, 3)
    how = g.pick('how', ['left', 'right', 'init', 'mixed'])
    if how == 'left':
        m.left_canonicalise(D)
    elif how == 'right':
        m.right_canonicalise(D)
    elif how == 'init':
        m = F()([x.copy() for x in m.data], d, D)
    else:
        m.mixed_canonicalise(g.int('oc', 0, L-1), D)
    g.fid('same state', dense(m.data), v)
    g.ok('no bond exceeds the requested dimension', max(max(x.shape[1:]) for x in m.data) <= D)
    g.ok('the recorded bond dimension bounds every bond', m.D >= max(max(x.shape[1:]) for x in m.data) or how == 'mixed', m.D)


@case('C03', 40)
def expansion(g):
    m, v = fmps(g, kinds=['std'], Lmin=2, real=False)
    L, d = len(m.data), m.data[0].shape[0]
    D_ = m.D+g.int('more', 0, 4)
    m.expand(D_)
    g.fid('padding keeps the state', dense(m.data), v)
    g.close('bonds of the padded state', [x.shape[1:] for x in m.data], [(min(d**n, D_, d**(L-n)), min(d**(n+1), D_, d**(L-n-1))) for n in range(L)])
    iso(g, m, left=range(L))


# ------------------------------------------------------------------ C04
@case('C04', 120)
def from_state(g):
    d = g.pick('d', [2, 2, 3, 4])
    L = g.int('L', 1, 7 if d == 2 else 4)
    kind = g.pick('kind', ['random', 'random', 'product', 'ghz', 'basis', 'lowrank'])
    n = d**L
    if kind == 'random':
        v = g.cplx(n)
    elif kind == 'product':
        v = np.ones(1)
        for _ in range(L):
            v = np.kron(v, g.cplx(d))
    elif kind == 'ghz':
        v = np.zeros(n, dtype=complex)
        v[[0, -1]] = 1, 1j
    elif kind == 'basis':
        v = np.zeros(n, dtype=complex)
        v[g.int('x', 0, n-1)] = 1
    else:
        v = dense([g.cplx(d, a, b) for a, b in zip([1]+[2]*(L-1), [2]*(L-1)+[1])])
    if g.bool('real', .3):
        v = v.real.copy()
        if np.linalg.norm(v) < 1e-6:
            raise Skip()
    v = v/np.linalg.norm(v)*g.pick('norm', [1, 1, 1, 3., 1e-4, 1e-10, 1e5])
    keep = v.copy()
    left = g.bool('left')
    m = F()()
    m = m.left_from_state(v.reshape([d]*L)) if left else m.right_from_state(v.reshape([d]*L))
    g.ok('the given tensor is not modified', np.array_equal(v, keep))
    g.ok('length and local dimension', m.L == L and m.d == d and len(m.data) == L and all(x.shape[0] == d for x in m.data))
    shapes_ok(g, m)
    iso(g, m, left=range(L) if left else (), right=() if left else range(L))
    g.fid('represents the state', dense(m.data), v)
    r = m.recombine()
    g.close('recombining has one index per site', r.shape, [d]*L)
    g.fid('recombining gives the state back', r, v)
    g.close('recombined norm is one', np.linalg.norm(r), 1, 1e-9)
    g.ok('recorded bond dimension', m.D == max(max(x.shape[1:]) for x in m.data))
    # a state built from a vector is immediately usable
    O = g.herm(d)
    s = g.int('site', 0, L-1)
    g.close('expectation value right after construction', m.E(O, s), np.trace(rdm(v, [s], L, d)@O).real/np.linalg.norm(v)**2, 1e-8)


@case('C04', 80)
def recombine_is_the_contraction(g):
    m, v = fmps(g)
    L, d = len(m.data), m.data[0].shape[0]
    g.close('amplitudes are the matrix products', m.recombine().reshape(-1), v, 1e-10, scale=np.max(np.abs(v))+1e-300)


@case('C04', 30)
def round_trip_through_canonical(g):
    m, v = fmps(g, dense_cap=1024)
    L, d = len(m.data), m.data[0].shape[0]
    m, v = history(g, m, v, 1, allow=['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'mixed_orthogonalise'])
    w = m.recombine()
    k = F()().left_from_state(w) if g.bool('left') else F()().right_from_state(w)
    g.fid('state to chain to state', k.recombine(), v)


# ------------------------------------------------------------------ C05
@case('C05', 140)
def overlap_is_inner_product(g):
    a, v = fmps(g)
    L, d = len(a.data), a.data[0].shape[0]
    b, w = fmps(g, L=L, d=d)
    s = np.linalg.norm(v)*np.linalg.norm(w)
    g.close('overlap is the inner product, conjugate linear in the second state', a.overlap(b), np.vdot(w, v), 1e-9, scale=s)
    g.close('conjugate symmetry', b.overlap(a), np.vdot(v, w), 1e-9, scale=s)
    g.close('norm is the squared length', a.norm(), np.vdot(v, v), 1e-9, scale=np.linalg.norm(v)**2)


@case('C05', 80)
def overlap_after_histories(g):
    a, v = fmps(g, Lmin=1, Lmax=5)
    L, d = len(a.data), a.data[0].shape[0]
    b, w = fmps(g, L=L, d=d)
    a, v = history(g, a, v)
    b, w = history(g, b, w, 1)
    va, vb = dense(a.data), dense(b.data)
    g.close('overlap after operations', a.overlap(b), np.vdot(vb, va), 1e-9, scale=np.linalg.norm(va)*np.linalg.norm(vb))
    g.close('modulus is the fidelity of the states that the operations define', abs(a.overlap(b))/np.linalg.norm(va)/np.linalg.norm(vb),
            abs(np.vdot(w, v))/np.linalg.norm(v)/np.linalg.norm(w), 1e-7)


@case('C05', 40)
def full_overlap(g):
    a, v = fmps(g, dense_cap=300)
    L, d = len(a.data), a.data[0].shape[0]
    b, w = fmps(g, L=L, d=d, dense_cap=300)
    g.close('full overlap is <self|other>', a.full_overlap(b), np.vdot(v, w), 1e-9, scale=np.linalg.norm(v)*np.linalg.norm(w))


@case('C05', 40)
def product_states(g):
    L, d = g.int('L', 1, 6), g.pick('d', [2, 2, 3])
    ps = g.cplx(L, d) if not g.bool('real', .3) else g.re(L, d)
    p = F()().from_product_state(ps)
    v = np.ones(1)
    for x in ps:
        v = np.kron(v, x)
    g.close('product state', dense(p.data), v, 1e-10)
    a, w = fmps(g, L=L, d=d)
    g.close('overlap with a product state', a.product_state_overlap(ps), np.vdot(v, w), 1e-9, scale=np.linalg.norm(v)*np.linalg.norm(w))
    many = F()().from_product_states([ps, 2*ps])
    g.ok('one state per row', len(many) == 2)
    g.close('second of several product states', dense(many[1].data), v*2**L, 1e-9)


@case('C05', 60)
def local_overlaps(g):
    """local overlap is tr(rho_self rho_other) on the sites"""
    d = 2
    L = g.int('L', 2, 6)
    def mk(name):
        if g.bool(name+'_product', .4):
            As = [g.vec(d).reshape(d, 1, 1) for _ in range(L)]
            return F()(As), dense(As)
        return fmps(g, L=L, d=d, kinds=['std', 'irregular', 'w'])
    a, v = mk('a')
    b, w = mk('b')
    if a.bond_dimension == 1 and abs(np.linalg.norm(v)-1) > 1e-9:
        a.left_canonicalise()
    if b.bond_dimension == 1 and abs(np.linalg.norm(w)-1) > 1e-9:
        b.left_canonicalise()
    v, w = v/np.linalg.norm(v), w/np.linalg.norm(w)
    k = g.int('k', 1, min(3, L))
    want = []
    for s in range(L-k+1):
        sites = list(range(s, s+k))
        want.append(np.trace(rdm(v, sites, L, d)@rdm(w, sites, L, d)).real)
    s = g.int('s', 0, L-k)
    g.close('local overlap', a.local_overlap(b, list(range(s, s+k))), want[s], 1e-8)
    g.close('k-local overlap is the mean over windows', a.k_local_approx_overlap(b, k), np.mean(want), 1e-8)


# ------------------------------------------------------------------ C06 / C25
def observables(g, m, v, clause=''):
    L, d = len(m.data), m.data[0].shape[0]
    v = v/np.linalg.norm(v)
    which = g.pick('obs', ['E', 'E_', 'Es', 'E_k', 'E_k_string', 'rho', 'E', 'E_k'])
    herm = g.bool('hermitian', .8)
    mk = (lambda n: g.herm(n)) if herm else (lambda n: g.op(n))
    s = g.int('site', 0, L-1)
    if which in ('E', 'E_'):
        O = mk(d)
        got = getattr(m, which)(O, s)
        want = np.vdot(v, apply_dense(v, O, [s], L, d)).real
        g.close('one site expectation value', got, want, 1e-8, scale=max(1, np.linalg.norm(O)))
    elif which == 'Es':
        Os = [mk(d) for _ in range(g.int('n', 1, 3))]
        got = m.Es(Os, s)
        g.close('several one site expectation values', got, [np.vdot(v, apply_dense(v, O, [s], L, d)).real for O in Os], 1e-8, scale=max([1]+[np.linalg.norm(O) for O in Os]))
    elif which == 'E_k':
        k = g.int('k', 1, min(4, L))
        s = g.int('start', 0, L-k)
        O = mk(d**k)
        sites = list(range(s, s+k))
        g.close('k site expectation value', m.E_k(O, sites), np.vdot(v, apply_dense(v, O, sites, L, d)).real, 1e-8, scale=max(1, np.linalg.norm(O)))
    elif which == 'E_k_string':
        k = g.int('k', 1, min(4, L))
        s = g.int('start', 0, L-k)
        Os = [mk(d) for _ in range(k)]
        O = Os[0]
        for x in Os[1:]:
            O = np.kron(O, x)
        sites = list(range(s, s+k))
        g.close('expectation value of a product of one site operators', m.E_k(Os, sites, single_string=True), np.vdot(v, apply_dense(v, O, sites, L, d)).real, 1e-8, scale=max(1, np.linalg.norm(O)))
    elif which == 'rho':
        k = g.int('k', 1, min(3, L))
        s = g.int('start', 0, L-k)
        sites = list(range(s, s+k))
        got = m.rho(sites, single_string=False)
        g.close('reduced density matrix', got, rdm(v, sites, L, d), 1e-8)


@case('C06', 260)
def expectation(g):
    m, v = fmps(g)
    observables(g, m, v)
    g.fid('the state itself is not changed', dense(m.data), v)


@case('C06', 60)
def full_operator(g):
    m, v = fmps(g, dense_cap=130, normalise=True)
    L, d = len(m.data), m.data[0].shape[0]
    O = g.herm(d**L)
    g.close('expectation of a full size operator', m.E_L(O), np.vdot(v, O@v).real, 1e-8)


@case('C06', 40)
def product_density(g):
    L = g.int('L', 2, 5)
    As = [g.vec(2).reshape(2, 1, 1) for _ in range(L)]
    m = F()(As)
    k = g.int('k', 1, L)
    s = g.int('s', 0, L-k)
    got = m.rho(list(range(s, s+k)))
    g.ok('one matrix per site', len(got) == k)
    for i, r in enumerate(got):
        x = As[s+i][:, 0, 0]
        g.close('one site density matrices of a product state', r, np.outer(x, x.conj()), 1e-10)
    Bs = [g.vec(2).reshape(2, 1, 1) for _ in range(L)]
    got = m.rho_proj(F()(Bs), list(range(s, s+k)))
    want, pre = np.ones((1, 1)), 1
    for i in range(L):
        x, y = As[i][:, 0, 0], Bs[i][:, 0, 0]
        if s <= i < s+k:
            want = np.kron(want, np.outer(x, y.conj()))
        else:
            pre = pre*np.vdot(y, x)
    g.close('partial trace of |self><other|', got, pre*want, 1e-10)


@case('C06', 60)
def same_value_by_every_route(g):
    m, v = fmps(g)
    L, d = len(m.data), m.data[0].shape[0]
    s = g.int('site', 0, L-1)
    O = g.herm(d)
    import copy as cp
    vals = [cp.deepcopy(m).E(O, s), cp.deepcopy(m).E_(O, s), cp.deepcopy(m).Es([O], s)[0], cp.deepcopy(m).E_k(O, [s]),
            np.trace(cp.deepcopy(m).rho([s], single_string=False)@O).real]
    g.close('E, E_, Es, E_k and rho agree', vals, [vals[0]]*5, 1e-8)


@case('C25', 260)
def observables_after_histories(g):
    m, v = fmps(g, Lmin=1, Lmax=5)
    m, v = form_change_form(g, m, v) if g.bool('form, change, form') else history(g, m, v, g.int('n', 1, 6))
    g.fid('the state after the operations', dense(m.data), v, 1e-7)
    observables(g, m, v)


@case('C25', 60)
def post_selection_then_observables(g):
    m, v = fmps(g, Lmin=2, Lmax=5, d=2)
    m, v = history(g, m, v, 1)
    L, d = len(m.data), 2
    s, w = g.int('ps', 0, L-1), g.int('which', 0, 1)
    vv = v.reshape([d]*L).take(w, axis=s).reshape(-1)
    if np.linalg.norm(vv) < 1e-6*np.linalg.norm(v):
        raise Skip()
    m.post_select(s, w)
    g.fid('projected state', dense(m.data), vv, 1e-7)
    observables(g, m, vv)


@case('C25', 30)
def drawn_again(g):
    """a state drawn again, or read back, is a new state whatever was done with the object before"""
    m, v = fmps(g, Lmin=1, Lmax=4)
    m, v = history(g, m, v, g.int('n', 1, 3))
    observables(g, m, v)
    np.random.seed(g.int('seed', 0, 10**6))
    m = m.random(g.int('L2', 1, 4), g.pick('d2', [2, 2, 3]), g.int('D2', 1, 3))
    observables(g, m, dense(m.data))


@case('C25', 40)
def two_expectations_in_a_row(g):
    m, v = fmps(g, Lmin=2)
    for _ in range(g.int('n', 2, 6)):
        observables(g, m, v)


# ------------------------------------------------------------------ C07
@case('C07', 80)
def one_site_operator(g):
    m, v = fmps(g)
    L, d = len(m.data), m.data[0].shape[0]
    s = g.int('site', 0, L-1)
    O = g.op(d)
    before = [x.copy() for x in m.data]
    r = m.apply((O, s))
    g.close('operator acts on its site', dense(r.data), apply_dense(v, O, [s], L, d), 1e-9, scale=np.linalg.norm(v)*np.linalg.norm(O))
    g.ok('the original is untouched', all(np.array_equal(a, b) for a, b in zip(before, m.data)))


@case('C07', 140)
def two_site_operator(g):
    m, v = fmps(g, Lmin=2, Lmax=6, d=2)
    if g.bool('pre', .4):
        m, v = history(g, m, v, 1)
        v = dense(m.data)
    L = len(m.data)
    i = g.int('i', 0, L-2)
    j = g.int('j', i+1, L-1)
    O = g.unitary(4) if g.bool('unitary') else g.op(4)
    sites = (i, j) if g.bool('sorted', .7) else (j, i)
    which = g.pick('which', ['l', 'r'])
    r = m.apply_two_site((O, sites), which=which)
    w = apply_dense(v, O, [i, j], L, 2)
    shapes_ok(g, r)
    g.close('operator acts on the two sites, the rest in place', dense(r.data), w, 1e-8, scale=np.linalg.norm(v)*np.linalg.norm(O))


@case('C07', 50)
def two_site_operator_d3(g):
    m, v = fmps(g, Lmin=2, Lmax=4, d=3)
    L = len(m.data)
    i = g.int('i', 0, L-2)
    O = g.op(9)
    r = m.apply_two_site((O, (i, i+1)), which=g.pick('which', ['l', 'r']))
    g.close('nearest neighbour operator on qutrits', dense(r.data), apply_dense(v, O, [i, i+1], L, 3), 1e-8, scale=np.linalg.norm(v)*np.linalg.norm(O))


@case('C07', 60)
def one_site_operator_through_two_sites(g):
    m, v = fmps(g, Lmin=2, d=2)
    L = len(m.data)
    O = g.op(2)
    i = g.int('i', 0, L-2)
    which = g.pick('which', ['l', 'r'])
    if g.bool('single'):
        r = m.apply_two_site((O, (i,)), which=which)
        s = i
    else:
        r = m.apply_two_site((O, (i, i+1)), which=which)
        s = i if which == 'l' else i+1
    g.close('one site operator', dense(r.data), apply_dense(v, O, [s], L, 2), 1e-9, scale=np.linalg.norm(v)*np.linalg.norm(O))


@case('C07', 80)
def two_site_operator_truncated(g):
    m, v = fmps(g, Lmin=2, Lmax=5, d=2)
    L = len(m.data)
    i = g.int('i', 0, L-2)
    j = g.int('j', i+1, L-1)
    which = g.pick('which', ['l', 'r'])
    U = g.unitary(4)
    D = g.int('Dto', 1, 12)
    m.mixed_orthogonalise(i)
    v = dense(m.data)
    w = apply_dense(v, U, [i, j], L, 2)
    r = m.apply_two_site((U, (i, j)), which=which, D=D)
    shapes_ok(g, r)
    g.ok('the acted-on bond is truncated', r.data[i].shape[2] <= D or j > i+1, [x.shape for x in r.data])
    x = dense(r.data)
    if j == i+1:
        g.close('truncation renormalises', np.linalg.norm(x), 1, 1e-8)
        s = schmidt(w/np.linalg.norm(w), i+1, L, 2)
        fid = abs(np.vdot(w, x))**2/np.linalg.norm(w)**2/np.linalg.norm(x)**2
        g.close('optimal truncation of the acted-on bond', fid, np.sum(s[:D]**2), 1e-8)
    if D >= 2**min(i+1, L-i-1)*4 or D >= 4*max(y.shape[1] for y in m.data):
        g.fid('no truncation when D suffices', x, w, 1e-7)


@case('C07', 60)
def projection(g):
    m, v = fmps(g, Lmin=2)
    L, d = len(m.data), m.data[0].shape[0]
    s, w = g.int('site', 0, L-1), g.int('which', 0, d-1)
    r = m.post_select(s, w)
    g.ok('one site fewer', len(r.data) == L-1 and r.L == L-1)
    g.close('post selected state', dense(r.data), v.reshape([d]*L).take(w, axis=s).reshape(-1), 1e-9, scale=np.linalg.norm(v))


@case('C07', 80)
def circuits(g):
    """sequences of gates are the product of the gates"""
    m, v = fmps(g, Lmin=2, Lmax=5, d=2)
    m, v = history(g, m, v, g.int('n', 2, 6), allow=['apply', 'apply_two_site', 'left_canonicalise', 'mixed_canonicalise', 'mul', 'copy'])
    g.fid('circuit', dense(m.data), v, 1e-7)


@case('C07', 80)
def grouping(g):
    from xmps.fMPS import group_tensors, separate_tensor_qr, separate_tensor_rq, separate_tensor_svd, apply_unitary, apply_isometry
    d, a, b, c = g.pick('d', [2, 3, 4, 5]), g.int('a', 1, 4), g.int('b', 1, 4), g.int('c', 1, 4)
    A, B = g.cplx(d, a, b), g.cplx(d, b, c)
    G2 = group_tensors([A, B])
    want = np.einsum('sab,tbc->stac', A, B).reshape(d*d, a, c)
    g.close('grouping contracts the shared bond', G2, want, 1e-10)
    for f, w in ((separate_tensor_qr, 'l'), (separate_tensor_rq, 'r')):
        X, Y = f(want)
        g.close('separating and grouping', group_tensors([X, Y]), want, 1e-9)
        if w == 'l':
            g.close('first factor is an isometry', left_iso(X), np.eye(X.shape[2]), 1e-9)
        else:
            g.close('second factor is an isometry', right_iso(Y), np.eye(Y.shape[1]), 1e-9)
    which = g.pick('which', ['l', 'r'])
    X, Y = separate_tensor_svd(want, None, which)
    g.close('svd separation keeps the tensor up to norm', group_tensors([X, Y]), want/np.linalg.norm(want), 1e-9)
    g.close('isometric factor', left_iso(X) if which == 'l' else right_iso(Y), np.eye(X.shape[2]), 1e-9)
    D = g.int('D', 1, 6)
    X, Y = separate_tensor_svd(want, D, which)
    g.ok('bond at most D', X.shape[2] == Y.shape[1] <= D)
    s = np.linalg.svd(want.reshape(d, d, a, c).transpose(0, 2, 1, 3).reshape(d*a, d*c), compute_uv=False)
    got = group_tensors([X, Y])
    g.close('truncated and renormalised', np.linalg.norm(got), 1, 1e-9)
    g.close('optimal truncation', abs(np.vdot(got, want))/np.linalg.norm(want), np.linalg.norm(s[:D])/np.linalg.norm(s), 1e-8)
    U = g.op(d*d)
    X, Y = apply_unitary([A, B], U, which)
    g.close('gate on a pair', group_tensors([X, Y]), np.tensordot(U, want, [1, 0]), 1e-9, scale=np.linalg.norm(U)*np.linalg.norm(want))
    I = g.cplx(d, d*d)
    g.close('isometry on a pair', apply_isometry([A, B], I), np.tensordot(I, want, [1, 0]), 1e-9, scale=np.linalg.norm(want)*3)


# ------------------------------------------------------------------ C08
@case('C08', 100)
def addition(g):
    a, v = fmps(g)
    L, d = len(a.data), a.data[0].shape[0]
    b, w = fmps(g, L=L, d=d)
    if g.bool('hist', .4):
        a, _ = history(g, a, v, 1)
        v = dense(a.data)
    before = [x.copy() for x in a.data+b.data]
    r = a.add(b)
    g.close('add represents the sum of the vectors', dense(r.data), v+w, 1e-9, scale=np.linalg.norm(v)+np.linalg.norm(w))
    g.close('bonds add', [x.shape[2] for x in r.data[:-1]], [x.shape[2]+y.shape[2] for x, y in zip(a.data[:-1], b.data[:-1])])
    g.ok('operands untouched', all(np.array_equal(x, y) for x, y in zip(before, a.data+b.data)))
    r2 = b.add(a)
    g.close('addition commutes', dense(r2.data), v+w, 1e-9, scale=np.linalg.norm(v)+np.linalg.norm(w))


@case('C08', 80)
def scaling(g):
    a, v = fmps(g)
    c = g.pick('c', [2, -1., 1j, .5-.25j, 0.])
    before = [x.copy() for x in a.data]
    g.close('mul scales the vector', dense(a.mul(c).data), c*v, 1e-10, scale=np.linalg.norm(v))
    L = len(a.data)
    g.close('* scales every tensor', dense((a*c).data), c**L*v, 1e-9, scale=np.linalg.norm(v)*max(1, abs(c))**L)
    g.close('left * likewise', dense((c*a).data), c**L*v, 1e-9, scale=np.linalg.norm(v)*max(1, abs(c))**L) if not isinstance(c, np.generic) else None
    if c != 0:
        g.close('/ scales every tensor', dense((a/c).data), c**(-L)*v, 1e-9, scale=np.linalg.norm(v)*max(1, 1/abs(c))**L)
    g.ok('operand untouched', all(np.array_equal(x, y) for x, y in zip(before, a.data)))


@case('C08', 60)
def itemwise(g):
    a, v = fmps(g)
    L, d = len(a.data), a.data[0].shape[0]
    b = F()([g.cplx(*x.shape) for x in a.data])
    for x, y, z, u in zip((a+b).data, (a-b).data, a.data, b.data):
        g.close('+ adds tensor by tensor', x, z+u, 1e-12)
        g.close('- subtracts tensor by tensor', y, z-u, 1e-12)
    g.ok('equality of a copy', a == a.copy() and not (a != a.copy()))
    g.ok('different tensors are unequal', not (a == b) and a != b)


@case('C08', 60)
def linear_combinations(g):
    """sums of several scaled states"""
    a, v = fmps(g, Lmax=5)
    L, d = len(a.data), a.data[0].shape[0]
    tot, V = a, v
    for _ in range(g.int('n', 1, 3)):
        b, w = fmps(g, L=L, d=d)
        c = complex(*g.rng.standard_normal(2))
        tot, V = tot.add(b.mul(c)), V+c*w
    s = np.linalg.norm(V)
    if s < 1e-3*np.linalg.norm(v):
        raise Skip()
    g.close('linear combination', dense(tot.data), V, 1e-8, scale=s+np.linalg.norm(v))
    tot.left_canonicalise()
    g.fid('linear combination after canonicalisation', dense(tot.data), V, 1e-6)


@case('C08', 30)
def concatenation(g):
    a, v = fmps(g, Lmax=3)
    b, w = fmps(g, Lmax=3, d=a.data[0].shape[0])
    g.close('extend is the tensor product', dense(a.extend(b).data), np.kron(v, w), 1e-9, scale=np.linalg.norm(v)*np.linalg.norm(w))
    x = g.vec(a.data[0].shape[0])
    g.close('append is the tensor product with a site', dense(a.append(x.reshape(-1, 1, 1)).data), np.kron(v, x), 1e-9, scale=np.linalg.norm(v))


# ------------------------------------------------------------------ C09
@case('C09', 100)
def serialise_round_trip(g):
    m, v = fmps(g)
    shapes = [x.shape for x in m.data]
    real = g.bool('asreal')
    vec = m.serialize(real=real)
    n = sum(int(np.prod(s)) for s in shapes)
    g.ok('vector length', vec.shape == ((2*n,) if real else (n,)), vec.shape)
    if real:
        g.ok('real vector', not np.iscomplexobj(vec))
    k = F()().deserialize(vec, structure=shapes, real=real)
    g.ok('same number of tensors', len(k.data) == len(m.data))
    for a, b in zip(k.data, m.data):
        g.same('tensors come back', a, b)
    back = k.serialize(real=real)
    g.same('vector comes back', back, vec)


@case('C09', 80)
def deserialise_from_parameters(g):
    L, d, D = g.int('L', 1, 7), g.pick('d', [2, 3, 4]), g.int('D', 1, 6)
    sh = [(d, min(d**n, D, d**(L-n)), min(d**(n+1), D, d**(L-n-1))) for n in range(L)]
    g.close('structure of a chain', F()().create_structure(L, d, D), [s[1:] for s in sh])
    real = g.bool('asreal')
    As = [g.cplx(*s) for s in sh]
    m = F()(As)
    k = F()().deserialize(m.serialize(real=real), L, d, D, real=real)
    for a, b in zip(k.data, As):
        g.same('tensors come back', a, b)
    r = F()().random(L, d, D)
    g.ok('random states have that structure', [x.shape for x in r.data] == sh, [x.shape for x in r.data])
    g.ok('random state metadata', r.L == L and r.d == d and r.D == max(max(s[1:]) for s in sh))
    g.close('unbounded structure', F()().create_structure(L, d, None), [(min(d**n, d**(L-n)), min(d**(n+1), d**(L-n-1))) for n in range(L)])


@case('C09', 60)
def store_round_trip(g):
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'state')
        if g.bool('structured'):
            m, v = fmps(g)
            m.store(f, structured=True)
            k = F()().load(f+'.npy', structured=True)
        else:
            L, d, D = g.int('L', 1, 6), g.pick('d', [2, 3]), g.int('D', 1, 6)
            m = F()().random(L, d, D, real=g.bool('real', .3))
            if g.bool('any numbers'):
                m.data = [x*g.pick('factor', [1., 1e-9, 1e8, 1j]) for x in texture(g, m.data)]
            m.store(f)
            k = F()().load(f+'.npy')
        g.ok('same number of tensors', len(k.data) == len(m.data))
        for a, b in zip(k.data, m.data):
            g.same('stored tensors come back', a, b)
        D = max(max(a.shape[1:]) for a in m.data)
        g.ok('metadata of the loaded state', k.L == m.L and k.d == m.d and k.D == D, (k.L, k.d, k.D, m.L, m.d, D))


@case('C09', 40)
def truncated_then_stored(g):
    """a state canonicalised to bond dimension D and stored comes back"""
    L, d = g.int('L', 2, 7), g.pick('d', [2, 3])
    if d**L > 3000:
        raise Skip()
    D0, D = g.int('D0', 1, 8), g.int('D', 1, 8)
    m = F()().random(L, d, D0)
    m.left_canonicalise(D) if g.bool('left') else m.right_canonicalise(D)
    v = dense(m.data)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'state')
        m.store(f)
        k = F()().load(f+'.npy')
    g.close('stored state comes back', dense(k.data), v, 1e-12)


@case('C09', 40)
def imps_round_trip(g):
    from xmps.iMPS import iMPS
    d, D, p = g.pick('d', [2, 3]), g.int('D', 1, 5), g.int('p', 1, 3)
    m = iMPS().random(d, D, period=p)
    real = g.bool('asreal')
    k = iMPS().deserialize(m.serialize(real=real), d, D, p, real=real)
    g.ok('unit cell', len(k.data) == p and k.period == p)
    for a, b in zip(k.data, m.data):
        g.same('infinite chain tensors come back', a, b)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'state')
        m.store(f)
        k = iMPS().load(f+'.npy')
    g.ok('metadata', (k.d, k.D, k.period) == (d, D, p))
    for a, b in zip(k.data, m.data):
        g.same('stored infinite chain comes back', a, b)


# ------------------------------------------------------------------ C10
@case('C10', 120)
def energy_density(g):
    m, v = fmps(g, Lmin=2, Lmax=6, dense_cap=800)
    L, d = len(m.data), m.data[0].shape[0]
    if g.bool('canon', .6):
        m, v = history(g, m, v, 1, allow=['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'right_orthogonalise', 'mixed_orthogonalise'])
    n = np.linalg.norm(dense(m.data))
    m.data[0] = m.data[0]/n
    v = dense(m.data)
    hs = g.terms(L-1, d*d)
    H = ham_dense(hs, d)
    want = np.vdot(v, H@v).real
    g.close('energy of a list of bond terms is <H>/L', m.energy(hs), want/L, 1e-8, scale=np.linalg.norm(H))
    g.close('energy with the full matrix is <H>', m.energy(H, fullH=True), want, 1e-8, scale=np.linalg.norm(H))
    g.fid('energy does not change the state', dense(m.data), v)


@case('C10', 50)
def energy_after_history(g):
    m, v = fmps(g, Lmin=2, Lmax=5, d=2)
    m, v = history(g, m, v, g.int('n', 1, 4))
    L, d = len(m.data), 2
    m.data[0] = m.data[0]/np.linalg.norm(dense(m.data))
    v = v/np.linalg.norm(v)
    hs = g.terms(L-1, 4)
    g.close('energy after operations', m.energy(hs)*L, np.vdot(v, ham_dense(hs, d)@v).real, 1e-7, scale=L*10)


@case('C10', 40)
def energy_of_model(g):
    """energy of assembled models equals the dense Hamiltonian's expectation value"""
    from xmps.Hamiltonians import Hamiltonian
    L = g.int('L', 2, 6)
    keys = ['XX', 'YY', 'ZZ', 'X', 'Y', 'Z', 'XZ', 'ZY']
    H = Hamiltonian({k: g.real(k) for k in keys if g.bool('use_'+k)} or {'ZZ': 1})
    m, v = fmps(g, L=L, d=2)
    m.left_canonicalise()
    v = v/np.linalg.norm(v)
    hs = H.to_matrices(L)
    g.close('model energy', m.energy(hs)*L, np.vdot(v, H.to_full(L)@v).real, 1e-8, scale=L)


# ------------------------------------------------------------------ C24
@case('C24', 160)
def copies_are_isolated(g):
    m, v = fmps(g)
    if g.bool('pre', .5):
        m, v = history(g, m, v, 1)
    keep = [x.copy() for x in m.data]
    L, d = len(m.data), m.data[0].shape[0]
    c = m.copy()
    for a, b in zip(c.data, m.data):
        g.ok('copy has the same tensors', np.array_equal(a, b))
        g.ok('no shared memory', not np.shares_memory(a, b))
    if g.bool('in place', .3):      # a user scales or edits one tensor of the copy where it lies
        k = g.int('site', 0, L-1)
        if g.bool('scale'):
            c[k] *= 2
        else:
            c.data[k][...] = 0.
        for a, b in zip(keep, m.data):
            g.ok('writing into a copy is not visible in the original', np.array_equal(a, b))
        return
    w = dense(c.data)
    c, _ = history(g, c, w, g.int('n', 1, 5))
    if L > 2 and g.bool('post', .2):
        c.post_select(0, 0)
    g.ok('the original keeps its length', len(m.data) == L)
    for a, b in zip(keep, m.data):
        g.ok('operations on a copy leave the original alone', a.shape == b.shape and np.array_equal(a, b))


@case('C24', 80)
def arguments_are_not_modified(g):
    m, v = fmps(g, Lmin=2, d=2, Lmax=5)
    L, d = len(m.data), 2
    Os = [g.herm(2), g.herm(4), g.unitary(4)]
    hs = g.terms(L-1, 4)
    full = ham_dense(hs, 2)
    keep = [x.copy() for x in Os+hs+[full]]
    b, w = fmps(g, L=L, d=2)
    kb = [x.copy() for x in b.data]
    m.E(Os[0], 0), m.E_k(Os[1], [0, 1]), m.overlap(b), b.overlap(m), m.energy(hs), m.energy(full, fullH=True)
    m = m.apply_two_site((Os[2], (0, 1)))
    m = m.apply((Os[0], L-1))
    m.add(b), b.add(m), m.copy()
    for x, y in zip(keep, Os+hs+[full]):
        g.ok('operators passed in are not modified', np.array_equal(x, y))
    for x, y in zip(kb, b.data):
        g.ok('the other operand is not modified', np.array_equal(x, y))


@case('C24', 60)
def given_tensors_are_not_modified(g):
    As = raw_state(g)
    v = dense(As)
    if not np.linalg.norm(v) > 1e-8*np.prod([np.linalg.norm(a) for a in As]):
        raise Skip()
    keep = [a.copy() for a in As]
    m = F()(list(As))
    m, _ = history(g, m, v, g.int('n', 1, 4))
    for a, b in zip(keep, As):
        g.ok('arrays handed to the constructor are not written to', np.array_equal(a, b))


@case('C24', 40)
def constructing_from_a_state(g):
    """a state made from the tensors of another, cut or not, leaves the other one as it was"""
    m, v = fmps(g)
    keep = [x.copy() for x in m.data]
    D = g.pick('D', [None, 1, 2, 3])
    n = F()(m.data, m.d) if D is None else F()(m.data, m.d, D)
    g.ok('the length', len(n.data) == len(keep))
    for a, b in zip(keep, m.data):
        g.ok('the given state is not modified', a.shape == b.shape and np.array_equal(a, b))


@case('C24', 20)
def trajectory_copies(g):
    from xmps.fTDVP import Trajectory
    L = g.int('L', 2, 4)
    m = F()().random(L, 2, g.int('D', 2, 3)).left_canonicalise()
    hs = g.terms(L-1, 4)
    t = Trajectory(m, hs)
    T = np.linspace(0, .1, 4)
    run = lambda x: getattr(x, g.pick('how', ['eulerint', 'rk4int']))(T)
    if g.bool('history'):
        run(t)
    h, Ds, now = [x.copy() for x in t.mps_history], list(t.Ds), [x.copy() for x in t.mps.data]
    c = t.copy()
    g.ok('same history', len(c.mps_history) == len(h) and all(np.array_equal(a, b) for a, b in zip(c.mps_history, h)))
    a, b = (c, t) if g.bool('which', .7) else (t, c)
    run(a)
    g.ok('the other one keeps its history', len(b.mps_history) == len(h) and all(np.array_equal(x, y) for x, y in zip(b.mps_history, h)))
    g.ok('and its bonds', list(b.Ds) == Ds)
    g.ok('and its state', all(np.array_equal(x, y) for x, y in zip(b.mps.data, now)))


@case('C24', 60)
def pure_queries(g):
    """overlap, norm, energy, recombine, serialise, store, dA_dt do not touch the tensors"""
    m, v = fmps(g, Lmin=2, Lmax=5, d=2, kinds=['std'], real=False)
    m.left_canonicalise() if g.bool('left') else m.right_canonicalise()
    L = len(m.data)
    hs = g.terms(L-1, 4)
    keep = [x.copy() for x in m.data]
    o = g.pick('q', ['overlap', 'norm', 'energy', 'recombine', 'serialize', 'dA_dt', 'E_L', 'links', 'envs', 'add', 'store'])
    if o == 'overlap':
        m.overlap(m)
    elif o == 'energy':
        m.energy(hs)
    elif o == 'dA_dt':
        m.dA_dt(hs)
    elif o == 'E_L':
        m.E_L(ham_dense(hs, 2))
    elif o == 'links':
        m.links()
    elif o == 'envs':
        m.get_envs()
    elif o == 'add':
        m.add(m)
    elif o == 'store':
        with tempfile.TemporaryDirectory() as t:
            m.store(os.path.join(t, 'x'))
    else:
        getattr(m, o)()
    for a, b in zip(keep, m.data):
        g.ok('queries leave the tensors alone', np.array_equal(a, b), o)


@case('C24', 40)
def trajectories_do_not_touch_their_start(g):
    from xmps.fTDVP import Trajectory
    L = g.int('L', 2, 4)
    m = F()().random(L, 2, g.int('D', 2, 3)).left_canonicalise()
    keep = [x.copy() for x in m.data]
    hs = g.terms(L-1, 4)
    t = Trajectory(m, hs)
    T = np.linspace(0, .1, 4)
    getattr(t, g.pick('how', ['eulerint', 'rk4int', 'edint']))(T)
    for a, b in zip(keep, m.data):
        g.ok('the initial state is not evolved in place', np.array_equal(a, b))
    for a, b in zip(keep, t.mps_0.data):
        g.ok('the recorded initial state stays', np.array_equal(a, b))


@case('C24', 40)
def peps_copies(g):
    from xmps.fPEPS import fPEPS
    x = fPEPS().random(g.int('Lx', 2, 3), g.int('Ly', 2, 3), 2, 2)
    keep = [[a.copy() for a in r] for r in x.data]
    c = x.copy()
    o = g.pick('op', ['apply', 'T', 'R', 'U', 'normalise', 'isometrise', 'truncate', 'overlap', 'contract', 'recombine'])
    if o == 'apply':
        c.apply(g.herm(2), (0, 1))
    elif o in 'TRU':
        getattr(c, o)
    elif o == 'normalise':
        c.normalise()
    elif o == 'isometrise':
        c.isometrise((0, 0))
    elif o == 'truncate':
        c.truncate_above(1, 1)
    elif o == 'overlap':
        c.overlap(c)
    elif o == 'contract':
        c.contract(((0, 0), (2, 1)))
    else:
        c.recombine()
    for r, s in zip(keep, x.data):
        for a, b in zip(r, s):
            g.ok('operations on a copied network leave the original alone', np.array_equal(a, b), o)


@case('C25', 30)
def gauge_matching(g):
    """matching the gauge of another state keeps the ray and every observable, and leaves the other state alone"""
    L, d = g.int('L', 2, 5), 2
    b = std_bonds(L, d, g.int('D', 1, 4))
    m = F()([g.cplx(d, b[i], b[i+1]) for i in range(L)])
    o = F()([g.cplx(d, b[i], b[i+1]) for i in range(L)])
    (m.left_canonicalise if g.bool('left') else m.right_canonicalise)()
    (o.left_canonicalise if g.bool('oleft') else o.right_canonicalise)()
    if [a.shape for a in m.data] != [a.shape for a in o.data]:
        raise Skip()
    v = dense(m.data)
    os = [a.copy() for a in o.data]
    op, k = g.herm(d), g.int('site', 0, L-1)
    e = np.real(np.vdot(v, apply_dense(v, op, [k], L, d)))
    g.close('before', m.E(op, k), e, 1e-8)
    r = m.match_gauge_to(o)
    g.ok('the state itself', r is m)
    for x, y in zip(o.data, os):
        g.ok('the other state is not modified', np.array_equal(x, y))
    w = dense(m.data)
    g.fid('same ray', w, v, 1e-8)
    g.close('same length', np.linalg.norm(w), np.linalg.norm(v), 1e-9)
    g.close('after', m.E(op, k), e, 1e-8)
    g.close('overlap', abs(m.overlap(o)), abs(np.vdot(dense(os), v)), 1e-8)
