"""numpy / scipy as the repository's source sees them.

Every function looks at its arguments: nothing symbolic -> the real numpy / scipy function; otherwise the symbolic
implementation below, or Unsupported.  The symbolic implementations are the trusted contracts of numpy and scipy:
array plumbing is given exactly; factorisations by their defining equations only.
"""
import math, numpy as np, scipy, scipy.linalg, scipy.sparse.linalg, scipy.optimize, types, builtins
from dims import *
from dims import Dim, Ctx, ctx, Unsupported, PathEnd, dprod, dkey, same, divide, show, dmin, dmax, zz
import sym, band
from sym import *
from sym import SArr, SList, Term, Atom, Rule, add_rule, lift, fresh, memo, inj, gen, of_atom, eye as sym_eye, zeros as sym_zeros, \
    ones as sym_ones, contract, merge_scal, tensordot as sym_tensordot, scalar_atom, dim_scalar, add, mul, canon, conj_term, components, embed


def symbolic(x, depth=0):
    if isinstance(x, (SArr, Dim, SList, band.Ix, band.Vec, band.Band, band.Range)) or type(x).__name__ in ("SymSeq", "SymIter"):
        return True
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(symbolic(y, depth+1) for y in x)
    if isinstance(x, dict) and depth < 3:
        return any(symbolic(y, depth+1) for y in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(symbolic(y) for y in x.flat)
    if isinstance(x, (map, zip)) and depth < 2:
        return False
    return False


# ------------------------------------------------------------------ array plumbing

def np_array(x, dtype=None, copy=True, **k):
    if isinstance(x, band.Range):
        return x.vec()
    if isinstance(x, (list, tuple)) and len(x) == 1 and isinstance(x[0], band.Ix) and x[0].rng is not None:
        return band.Vec(x[0].e, x[0].rng)
    if isinstance(x, (band.Vec, band.Band)):
        return x
    if isinstance(x, SArr):
        return x.copy() if copy else x
    if isinstance(x, SList):
        return x.arr.copy()
    if isinstance(x, (list, tuple)) and any(isinstance(y, Dim) for y in x) and all(isinstance(y, (Dim, int, np.integer)) for y in x):
        r = np.empty(len(x), dtype=object)
        r[:] = list(x)
        return r
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array(x)
    if isinstance(x, (list, tuple)) and x and dims_only(x):
        return np.array(x, dtype=object)
    if isinstance(x, (list, tuple)):
        return np_stack([np_array(y) if isinstance(y, (list, tuple)) else y for y in x])
    if isinstance(x, Dim):
        return dim_scalar(x, 1)
    if not symbolic(x):
        return np.array(x, dtype=dtype)
    raise Unsupported('array of %s' % type(x).__name__)


def dims_only(x):
    return all(dims_only(y) if isinstance(y, (list, tuple)) else isinstance(y, (Dim, int, np.integer)) for y in x) and symbolic(x)


def np_max(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = np_array(x)
    if axis is None and isinstance(x, np.ndarray) and x.dtype == object and all(isinstance(y, (Dim, int)) for y in x.flat):
        return dmax(*x.flat)
    raise Unsupported('maximum of symbolic entries')


def np_asarray(x, dtype=None, **k):
    return x if isinstance(x, SArr) else np_array(x)


def np_stack(l, axis=0, **k):
    if isinstance(l, SArr):
        l = list(l)
    l = [lift(x) for x in l]
    n = len(l)
    out = None
    nd = l[0].ndim
    if axis < 0:
        axis += nd+1
    for i, x in enumerate(l):
        if x.ndim != nd:
            raise ValueError('all input arrays must have the same shape')
        if i:
            for a in range(nd):
                x, _ = match_axes(x, a, l[0], a)
        y = x
        if n > 1:
            pos = sum(len(a) for a in x.axes[:axis])
            e = inj(n, i, 1)
            terms = []
            for t in x.terms:
                k = fresh(n)
                terms.append(Term(t.coef, t.scal, t.facs+[(e, False, (k,))], t.outs[:pos]+(k,)+t.outs[pos:]))
            y = SArr(x.axes[:axis]+[(n,)]+x.axes[axis:], terms, real=x.realdt)
        else:
            y = SArr(x.axes[:axis]+[()]+x.axes[axis:], x.terms, real=x.realdt)
        out = y if out is None else add(out, y, 1)
    return SArr(out.axes, out.terms, real=out.realdt)


iso_atom = sym.iso_of


def merge_axis(A, ax):
    """axis ax as one slot"""
    s = A.axes[ax]
    if len(s) <= 1:
        return A
    if not any(isinstance(x, Dim) for x in s):
        # concrete: reshape constants if the whole axis is carried by constants, else iso
        pass
    at = iso_atom(s)
    pos = sum(len(a) for a in A.axes[:ax])
    terms = []
    for t in A.terms:
        k = fresh(at.legs[0])
        terms.append(Term(t.coef, t.scal, t.facs+[(at, False, (k,)+t.outs[pos:pos+len(s)])], t.outs[:pos]+(k,)+t.outs[pos+len(s):]))
    return SArr(A.axes[:ax]+[(at.legs[0],)]+A.axes[ax+1:], terms, A.root, A.ver, real=A.realdt)


sym.merge_const_slots = merge_axis


def np_concatenate(l, axis=0, **k):
    if isinstance(l, SList):
        l = l.arr
    if isinstance(l, SArr):
        # the pieces are the entries along axis 0
        A = l
        if axis < 0:
            axis += A.ndim-1
        p = list(range(1, A.ndim))
        p.insert(axis, 0)
        B = A.transpose(p)
        return SArr(B.axes[:axis]+[B.axes[axis]+B.axes[axis+1]]+B.axes[axis+2:], B.terms, real=A.realdt)
    l = [lift(x) for x in l]
    if len(l) == 1:
        return l[0].copy()
    nd = l[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis %= nd
    for x in l:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    # all pieces with the same slots: a new major slot would do, but positions are kept as injections
    total = 0
    for x in l:
        total = total+x.shape[axis]
    out = None
    start = 0
    for i, x in enumerate(l):
        n = x.shape[axis]
        x = merge_axis(x, axis)
        for a in range(nd):
            if a != axis:
                x, _ = match_axes(x, a, l[0], a)
        pos = sum(len(a) for a in x.axes[:axis])
        if not x.terms:
            y = SArr(x.axes[:axis]+[(total,)]+x.axes[axis+1:], [])
        elif not isinstance(n, Dim) and n == 0:
            y = SArr(x.axes[:axis]+[(total,)]+x.axes[axis+1:], [])
        elif not x.axes[axis]:
            e = inj(total, start, 1)
            terms = []
            for t in x.terms:
                kk = fresh(total)
                terms.append(Term(t.coef, t.scal, t.facs+[(e, False, (kk,))], t.outs[:pos]+(kk,)+t.outs[pos:]))
            y = SArr(x.axes[:axis]+[(total,)]+x.axes[axis+1:], terms)
        else:
            y = SArr(x.axes[:axis]+[(total,)]+x.axes[axis+1:], embed(x, pos, inj(total, start, n)))
        out = y if out is None else add(out, y, 1)
        start = start+n
    return SArr(out.axes, out.terms)


def np_split(A, sections, axis=0):
    A = lift(A)
    axis %= A.ndim
    if isinstance(sections, (list, tuple)):
        if len(A.axes[axis]) > 1:
            A = merge_axis(A, axis)
        out, prev = [], 0
        n = A.shape[axis]
        for s in list(sections)+[n]:
            ix = [slice(None)]*A.ndim
            ix[axis] = slice(prev, s)
            out.append(A[tuple(ix)])
            prev = s
        return out
    n = A.shape[axis]
    q = divide(n, sections)
    if q is None:
        raise ValueError('array split does not result in an equal division')
    if not isinstance(sections, Dim) and sections == 1:
        return [A]
    A, k = split_front(A, axis, sections)
    # the leading slots of the axis become the section index
    pos = sum(len(a) for a in A.axes[:axis])
    terms = [Term(t.coef, t.scal, t.facs, t.outs[pos:pos+k]+t.outs[:pos]+t.outs[pos+k:]) for t in A.terms]
    axes = [A.axes[axis][:k]]+A.axes[:axis]+[A.axes[axis][k:]]+A.axes[axis+1:]
    return SList(SArr(axes, terms, A.root, A.ver, real=A.realdt))


def split_front(A, axis, d):
    """(A, k): the first k slots of the axis have product d"""
    k, got = 0, 1
    while not same(got, d):
        s = A.axes[axis]
        if k == len(s):
            raise Unsupported('split of %s into %s' % (s, show(d)))
        if divide(d, got*s[k]) is None:
            q = divide(d, got)
            if q is None or divide(s[k], q) is None:
                raise Unsupported('split of %s into %s' % (s, show(d)))
            A = A.split_slot(sum(len(a) for a in A.axes[:axis])+k, [q, divide(s[k], q)])
            s = A.axes[axis]
        got = got*s[k]
        k += 1
    return A, k


def np_transpose(A, axes=None):
    return lift(A).transpose(axes) if axes is not None else lift(A).transpose()


def np_swapaxes(A, a, b):
    return lift(A).swapaxes(a, b)


def np_moveaxis(A, src, dst):
    A = lift(A)
    src = [src] if isinstance(src, int) else list(src)
    dst = [dst] if isinstance(dst, int) else list(dst)
    src = [s % A.ndim for s in src]
    dst = [d % A.ndim for d in dst]
    order = [n for n in range(A.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return A.transpose(order)


def np_rollaxis(A, axis, start=0):
    A = lift(A)
    axis %= A.ndim
    if start < 0:
        start += A.ndim
    if axis < start:
        start -= 1
    if axis == start:
        return A
    axes = list(range(A.ndim))
    axes.remove(axis)
    axes.insert(start, axis)
    return A.transpose(axes)


def np_reshape(A, shape=None, order='C', newshape=None, **k):
    shape = newshape if shape is None else shape
    return lift(A).reshape(shape, order=order) if isinstance(shape, (tuple, list)) else lift(A).reshape(shape, order=order)


def np_expand_dims(A, axis):
    A = lift(A)
    ax = [axis] if isinstance(axis, int) else list(axis)
    nd = A.ndim+len(ax)
    ax = sorted(a % nd for a in ax)
    axes = list(A.axes)
    for a in ax:
        axes.insert(a, ())
    return A.view(axes, A.terms)


def np_squeeze(A, axis=None):
    return lift(A).squeeze(axis)


def np_conj(A):
    if isinstance(A, Dim):
        return A
    return lift(A).conj()


def np_real(A):
    return lift(A).real


def np_imag(A):
    return lift(A).imag


def shp(s):
    return tuple(s) if isinstance(s, (tuple, list, np.ndarray)) else (s,)


def np_zeros(shape, dtype=None, **k):
    return sym_zeros(shp(shape), real=dtype is None or dtype in (float,))


def np_ones(shape, dtype=None, **k):
    return sym_ones(shp(shape))


def np_full(shape, v, **k):
    return sym_ones(shp(shape))*v


def np_identity(n, dtype=None):
    return sym_eye(n)


def np_eye(n, m=None, k=0, dtype=None, **kw):
    if (m is not None and not same(m, n)) or k:
        raise Unsupported('rectangular eye')
    return sym_eye(n)


def np_zeros_like(A, dtype=None, **k):
    A = lift(A)
    return SArr(A.axes, [], real=A.realdt)


def np_ones_like(A, dtype=None, **k):
    A = lift(A)
    return SArr(A.axes, [Term(1, {}, [], tuple(fresh(s) for s in A.slots()))], real=A.realdt)


def np_prod(x, axis=None, **k):
    if isinstance(x, np.ndarray):
        x = list(x.flat)
    if isinstance(x, (list, tuple)):
        return dprod([y for y in x]) if not any(isinstance(y, SArr) for y in x) else _prod_arr(x)
    if isinstance(x, SArr) and x.ndim == 1:
        return _prod_arr(list(x))
    raise Unsupported('prod')


def np_cumsum(x, axis=None, **k):
    if isinstance(x, np.ndarray):
        x = list(x.flat)
    if not isinstance(x, (list, tuple)) or any(isinstance(y, SArr) for y in x):
        raise Unsupported('cumsum of this')
    r = []
    for y in x:
        r.append(y if not r else r[-1]+y)
    return r


def _prod_arr(x):
    r = 1
    for y in x:
        r = r*y
    return r


def np_dot(a, b, out=None):
    A, B = lift(a), lift(b)
    if A.ndim == 0 or B.ndim == 0:
        return mul(A, B)
    if B.ndim == 1:
        return sym_tensordot(A, B, [A.ndim-1], [0])
    return sym_tensordot(A, B, [A.ndim-1], [B.ndim-2])


def np_vdot(a, b):
    A, B = lift(a).conj().reshape(-1), lift(b).reshape(-1)
    return sym_tensordot(A, B, [0], [0])


def np_inner(a, b):
    A, B = lift(a), lift(b)
    if A.ndim == 0 or B.ndim == 0:
        return mul(A, B)
    return sym_tensordot(A, B, [A.ndim-1], [B.ndim-1])


def np_outer(a, b):
    A, B = lift(a).reshape(-1), lift(b).reshape(-1)
    return sym_tensordot(A, B, [], [])


def np_matmul(a, b):
    return sym.matmul(a, b)


def np_tensordot(a, b, axes=2):
    A, B = lift(a), lift(b)
    if isinstance(axes, (int, np.integer)):
        n = int(axes)
        return sym_tensordot(A, B, list(range(A.ndim-n, A.ndim)), list(range(n)))
    x, y = axes
    x = [x] if isinstance(x, (int, np.integer)) else list(x)
    y = [y] if isinstance(y, (int, np.integer)) else list(y)
    return sym_tensordot(A, B, x, y)


def np_trace(A, offset=0, axis1=0, axis2=1, **k):
    A = lift(A)
    if offset:
        raise Unsupported('offset trace')
    a, b = axis1 % A.ndim, axis2 % A.ndim
    if not (A.shape[a] == A.shape[b]):
        raise Unsupported('trace of a non-square pair')
    A = self_match(A, a, b)
    la = [[(i, k) for k in range(len(x))] for i, x in enumerate(A.axes)]
    la[b] = la[a]
    keep = [i for i in range(A.ndim) if i not in (a, b)]
    return contract([A], [sum(la, [])], [l for i in keep for l in la[i]], [A.axes[i] for i in keep])


def self_match(A, a, b):
    s = sym.refine(A.axes[a], A.axes[b])
    if s is None:
        if len(A.axes[a]) == len(A.axes[b]) and all(same(x, y) for x, y in zip(A.axes[a], A.axes[b])):
            return A
        raise Unsupported('no common refinement on one array')
    A = sym.split_axis(A, a, s)
    return sym.split_axis(A, b, s)


def np_diagonal(A, offset=0, axis1=0, axis2=1):
    A = lift(A)
    if offset:
        raise Unsupported('offset diagonal')
    a, b = axis1 % A.ndim, axis2 % A.ndim
    if not same(A.shape[a], A.shape[b]):
        n = dmin(A.shape[a], A.shape[b])
        ix = [slice(None)]*A.ndim
        ix[a] = ix[b] = slice(None, n)
        A = A[tuple(ix)]
    A = self_match(A, a, b)
    la = [[(i, k) for k in range(len(x))] for i, x in enumerate(A.axes)]
    la[b] = la[a]
    keep = [i for i in range(A.ndim) if i not in (a, b)]
    r = contract([A], [sum(la, [])], [l for i in keep for l in la[i]]+la[a], [A.axes[i] for i in keep]+[A.axes[a]])
    r.realdt = A.realdt
    return r


def np_arange(*a, **k):
    if k or len(a) > 3 or not any(isinstance(x, band.Ix) for x in a):
        raise Unsupported('arange of symbolic values')
    a = (0, a[0], 1) if len(a) == 1 else a+(1,) if len(a) == 2 else a
    return band.Range(*a)


def np_diag(A, k=0):
    if isinstance(A, band.Range):
        A = A.vec()
    if isinstance(A, band.Vec):
        return band.diag(A, k)
    A = lift(A)
    if k:
        raise Unsupported('offset diag')
    if A.ndim == 2:
        return np_diagonal(A)
    if A.ndim != 1:
        raise ValueError('Input must be 1- or 2-d.')
    return SArr([A.axes[0], A.axes[0]], [Term(t.coef, t.scal, t.facs, t.outs+t.outs) for t in A.terms], real=A.realdt)


def np_sum(A, axis=None, **k):
    if type(A).__name__ in ('SymSeq', 'SymIter'):
        import loops
        return loops.p_sum(A)
    if isinstance(A, (list, tuple)) and axis == 0 and len(A):
        r = lift(A[0])
        for x in A[1:]:
            r = r+x
        return r
    A = lift(A)
    if k.get('keepdims'):
        raise Unsupported('keepdims')
    ax = list(range(A.ndim)) if axis is None else ([axis] if isinstance(axis, (int, np.integer)) else list(axis))
    ax = [a % A.ndim for a in ax]
    la = [[(i, k) for k in range(len(x))] for i, x in enumerate(A.axes)]
    keep = [i for i in range(A.ndim) if i not in ax]
    return contract([A], [sum(la, [])], [l for i in keep for l in la[i]], [A.axes[i] for i in keep])


def np_mean(A, axis=None, **k):
    if isinstance(A, (list, tuple)):
        A = np_array(A)
    n = A.size if axis is None else A.shape[axis]
    return np_sum(A, axis)/n


def np_kron(a, b):
    A, B = lift(a), lift(b)
    n = max(A.ndim, B.ndim)
    A = SArr([()]*(n-A.ndim)+A.axes, A.terms)
    B = SArr([()]*(n-B.ndim)+B.axes, B.terms)
    la = [[('a', i, k) for k in range(len(x))] for i, x in enumerate(A.axes)]
    lb = [[('b', i, k) for k in range(len(x))] for i, x in enumerate(B.axes)]
    out = [l for i in range(n) for l in la[i]+lb[i]]
    return contract([A, B], [sum(la, []), sum(lb, [])], out, [A.axes[i]+B.axes[i] for i in range(n)])


def np_einsum(*args, optimize=False, **k):
    if isinstance(args[0], str):
        spec, ops = args[0].replace(' ', ''), [lift(x) for x in args[1:]]
        if '...' in spec:
            raise Unsupported('einsum ellipsis')
        if '->' in spec:
            i, o = spec.split('->')
        else:
            i = spec
            o = ''.join(sorted(ch for ch in set(i.replace(',', '')) if i.count(ch) == 1))
        ins = [list(x) for x in i.split(',')]
        out = list(o)
    else:
        ops, ins = [], []
        args = list(args)
        out = None
        while len(args) >= 2:
            ops.append(lift(args.pop(0)))
            ins.append(list(args.pop(0)))
        if args:
            out = list(args[0])
        else:
            flat = sum(ins, [])
            out = sorted(x for x in set(flat) if flat.count(x) == 1)
    # unify slot structures per index
    first = {}
    ops = list(ops)
    for n, (A, ix) in enumerate(zip(ops, ins)):
        if A.ndim != len(ix):
            raise ValueError('einsum: operand has %d axes for %d indices' % (A.ndim, len(ix)))
        for ax, l in enumerate(ix):
            if l not in first:
                first[l] = (n, ax)
            else:
                m, bx = first[l]
                if m == n:
                    ops[n] = self_match(ops[n], bx, ax)
                else:
                    ops[m], ops[n] = match_axes(ops[m], bx, ops[n], ax)
    labels = [[(l, k) for ax, l in enumerate(ix) for k in range(len(A.axes[ax]))] for A, ix in zip(ops, ins)]
    axes = [ops[first[l][0]].axes[first[l][1]] for l in out]
    return contract(ops, labels, [(l, k) for l, ax in zip(out, axes) for k in range(len(ax))], axes)


def np_block(rows):
    if isinstance(rows, list) and rows and isinstance(rows[0], list):
        return np_concatenate([np_concatenate(r, axis=1) if len(r) > 1 else r[0] for r in rows], axis=0)
    return np_concatenate(rows, axis=-1)


def np_block_diag(*ms):
    ms = [lift(m) for m in ms]
    rows = []
    for i, m in enumerate(ms):
        rows.append([m if i == j else sym_zeros((m.shape[0], o.shape[1])) for j, o in enumerate(ms)])
    return np_block(rows)


def np_pad(A, widths, mode='constant', **k):
    A = lift(A)
    if mode != 'constant' or k:
        raise Unsupported('pad mode')
    if isinstance(widths, (int, Dim)):
        widths = [(widths, widths)]*A.ndim
    widths = [tuple(w) if isinstance(w, (list, tuple)) else (w, w) for w in widths]
    for ax, (b, a) in enumerate(widths):
        b, a = dimof(b), dimof(a)
        if same(b, 0) and same(a, 0):
            continue
        if (a < 0) or (b < 0):
            raise ValueError('index can\'t contain negative values')
        if same(b, 0) and same(a, 0):
            continue
        A = merge_axis(A, ax)
        n = A.shape[ax]
        tot = n+a+b
        if isinstance(n, Dim) or n != 1:
            pos = sum(len(x) for x in A.axes[:ax])
            A = SArr(A.axes[:ax]+[(tot,)]+A.axes[ax+1:], embed(A, pos, inj(tot, b, n)) if A.terms else [])
        else:
            pos = sum(len(x) for x in A.axes[:ax])
            e = inj(tot, b, 1)
            terms = []
            for t in A.terms:
                kk = fresh(tot)
                terms.append(Term(t.coef, t.scal, t.facs+[(e, False, (kk,))], t.outs[:pos]+(kk,)+t.outs[pos:]))
            A = SArr(A.axes[:ax]+[(tot,)]+A.axes[ax+1:], terms)
    return SArr(A.axes, A.terms)


def dimof(x):
    """an SArr scalar that is a dimension, as a Dim"""
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Dim):
        return x
    if isinstance(x, SArr) and not x.slots():
        p = {}
        for k, t in x.nf().items():
            if t.facs or abs(t.coef-round(complex(t.coef).real)) > 1e-9:
                raise Unsupported('not a dimension')
            m = []
            for (s, cj), e in t.scal.items():
                if not isinstance(s, tuple) or e < 0:
                    raise Unsupported('not a dimension')
                m += [s[1]]*e
            p[tuple(sorted(m))] = p.get(tuple(sorted(m)), 0)+int(round(complex(t.coef).real))
        return Dim.mk(p)
    raise Unsupported('not a dimension')


def np_copy(A, **k):
    return lift(A).copy()


def np_ravel(A, order='C'):
    return lift(A).reshape(-1, order=order)


def np_shape(A):
    return lift(A).shape


def np_ndim(A):
    return lift(A).ndim


def np_size(A, axis=None):
    A = lift(A)
    return A.size if axis is None else A.shape[axis]


def np_flip(A, axis=None):
    A = lift(A)
    for a in (range(A.ndim) if axis is None else [axis]):
        A = sym.reverse(A, a % A.ndim)
    return A


def np_tril_unsupported(*a, **k):
    raise Unsupported('triangular part')


def np_add(a, b, **k):
    return lift(a)+b


def np_subtract(a, b, **k):
    return lift(a)-b


def np_multiply(a, b, **k):
    return lift(a)*b


def np_divide(a, b, **k):
    return lift(a)/b


def np_negative(a):
    return -lift(a)


def np_square(a):
    a = lift(a)
    return a*a


def np_power(a, b):
    return lift(a)**b


def np_real_if_close(a, tol=100):
    return lift(a)


def np_allclose(a, b, *r, **k):
    A, B = lift(a), lift(b)
    d = A-B
    if not d.nf():
        return True
    if d.number() is not None:
        return bool(abs(d.number()) < 1e-8)
    n = d.nf()
    if len(n) == 1 and not d.slots():
        (t,) = n.values()
        at = [x for x, _ in t.scal]
        if not t.facs and len(at) == 1 and isinstance(at[0], Atom):
            # one unknown number against zero: decided once, and exactly zero where numpy calls it close to zero
            c = ctx()
            if at[0].id in c.flags.setdefault('nonzero', set()):
                return False
            if c.choose('%s is close to zero' % at[0].name):
                c.assumed.add('numbers numpy.allclose calls equal to zero are taken to be zero')
                c.flags.setdefault('zeroed', set()).add(at[0])
                return True
            c.flags['nonzero'].add(at[0].id)
            return False
    return ctx().choose('allclose on symbolic values')


# ------------------------------------------------------------------ scalars

def positive_term(t):
    return complex(t.coef).real > 0 and abs(complex(t.coef).imag) < 1e-12 and all(
        isinstance(s, tuple) or (s.meta or {}).get('positive') or p % 2 == 0 and s.real for (s, cj), p in t.scal.items())


def selfconj(t):
    """syntactically |Z|^2: the factors of a closed network pair up into a network Z without outputs and its conjugate,
    or the network is a full contraction of one tensor with its conjugate (sum of |entries|^2)"""
    f = [x for x in t.facs if not x[1]]
    g = [x for x in t.facs if x[1]]
    if len(f) == len(g) == 1:
        return f[0][0] is g[0][0] and f[0][2] == g[0][2]
    if any(a.real for a, _, _ in t.facs) or len(f) != len(g):
        return False
    labs = {l for _, _, ls in f for l in ls} & {l for _, _, ls in g for l in ls}
    outs = sorted(labs)
    from sym import canon as _c
    kf, _ = _c(Term(1, {}, f, tuple(outs)))
    kg, _ = _c(Term(1, {}, [(a, False, ls) for a, _, ls in g], tuple(outs)))
    return kf == kg


def root_of(s):
    """positive root q of a scalar atom the code takes the root of; s is replaced by q^2 from here on"""
    def make():
        if not (s.meta or {}).get('positive'):
            ctx().assumed.add('scalars whose root is taken are non-negative')
        q = Atom('root(%s)' % s.name, (), 'scal', real=True, meta=dict(positive=True))
        ctx().flags.setdefault('roots', {})[s.id] = q
        ctx().flags['rulegen'] = ctx().flags.get('rulegen', 0)+1
        return q
    return memo(('root', s.id), make)


def sqrt_scalar(x):
    """principal square root of a scalar known to be non-negative"""
    n = x.nf()
    if not n:
        return 0.0
    if len(n) == 1:
        t, = n.values()
        if not t.facs and t.coef == 1 and len(t.scal) == 1:
            ((s, cj), p), = t.scal.items()
            if p in (2, -2) and not isinstance(s, tuple) and (s.meta or {}).get('right_half'):
                return SArr([], [Term(1, {(s, cj): p//2}, [], ())])
        if not t.facs and t.coef == 1 and len(t.scal) == 2:
            (s, cj), (s2, cj2) = sorted(t.scal, key=lambda k: t.scal[k])
            if s is s2 and cj != cj2 and t.scal[(s, cj)] == -1 and t.scal[(s2, cj2)] == 1:
                # sqrt(conj(z)/z): a number of absolute value one
                at = memo(('half phase', s.id, cj), lambda: Atom('w%d' % len(ctx().atoms), (), 'scal', meta=dict(phase=True, right_half=True)))
                return SArr([], [Term(1, {(at, False): 1}, [], ())])
        if not t.facs and complex(t.coef).real > 0 and abs(complex(t.coef).imag) < 1e-12:
            # product of positive scalars: product of their roots
            sc, ok = {}, True
            for (s, cj), p in t.scal.items():
                if p % 2 == 0 and (isinstance(s, tuple) or (s.meta or {}).get('positive')) or p % 4 == 0 and not isinstance(s, tuple) and s.real:
                    sc = merge_scal(sc, {(s, cj): p//2})
                elif not isinstance(s, tuple) and s.real and p % 2:
                    sc = merge_scal(sc, {(root_of(s), False): p})
                else:
                    ok = False
            if ok:
                return SArr([], [Term(np.sqrt(complex(t.coef).real), sc, [], ())])
    if len(n) == 1:
        # the root of a product of squares of absolute values is the product of the roots
        t, = n.values()
        cs = components(t)
        if len(cs) > 1 and positive_term(t):
            parts = [Term(1, {}, [t.facs[i] for i in c_], ()) for c_ in cs]
            if sum(len(c_) for c_ in cs) == len(t.facs) and all(selfconj(p) for p in parts):
                r = sqrt_scalar(SArr([], [Term(complex(t.coef).real, dict(t.scal), [], ())]))
                for p in parts:
                    r = lift(r)*sqrt_scalar(SArr([], [p]))
                return r
    k = ('sqrt', x.netkey())
    def make():
        at = Atom('sqrt%d' % len(ctx().atoms), (), 'scal', real=True, meta=dict(positive=True))
        # at^2 = x, used to fold x back
        if len(n) == 1:
            t, = n.values()
            sub = Term(1, {}, t.facs, ())
            if not t.scal and abs(complex(t.coef).imag) < 1e-12 and len(components(t)) == 1:
                kk, _ = canon(sub)
                ctx().closed[kk] = (1/t.coef, {(at, False): 2})
        return at
    at = memo(k, make)
    return SArr([], [Term(1, {(at, False): 1}, [], ())], real=True)


def np_sqrt(x):
    if isinstance(x, band.Ix):
        return band.sqrt(x)
    if isinstance(x, (band.Vec, band.Range)):
        return (x.vec() if isinstance(x, band.Range) else x).sqrt()
    if isinstance(x, Dim):
        r = dimsqrt(x)
        if r is None:
            raise Unsupported('sqrt of a dimension')
        return r
    x = lift(x)
    if not x.slots():
        return SArr(x.axes, lift(sqrt_scalar(x)).terms)
    n = x.nf()
    if len(n) == 1:
        t, = n.values()
        if abs(complex(t.coef).imag) < 1e-12 and complex(t.coef).real > 0 and not t.scal:
            if len(t.facs) == 1 and len(set(t.outs)) == 1 and tuple(t.facs[0][2]) == (t.outs[0],):
                a, cj, ls = t.facs[0]
                b = vec_sqrt(a)
                return SArr(x.axes, [Term(np.sqrt(complex(t.coef).real), {}, [(b, False, ls)], t.outs)])
            if not t.facs:
                return SArr(x.axes, [Term(np.sqrt(complex(t.coef).real), {}, [], t.outs)])
        if t.scal and len(set(t.outs)) == 1 and len(t.facs) <= 1:
            # sqrt(z v) = sqrt(z) sqrt(v) for a non-negative scalar and vector
            z = lift(sqrt_scalar(SArr([], [Term(t.coef, t.scal, [], ())])))
            return z*np_sqrt(SArr(x.axes, [Term(1, {}, t.facs, t.outs)]))
    raise Unsupported('elementwise sqrt')


def phase(x):
    """exp(i x) for a real scalar x: one unimodular atom per real monomial, raised to its coefficient"""
    x = lift(x)
    if x.slots():
        raise Unsupported('phase of an array')
    r = SArr([], [Term(1, {}, [], ())])
    for t in x.nf().values():
        z = complex(t.coef)
        if abs(z.imag) > 1e-12 or not all(sym.sreal(s) and not cj for s, cj in t.scal) or any(not a.real for a, _, _ in t.facs):
            raise Unsupported('phase of a complex number')
        if not t.facs and not t.scal:
            r = r*complex(np.exp(1j*z.real))
            continue
        key, _ = sym.canon(Term(1, t.scal, t.facs, ()))
        at = memo(('phase', key), lambda: Atom('phase%d' % len(ctx().atoms), (), 'scal', meta=dict(phase=True)))
        p = round(z.real, 12)
        r = r*SArr([], [Term(1, {(at, False): int(p) if p == int(p) else p}, [], ())])
    return r


def elementwise(f):
    def g(x, **k):
        x = lift(x)
        if not x.ndim:
            return f(x)
        if isinstance(x.shape[0], Dim) or x.ndim > 1:
            raise Unsupported('elementwise function of an array of symbolic size')
        if not x.shape[0]:
            return x
        return np_stack([f(y) for y in x])
    return g


def recip_phase(p):
    t, = p.terms
    return SArr([], [Term(1/complex(t.coef), {k: -q for k, q in t.scal.items()}, [], ())])


def s_cos(x):
    p = phase(x)
    return (p+recip_phase(p))/2


def s_sin(x):
    p = phase(x)
    return (p-recip_phase(p))/2j


def s_exp(x):
    x = lift(x)
    n = x.nf()
    if not n:
        return lift(1.0)
    return phase(x/1j)      # of an imaginary number


np_cos, np_sin, np_exp = elementwise(s_cos), elementwise(s_sin), elementwise(s_exp)


def np_sign(x):
    """sign of entries assumed non-zero: real, of square one"""
    x = lift(x)
    c = ctx()
    c.assumed.add('entries whose sign is taken are non-zero')
    sl = x.slots()
    if not sl:
        # of a product: signs keep, positive factors and a number of the right half plane drop out
        t, = sym.atomise(SArr([], x.terms)).terms if len(x.nf()) == 1 else (None,)
        if t is not None and complex(t.coef).real > 0 and abs(complex(t.coef).imag) < 1e-12:
            rest, half = {}, 0
            for (s, cj), q in t.scal.items():
                m = (s.meta or {}) if not isinstance(s, tuple) else dict(positive=True)
                if m.get('sign'):
                    rest[(s, cj)] = q
                elif m.get('right_half') and abs(q) == 1:
                    half += 1
                elif not m.get('positive'):
                    half = 2
            if half < 2:
                return SArr(x.axes, [Term(1, rest, [], ())])
        at = memo(('sign', x.netkey()), lambda: Atom('sign%d' % len(c.atoms), (), 'scal', real=True, meta=dict(sign=True, of=('sign', 0, x))))
        return SArr(x.axes, [Term(1, {(at, False): 1}, [], ())])
    def make():
        at = Atom('sign%d' % len(c.atoms), tuple(sl), real=True, meta=dict(of=('sign', 0, x)))
        v = names('s', len(sl))
        add_rule(Rule('sign^2 = 1', [(at, False, v), (at, False, v)], set(), [(1, {}, [], [], {})]), False)
        return at
    return of_atom(memo(('sign', x.netkey()), make), [tuple(a) for a in x.axes])


def vec_sqrt(a):
    def make():
        b = Atom('sqrt(%s)' % a.name, a.legs, 'gen', real=True)
        if not (a.meta or {}).get('nonneg'):
            ctx().assumed.add('entries of %s are non-negative (square root taken)' % a.name)
        add_rule(Rule('sqrt^2', [(b, False, ('k',)), (b, False, ('k',))], set(), [(1, {}, [(a, False, ('k',))], [], {})]), False)
        return b
    return memo(('vsqrt', a.id), make)


def np_norm(x, ord=None, axis=None, keepdims=False, **k):
    x = lift(x)
    if ord not in (None, 2, 'fro') or axis is not None or keepdims or (ord == 2 and x.ndim == 2):
        raise Unsupported('norm with ord/axis')
    y = x.reshape(-1)
    z = sym_tensordot(y.conj(), y, [0], [0])
    r = sqrt_scalar(z)
    if isinstance(r, SArr):
        ctx().assumed.add('norms that are divided by are non-zero')
    return r


def np_abs(x):
    x = lift(x)
    n = x.nf()
    if len(n) == 1:
        t, = n.values()
        if not t.facs and positive_term(t):
            return x
        if len(t.facs) == 1 and (t.facs[0][0].meta or {}).get('nonneg') and complex(t.coef).real > 0 and not t.scal:
            return x
    if not x.slots():
        return sqrt_scalar(x*x.conj())
    raise Unsupported('abs')


def compare_scalars(a, b, op):
    """data-dependent comparison.  Guards of the form x <= eps*y with eps at rounding level are taken as 'not so'
    (both sides agree up to rounding by the guard itself); everything else forks."""
    for x, y in ((a, b), (b, a)):
        y = lift(y)
        mag = max([abs(t.coef) for t in y.terms], default=0)
        if 0 < mag <= 1e-9:
            ctx().assumed.add('rounding-level guards (threshold <= 1e-9) are taken as not triggered')
            big = {('<', 0): False, ('<=', 0): False, ('>', 0): True, ('>=', 0): True}[(op, 0)]
            return big if y is b or (x is a) else not big
    return ctx().choose('%s between symbolic scalars' % op)


# ------------------------------------------------------------------ factorisations (defining equations only)

def names(p, n):
    return tuple('%s%d' % (p, i) for i in range(n))


def rhs_of(M, ext):
    """rewrite right-hand side equal to M with M's output slots bound to the variables ext"""
    out = []
    cnt = [0]
    for t in M.nf().values():
        v, mg, dm = {}, [], {}
        for l, e in zip(t.outs, ext):
            if l in v:
                mg.append((v[l], e))
            else:
                v[l] = e
        fs = []
        for a, cj, ls in t.facs:
            row = []
            for l in ls:
                if l not in v:
                    cnt[0] += 1
                    v[l] = '_n%d' % cnt[0]
                    dm[v[l]] = ctx().ldim[l]
                row.append(v[l])
            fs.append((a, cj, tuple(row)))
        out.append((t.coef, t.scal, fs, mg, dm))
    return out


def iso_rule(name, at, summed, free):
    """contracting the legs `summed` of at with those of its conjugate gives the identity on the legs `free`"""
    v1 = [None]*len(at.legs)
    v2 = [None]*len(at.legs)
    for i in summed:
        v1[i] = v2[i] = 's%d' % i
    mg = []
    for i in free:
        v1[i], v2[i] = 'f%d' % i, 'g%d' % i
        mg.append((v1[i], v2[i]))
    add_rule(Rule(name, [(at, False, tuple(v1)), (at, not at.real, tuple(v2))], {'s%d' % i for i in summed}, [(1, {}, [], mg, {})]), False)


def sq_rule(name, at, M):
    """the squared entries of `at` sum to those of M"""
    v = names('q', len(at.legs))
    sc = sym_tensordot(M.conj(), M, [0, 1], [0, 1])
    add_rule(Rule(name, [(at, False, v), (at, not at.real, v)], set(v), rhs_of(sc, ())), False)


def half_rule(name, at, conj, shared, M, rest, k, rhs):
    """completion of a defining equation: at (conjugated if conj) contracted with M on the output variables `shared`
    (r or c names of M's rows or columns) leaves rhs.  k: names of at's remaining legs."""
    t = single(M)
    if t is None or not t.facs or len(t.facs) > 24:
        return
    (co, sc, fs, mg, dm), = rhs_of(M, rest[0]+rest[1])
    have = {v for _, _, ls in fs for v in ls}
    if mg or not set(shared) <= have or not set(rest[0]+rest[1]) <= have:
        return
    sci = {k2: -p for k2, p in sc.items()}
    legs = shared+k if conj != 'front' else k+shared
    # one-by-one factors of M go to the other side
    if 'full' in name and shared and any(not ls for _, _, ls in fs) and any(ls for _, _, ls in fs):
        extra = []
        for a, cj, ls in fs:
            if not ls:
                if (a.meta or {}).get('nonneg'):
                    extra.append((sym.vec_inverse(a), False, ()))
                elif (a.meta or {}).get('of', ('',))[0] in ('svd', 'svdf'):
                    extra.append((a, not cj, ()))
                else:
                    extra = None
                    break
        if extra is not None:
            fs = [f for f in fs if f[2]]
            rhs = [(co_, s2, list(f2)+extra, m2, d2) for co_, s2, f2, m2, d2 in rhs]
    out = [(1/complex(co), merge_scal(sci, s2), f2, m2, d2) for _, s2, f2, m2, d2 in rhs]
    # padding on the side that is not contracted: U^H (A E^T) = s V gives U^H A = s V E
    dm, pads, more = dict(dm), [], {}
    ext = set(rest[0]+rest[1])-set(shared)
    for f in list(fs):
        a, cj, ls = f
        if a.kind == 'inj' and len(ls) == 2 and not a.meta['rev'] and ls[0] in ext and ls[1] in dm and sum(ls[0] in g[2] for g in fs) == 1:
            fs = [g for g in fs if g is not f]
            pads.append(f)
            more[ls[0]] = a.meta['total']
            dm.pop(ls[1])
    if pads:
        out = [(co_, s2, list(f2)+pads, m2, dict(d2, **more)) for co_, s2, f2, m2, d2 in out]
    add_rule(Rule(name, [(at, True, legs)]+fs, set(dm) | set(shared), out))


def mslots(M):
    if M.ndim != 2:
        raise Unsupported('factorisation of a %d-axis array' % M.ndim)
    return list(M.axes[0]), list(M.axes[1])


def nslot(k):
    return [] if (not isinstance(k, Dim) and k == 1) else [k]


def kdim(rows, cols):
    return dmin(dprod(rows), dprod(cols))


def f_qr(M):
    M = lift(M)
    rows, cols = mslots(M)
    def make():
        n = ctx().flags.setdefault('nfac', [0])
        n[0] += 1
        k = kdim(rows, cols)
        ks = nslot(k)
        Q = Atom('Q%d' % n[0], rows+ks, meta=dict(of=('qr', 0, M)))
        R = Atom('R%d' % n[0], ks+cols, meta=dict(of=('qr', 1, M)))
        r, c = names('r', len(rows)), names('c', len(cols))
        kk = names('k', len(ks))
        iso_rule('Q^H Q = 1', Q, range(len(rows)), range(len(rows), len(rows)+len(ks)))
        if same(k, dprod(rows)):
            iso_rule('Q Q^H = 1 (square)', Q, range(len(rows), len(rows)+len(ks)), range(len(rows)))
        add_rule(Rule('QR = M', [(Q, False, r+kk), (R, False, kk+c)], set(kk), rhs_of(M, r+c)))
        half_rule('Q^H M = R', Q, True, r, M, (r, c), kk, [(1, {}, [(R, False, kk+c)], [], {})])
        sq_rule('|R|^2 = |M|^2', R, M)
        return Q, R, k
    Q, R, k = memo(('qr', M.key()), make)
    return of_atom(Q, [tuple(rows), (k,)]), of_atom(R, [(k,), tuple(cols)])


def f_qr_full(M):
    """square unitary factor: M = Qf E R with E the injection of the first min(m,n) columns"""
    M = lift(M)
    rows, cols = mslots(M)
    m = dprod(rows)
    k = kdim(rows, cols)
    if same(k, m):
        return f_qr(M)
    def make():
        n = ctx().flags.setdefault('nfac', [0])
        n[0] += 1
        ks, ms = nslot(k), [m]
        Q = Atom('Qf%d' % n[0], rows+ms, meta=dict(of=('qrf', 0, M)))
        R = Atom('R%d' % n[0], ks+cols, meta=dict(of=('qrf', 1, M)))
        r, c, kk = names('r', len(rows)), names('c', len(cols)), names('k', len(ks))
        iso_rule('Q^H Q = 1', Q, range(len(rows)), range(len(rows), len(rows)+1))
        iso_rule('Q Q^H = 1', Q, range(len(rows), len(rows)+1), range(len(rows)))
        e = inj(m, 0, k)
        add_rule(Rule('Q E R = M', [(Q, False, r+('m',)), (e, False, ('m',)+kk), (R, False, kk+c)], {'m'} | set(kk), rhs_of(M, r+c)))
        half_rule('Q^H M = E R', Q, True, r, M, (r, c), ('m',), [(1, {}, [(e, False, ('m',)+kk), (R, False, kk+c)], [], {x: k for x in kk})])
        sq_rule('|R|^2 = |M|^2', R, M)
        return Q, R
    Q, R = memo(('qrf', M.key()), make)
    Ra = of_atom(R, [(k,), tuple(cols)])
    Rf = SArr([(m,), tuple(cols)], embed(Ra, 0, inj(m, 0, k)) if nslot(k) else
              [Term(t.coef, t.scal, t.facs+[(inj(m, 0, 1), False, (q,))], (q,)+t.outs) for t in Ra.terms for q in [fresh(m)]])
    return of_atom(Q, [tuple(rows), (m,)]), Rf


def f_rq(M):
    M = lift(M)
    rows, cols = mslots(M)
    def make():
        n = ctx().flags.setdefault('nfac', [0])
        n[0] += 1
        k = kdim(rows, cols)
        ks = nslot(k)
        R = Atom('r%d' % n[0], rows+ks, meta=dict(of=('rq', 0, M)))
        Q = Atom('q%d' % n[0], ks+cols, meta=dict(of=('rq', 1, M)))
        r, c = names('r', len(rows)), names('c', len(cols))
        kk = names('k', len(ks))
        iso_rule('Q Q^H = 1', Q, range(len(ks), len(ks)+len(cols)), range(len(ks)))
        add_rule(Rule('RQ = M', [(R, False, r+kk), (Q, False, kk+c)], set(kk), rhs_of(M, r+c)))
        half_rule('M Q^H = R', Q, 'front', c, M, (r, c), kk, [(1, {}, [(R, False, r+kk)], [], {})])
        sq_rule('|R|^2 = |M|^2', R, M)
        return R, Q, k
    R, Q, k = memo(('rq', M.key()), make)
    return of_atom(R, [tuple(rows), (k,)]), of_atom(Q, [(k,), tuple(cols)])


def f_svd(M, full=False):
    M = lift(M)
    rows, cols = mslots(M)
    m, n_ = dprod(rows), dprod(cols)
    def make():
        n = ctx().flags.setdefault('nfac', [0])
        n[0] += 1
        k = kdim(rows, cols)
        ks = nslot(k)
        # full or economic, the singular values are the same
        S = memo(('svd values', M.key()), lambda: Atom('s%d' % n[0], ks, real=True, meta=dict(of=('svd', 1, M), nonneg=True, sorted=True)))
        r, c, kk = names('r', len(rows)), names('c', len(cols)), names('k', len(ks))
        if not full:
            U = Atom('U%d' % n[0], rows+ks, meta=dict(of=('svd', 0, M)))
            V = Atom('V%d' % n[0], ks+cols, meta=dict(of=('svd', 2, M)))
            iso_rule('U^H U = 1', U, range(len(rows)), range(len(rows), len(rows)+len(ks)))
            iso_rule('V V^H = 1', V, range(len(ks), len(ks)+len(cols)), range(len(ks)))
            if same(k, m):
                iso_rule('U U^H = 1 (square)', U, range(len(rows), len(rows)+len(ks)), range(len(rows)))
            if same(k, n_):
                iso_rule('V^H V = 1 (square)', V, range(len(ks)), range(len(ks), len(ks)+len(cols)))
            add_rule(Rule('U s V = M', [(U, False, r+kk), (S, False, kk), (V, False, kk+c)], set(kk), rhs_of(M, r+c)))
            half_rule('U^H M = s V', U, True, r, M, (r, c), kk, [(1, {}, [(S, False, kk), (V, False, kk+c)], [], {})])
            half_rule('M V^H = U s', V, 'front', c, M, (r, c), kk, [(1, {}, [(U, False, r+kk), (S, False, kk)], [], {})])
        else:
            ms, ns = nslot(m), nslot(n_)
            U = Atom('Uf%d' % n[0], rows+ms, meta=dict(of=('svdf', 0, M)))
            V = Atom('Vf%d' % n[0], ns+cols, meta=dict(of=('svdf', 2, M)))
            iso_rule('U^H U = 1', U, range(len(rows)), range(len(rows), len(rows)+len(ms)))
            iso_rule('U U^H = 1', U, range(len(rows), len(rows)+len(ms)), range(len(rows)))
            iso_rule('V V^H = 1', V, range(len(ns), len(ns)+len(cols)), range(len(ns)))
            iso_rule('V^H V = 1', V, range(len(ns)), range(len(ns), len(ns)+len(cols)))
            mm, nn = names('m', len(ms)), names('n', len(ns))
            pat, inner = [(U, False, r+mm), (S, False, kk), (V, False, nn+c)], set()
            # U E(m,0,k) s E(n,0,k)^T V
            def leg(total, var):
                if not var:
                    return [], ()
                if same(total, k):
                    return [], kk
                return [(inj(total, 0, k), False, var+kk)], var
            e1, v1 = leg(m, mm)
            e2, v2 = leg(n_, nn)
            pat = [(U, False, r+(v1 if ms else ())), (S, False, kk), (V, False, (v2 if ns else ())+c)]+e1+e2
            inner = {x for x in tuple(v1)+tuple(v2)+kk}
            add_rule(Rule('U s V = M', pat, inner, rhs_of(M, r+c)))
            new = {}
            for var, dims in ((mm, ms), (nn, ns), (kk, ks)):
                new.update(zip(var, dims))
            def rest(bound, *fs):
                return [(1, {}, list(fs)+e1+e2, [], {x: q for x, q in new.items() if x not in bound and any(x in f[2] for f in list(fs)+e1+e2)})]
            lu, lv = (v1 if ms else ()), (v2 if ns else ())
            half_rule('U^H M = s V (full)', U, True, r, M, (r, c), lu, rest(lu, (S, False, kk), (V, False, lv+c)))
            half_rule('M V^H = U s (full)', V, 'front', c, M, (r, c), lv, rest(lv, (S, False, kk), (U, False, r+lu)))
        sq_rule('s s = |M|^2', S, M)
        if not full:
            # s V sandwiched: V^H s s V = M^H M, U s s U^H = M M^H
            r2, c2 = names('w', len(rows)), names('z', len(cols))
            P = sym.matmul(M.conj().T, M)
            add_rule(Rule('V^H s s V = M^H M', [(V, True, kk+c), (S, False, kk), (S, False, kk), (V, False, kk+c2)], set(kk), rhs_of(P, c+c2)), False)
            P = sym.matmul(M, M.conj().T)
            add_rule(Rule('U s s U^H = M M^H', [(U, False, r+kk), (S, False, kk), (S, False, kk), (U, True, r2+kk)], set(kk), rhs_of(P, r+r2)), False)
        return U, S, V, k
    U, S, V, k = memo(('svd', full, M.key()), make)
    ku, kv = (m, n_) if full else (k, k)
    return (of_atom(U, [tuple(rows), (ku,)]), of_atom(S, [(k,)]), of_atom(V, [(kv,), tuple(cols)]))


def is_hermitian(M):
    """structural check: M equals its adjoint"""
    if M.ndim != 2 or len(M.axes[0]) != len(M.axes[1]) or not all(same(a, b) for a, b in zip(M.axes[0], M.axes[1])):
        return False
    return vanishes(M-M.conj().T)


def vanishes(x):
    """x = 0 (constants and concrete indices written out)"""
    d = x.nf()
    if d and all(not isinstance(s, Dim) for s in x.slots()):
        d = sym.dense_const(d)
        if d:
            d = sym.expand_concrete(d, 60000)
    return not d


def f_eigh(M):
    M = lift(M)
    if not is_hermitian(M):
        raise Unsupported('eigh of a matrix not shown hermitian')
    rows, cols = mslots(M)
    def make():
        n = ctx().flags.setdefault('nfac', [0])
        n[0] += 1
        k = dprod(rows)
        ks = nslot(k)
        W = Atom('w%d' % n[0], ks, real=True, meta=dict(of=('eigh', 0, M), ascending=True))
        V = Atom('v%d' % n[0], rows+ks, meta=dict(of=('eigh', 1, M)))
        r, c, kk = names('r', len(rows)), names('c', len(cols)), names('k', len(ks))
        iso_rule('v^H v = 1', V, range(len(rows)), range(len(rows), len(rows)+len(ks)))
        if rows:
            iso_rule('v v^H = 1', V, range(len(rows), len(rows)+len(ks)), range(len(rows)))
        add_rule(Rule('v w v^H = M', [(V, False, r+kk), (W, False, kk), (V, True, c+kk)], set(kk), rhs_of(M, r+c)), False)
        half_rule('v^H M = w v^H', V, True, r, M, (r, c), kk, [(1, {}, [(W, False, kk), (V, True, c+kk)], [], {})])
        if rows:
            add_rule(Rule('sum of w = tr M', [(W, False, kk)], set(kk), rhs_of(np_trace(M), ())), False)
        return W, V, k
    W, V, k = memo(('eigh', M.key()), make)
    if not rows:
        # one by one: the eigenvalue is the entry
        return M.reshape(1), of_atom(V, [tuple(rows), (k,)])
    return of_atom(W, [(k,)]), of_atom(V, [tuple(rows), (k,)])


def single(M):
    n = M.nf()
    if len(n) != 1:
        return None
    return next(iter(n.values()))


def f_inv(M):
    M = lift(M)
    rows, cols = mslots(M)
    if not (dprod(rows) == dprod(cols)):
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if not rows:
        r = sym.recip(SArr([], M.terms))
        return SArr([(), ()], lift(r).terms)
    t = single(M)
    if t is not None and len(rows) == 1 and t.outs[0] == t.outs[1]:
        if not t.facs:
            return SArr(M.axes, [Term(1/t.coef, {k: -p for k, p in t.scal.items()}, [], t.outs)])
        if all(tuple(f[2]) == (t.outs[0],) for f in t.facs):
            return SArr(M.axes, [Term(1/t.coef, {k: -p for k, p in t.scal.items()}, [(sym.vec_inverse(a), cj, ls) for a, cj, ls in t.facs], t.outs)])
        # a diagonal read through reversals is still pointwise
        seen, grew = {t.outs[0]}, True
        perms = [f for f in t.facs if f[0].name.startswith('Rev(') and len(f[2]) == 2]
        while grew:
            grew = False
            for f in perms:
                if len(seen & set(f[2])) == 1:
                    seen |= set(f[2])
                    grew = True
        if perms and all(f in perms or (len(f[2]) == 1 and f[2][0] in seen) for f in t.facs):
            return SArr(M.axes, [Term(1/t.coef, {k: -p for k, p in t.scal.items()}, [(f if f in perms else (sym.vec_inverse(f[0]), f[1], f[2])) for f in t.facs], t.outs)])
    ctx().assumed.add('matrices that are inverted are invertible')
    def make():
        h = is_hermitian(M)
        k = len(rows)
        herm = (tuple(range(k, 2*k))+tuple(range(k))) if h else None
        X = Atom('inv%d' % len(ctx().atoms), cols+rows, herm=herm, meta=dict(of=('inv', 0, M)))
        r, c = names('r', len(rows)), names('c', len(cols))
        if t is not None:
            (co, sc, fs, mg, dm), = rhs_of(M, r+c)
            if not mg:
                inner = set(dm)
                sci = {k2: -p for k2, p in sc.items()}
                # M X = 1 : sum over c; X M = 1 : sum over r
                x2 = names('x', len(rows))
                add_rule(Rule('M inv(M) = 1', fs+[(X, False, c+x2)], inner | set(c), [(1/co, sci, [], list(zip(r, x2)), {})]))
                y2 = names('y', len(cols))
                add_rule(Rule('inv(M) M = 1', fs+[(X, False, y2+r)], inner | set(r), [(1/co, sci, [], list(zip(y2, c)), {})]))
        if t is not None and len(rows) == 1 and len(t.facs) == 1 and not t.scal and t.coef == 1:
            (a, cj, ls), = t.facs
            of = (a.meta or {}).get('of')
            if of and of[0] == 'chol' and not cj and len(ls) == 2:
                # M = L or L^T with L L^H = P: L^-1 P L^-H = 1
                if tuple(ls) == tuple(t.outs):
                    pat = [(X, False, ('k', 'a')), (X, True, ('q', 'b'))]
                else:
                    pat = [(X, False, ('a', 'k')), (X, True, ('b', 'q'))]
                u = single(of[2])
                if u is not None and u.facs:
                    (co, sc, fs, mg, dm), = rhs_of(of[2], ('a', 'b'))
                    if not mg:
                        add_rule(Rule('L^-1 L L^H L^-H = 1', fs+pat, set(dm) | {'a', 'b'}, [(1/co, {k2: -p for k2, p in sc.items()}, [], [('k', 'q')], {})]))
                        # P L^-H = L and L^-1 P = L^H
                        sc2 = {k2: -p for k2, p in sc.items()}
                        if tuple(ls) == tuple(t.outs):
                            p1, p2 = [(X, True, ('q', 'b'))], [(X, False, ('k', 'a'))]
                        else:
                            p1, p2 = [(X, True, ('b', 'q'))], [(X, False, ('a', 'k'))]
                        add_rule(Rule('P L^-H = L', fs+p1, set(dm) | {'b'}, [(1/co, sc2, [(a, False, ('a', 'q'))], [], {})]))
                        add_rule(Rule('L^-1 P = L^H', fs+p2, set(dm) | {'a'}, [(1/co, sc2, [(a, True, ('b', 'k'))], [], {})]))
        return X
    X = memo(('inv', M.key()), make)
    return of_atom(X, [tuple(cols), tuple(rows)])


def f_expm(M):
    M = lift(M)
    rows, cols = mslots(M)
    if not M.nf():
        # exp(0)
        k = tuple(fresh(s) for s in rows)
        return SArr(M.axes, [Term(1, {}, [], k+k)])
    anti = len(rows) == len(cols) and vanishes(M+M.conj().T)
    neg = sym.neg(M)
    c = ctx()
    kneg = ('expm', neg.key())
    if anti and kneg in c.memo:
        U = c.memo[kneg]
        return of_atom(U, [tuple(rows), tuple(cols)]).conj().T
    def make():
        herm = None
        if is_hermitian(M):
            k = len(rows)
            herm = tuple(range(k, 2*k))+tuple(range(k))
        U = Atom('exp%d' % len(c.atoms), rows+cols, herm=herm, meta=dict(of=('expm', 0, M)))
        n = len(rows)
        if anti:
            iso_rule('exp(X)^H exp(X) = 1', U, range(n), range(n, 2*n))
            iso_rule('exp(X) exp(X)^H = 1', U, range(n, 2*n), range(n))
        elif kneg in c.memo:
            W = c.memo[kneg]
            r, m, x = names('r', n), names('m', n), names('x', n)
            add_rule(Rule('exp(X)exp(-X) = 1', [(U, False, r+m), (W, False, m+x)], set(m), [(1, {}, [], list(zip(r, x)), {})]))
            add_rule(Rule('exp(-X)exp(X) = 1', [(W, False, r+m), (U, False, m+x)], set(m), [(1, {}, [], list(zip(r, x)), {})]))
        return U
    U = memo(('expm', M.key()), make)
    return of_atom(U, [tuple(rows), tuple(cols)])


def f_null(M, *a, **k):
    """orthonormal basis N of the kernel: M N = 0, N^H N = 1; when the rows of M are orthonormal (M M^H = 1) the dimension is
    columns minus rows and N N^H = 1 - M^H M"""
    M = lift(M)
    rows, cols = mslots(M)
    c = ctx()
    P = sym.matmul(M, M.conj().T)
    orth, z = not (P-sym_eye(tuple(rows))).nf(), None
    if not orth:
        # rows orthogonal with a common norm: M M^H = z 1
        t = single(P)
        if t is not None and not t.facs and t.outs[:len(rows)] == t.outs[len(rows):]:
            orth, z = True, SArr([], [Term(1/t.coef, {k2: -p for k2, p in t.scal.items()}, [], ())])
    full = not orth and c.flags.get('full_rank_null') and len(rows)
    if full:
        # declared by the contract: M has full row rank
        if same(dprod(rows), dprod(cols)):
            return sym_zeros((dprod(cols), 0))
    if orth and same(dprod(rows), dprod(cols)):
        return sym_zeros((dprod(cols), 0))
    def make():
        n = c.flags.setdefault('nfac', [0])
        n[0] += 1
        nm = 'null%d' % n[0]
        if orth or full:
            k = dprod(cols)-dprod(rows)
            c.assume(zz(k) >= 0)
        else:
            k = Dim.atom(nm, 0)
            c.cons.append(c.z[nm] <= zz(dprod(cols)))
            c.cons.append(c.z[nm] >= zz(dprod(cols))-zz(dprod(rows)))
        ks = nslot(k)
        N = Atom('N%d' % n[0], cols+ks, meta=dict(of=('null', 0, M)))
        kk = names('k', len(ks))
        iso_rule('N^H N = 1', N, range(len(cols)), range(len(cols), len(cols)+len(ks)))
        r, cc = names('r', len(rows)), names('c', len(cols))
        t = single(M)
        if t is not None:
            (co, sc, fs, mg, dm), = rhs_of(M, r+cc)
            if not mg:
                add_rule(Rule('M N = 0', fs+[(N, False, cc+kk)], set(dm) | set(cc), []))
        if orth or full:
            x = names('x', len(cols))
            G = sym.matmul(M.conj().T, M) if orth else sym.matmul(M.conj().T, sym.matmul(f_inv(P), M))
            if z is not None:
                G = G*z
            rhs = [(-co, sc, fs, mg, dm) for co, sc, fs, mg, dm in rhs_of(G, cc+x)]
            add_rule(Rule('N N^H = 1 - M^H M', [(N, False, cc+kk), (N, True, x+kk)], set(kk), [(1, {}, [], list(zip(cc, x)), {})]+rhs), False)
        return N, k
    N, k = memo(('null', M.key()), make)
    return of_atom(N, [tuple(cols), (k,)])


def f_polar(M, side='right'):
    M = lift(M)
    rows, cols = mslots(M)
    if side != 'right':
        raise Unsupported('polar side')
    def make():
        n = len(rows)
        U = Atom('pu%d' % len(ctx().atoms), rows+cols, meta=dict(of=('polar', 0, M)))
        k = len(cols)
        P = Atom('pp%d' % len(ctx().atoms), cols+cols, herm=tuple(range(k, 2*k))+tuple(range(k)), meta=dict(of=('polar', 1, M)))
        if ctx().entails(zz(dprod(rows)) >= zz(dprod(cols))):
            iso_rule('u^H u = 1', U, range(n), range(n, n+k))
        if ctx().entails(zz(dprod(rows)) <= zz(dprod(cols))):
            iso_rule('u u^H = 1', U, range(n, n+k), range(n))
        r, c, m = names('r', n), names('c', k), names('m', k)
        add_rule(Rule('u p = M', [(U, False, r+m), (P, False, m+c)], set(m), rhs_of(M, r+c)))
        return U, P
    U, P = memo(('polar', M.key()), make)
    return of_atom(U, [tuple(rows), tuple(cols)]), of_atom(P, [tuple(cols), tuple(cols)])


def f_cholesky(M, lower=True):
    M = lift(M)
    rows, cols = mslots(M)
    t = single(M)
    if t is not None and len(rows) == 1 and t.outs[0] == t.outs[1] and len(t.facs) <= 1:
        return np_sqrt(M)
    if not rows:
        return np_sqrt(M)
    if not is_hermitian(M):
        raise Unsupported('cholesky of a matrix not shown hermitian')
    ctx().assumed.add('matrices given to cholesky are positive definite')
    def make():
        k = dprod(rows)
        Lo = Atom('L%d' % len(ctx().atoms), rows+[k], meta=dict(of=('chol', 0, M)))
        r, c = names('r', len(rows)), names('c', len(cols))
        add_rule(Rule('L L^H = M', [(Lo, False, r+('k',)), (Lo, True, c+('k',))], {'k'}, rhs_of(M, r+c)), False)
        return Lo, k
    Lo, k = memo(('chol', M.key()), make)
    return of_atom(Lo, [tuple(rows), (k,)])


def count_nonzero(x, **k):
    """number of non-zero entries of a sorted non-negative vector (singular values, reversed eigenvalues of a
    positive matrix): a fresh dimension r with 1 <= r <= n and support on the first r entries"""
    x = lift(x)
    t = single(x)
    c = ctx()
    if x.ndim != 1 or t is None or t.scal and False:
        raise Unsupported('count_nonzero')
    if not t.facs:
        return x.shape[0]
    if len(x.slots()) == 0:
        c.assumed.add('states and their restrictions are non-zero')
        return 1
    l = t.outs[0]
    f = list(t.facs)
    n = x.shape[0]
    vec = [q for q in f if len(q[2]) == 1 and q[0].kind == 'gen']
    if len(f) == 1 and f[0][2] == (l,) and (f[0][0].meta or {}).get('sorted'):
        at, E = f[0][0], lambda r: inj(n, 0, r)
    elif len(f) == 2 and len(vec) == 1 and any(q[0].kind == 'inj' and q[0].meta.get('rev') for q in f) and (vec[0][0].meta or {}).get('ascending'):
        at, E = vec[0][0], lambda r: inj(n, n-r, r)
    else:
        raise Unsupported('count_nonzero of an unsorted vector')
    def make():
        nm = 'rank(%s)' % at.name
        r = Dim.atom(nm, 1)
        c.cons.append(c.z[nm] <= zz(n))
        c.assumed.add('states and their restrictions are non-zero')
        return r
    r = memo(('rank', at.id), make)
    e = E(r)
    c.flags.setdefault('support', {})[(at.id, e.id)] = 0
    c.flags['rulegen'] = c.flags.get('rulegen', 0)+1
    return r


def s_qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False, check_finite=True):
    if pivoting:
        raise Unsupported('pivoted qr')
    if mode in ('full',):
        return f_qr_full(a)
    if mode != 'economic':
        raise Unsupported('qr mode')
    return f_qr(a)


def n_qr(a, mode='reduced'):
    if mode != 'reduced':
        raise Unsupported('qr mode')
    return f_qr(a)


def s_rq(a, overwrite_a=False, lwork=None, mode='full', check_finite=True):
    if mode != 'economic':
        raise Unsupported('full rq')
    return f_rq(a)


def s_svd(a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, lapack_driver='gesdd'):
    if not compute_uv:
        return f_svd(a, False)[1]
    return f_svd(a, full_matrices)


def n_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    return s_svd(a, full_matrices, compute_uv)


def s_eigh(a, *args, **k):
    if args or k:
        raise Unsupported('eigh options')
    return f_eigh(a)


def expm_multiply(A, B, *a, **k):
    if a or k:
        raise Unsupported('expm_multiply options')
    return sym.matmul(f_expm(A), B)


def n_matrix_power(a, n):
    r = lift(a)
    for _ in range(n-1):
        r = r@a
    return r


def np_save(fn, arr, **k):
    ctx().flags.setdefault('files', {})[str(fn) if str(fn).endswith('.npy') else str(fn)+'.npy'] = lift(arr).copy()


def np_load(fn, **k):
    return ctx().flags['files'][str(fn)].copy()


def np_isclose(a, b, *r, **k):
    return np_allclose(a, b)


def f_solve(M, b):
    """the solution of M x = b by its contract: recorded for the clauses that ask what it solves (c.solves)"""
    M, b = lift(M), lift(b)
    if M.ndim != 2 or b.ndim not in (1, 2) or not (same(M.shape[0], M.shape[1]) and same(M.shape[0], b.shape[0])):
        raise np.linalg.LinAlgError('shapes')
    c = ctx()
    c.assumed.add('linear systems that are solved are regular')
    c.flags['nfresh'] = c.flags.get('nfresh', 0)+1
    x = gen('solution%d' % c.flags['nfresh'], list(b.axes))
    c.flags.setdefault('solved', {})[single(x).facs[0][0].id] = (M, b, x)
    return x


IMPL = dict(arange=np_arange, sin=np_sin, cos=np_cos, exp=np_exp, array=np_array, asarray=np_asarray, stack=np_stack, concatenate=np_concatenate, split=np_split, transpose=np_transpose, swapaxes=np_swapaxes,
            max=np_max, amax=np_max, moveaxis=np_moveaxis, rollaxis=np_rollaxis, reshape=np_reshape, expand_dims=np_expand_dims, squeeze=np_squeeze, conj=np_conj, conjugate=np_conj,
            real=np_real, imag=np_imag, zeros=np_zeros, empty=np_zeros, ones=np_ones, full=np_full, identity=np_identity, eye=np_eye,
            zeros_like=np_zeros_like, empty_like=np_zeros_like, ones_like=np_ones_like, prod=np_prod, cumsum=np_cumsum, dot=np_dot, vdot=np_vdot, inner=np_inner,
            outer=np_outer, matmul=np_matmul, tensordot=np_tensordot, trace=np_trace, diagonal=np_diagonal, diag=np_diag, sum=np_sum, mean=np_mean,
            kron=np_kron, einsum=np_einsum, block=np_block, pad=np_pad, copy=np_copy, ravel=np_ravel, shape=np_shape, ndim=np_ndim, size=np_size,
            flip=np_flip, add=np_add, subtract=np_subtract, multiply=np_multiply, divide=np_divide, true_divide=np_divide, negative=np_negative,
            square=np_square, power=np_power, real_if_close=np_real_if_close, allclose=np_allclose, isclose=np_isclose, sqrt=np_sqrt, abs=np_abs,
            absolute=np_abs, count_nonzero=count_nonzero, sign=np_sign, save=np_save, load=np_load, flipud=lambda A: np_flip(A, 0),
            fliplr=lambda A: np_flip(A, 1), ascontiguousarray=lambda A, *a, **k: A, hstack=lambda l: np_concatenate(l, 1 if lift(l[0]).ndim > 1 else 0),
            vstack=lambda l: np_concatenate(l, 0), tile=lambda a, n: np.tile(np_asarray(a), n))
LINALG = dict(norm=np_norm, inv=f_inv, qr=n_qr, svd=n_svd, eigh=s_eigh, cholesky=f_cholesky, matrix_power=n_matrix_power, solve=f_solve)
SLINALG = dict(norm=np_norm, solve=lambda a, b, **k: f_solve(a, b), inv=lambda a, *r, **k: f_inv(a), qr=s_qr, rq=s_rq, svd=s_svd, eigh=s_eigh, expm=f_expm, null_space=f_null, polar=f_polar,
               block_diag=np_block_diag, cholesky=lambda a, lower=False, **k: f_cholesky(a) if lower else f_cholesky(a).conj().T)
SSPARSE = dict(expm=f_expm, expm_multiply=expm_multiply)


def wrap(f, impl, name):
    def g(*a, **k):
        if symbolic(a) or symbolic(k):
            if impl is None:
                raise Unsupported('numpy/scipy function %s on symbolic values' % name)
            ctx().flags.setdefault('np', set()).add(name)
            return impl(*a, **k)
        if ctx_alloc() and name in ('empty', 'empty_like'):
            r = f(*a, **k)
            if r.dtype == object:
                return r
            c = ctx()
            c.flags['nempty'] = c.flags.get('nempty', 0)+1
            return gen('uninitialised%d' % c.flags['nempty'], [(n,) for n in r.shape])
        if ctx_alloc() and name in ('zeros', 'empty', 'ones', 'zeros_like', 'full'):
            r = f(*a, **k)
            return lift(r) if r.size < 20000 else r
        return f(*a, **k)
    g.__name__ = name
    g.__wrapped__ = f
    return g


def ctx_alloc():
    c = Ctx.cur
    return c is not None and c.flags.get('alloc')


class NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SArr))


class ndarray(metaclass=NDMeta):
    pass


class ShimModule(types.ModuleType):
    def __init__(self, real, table, subs=None):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_subs'] = subs or {}
        self.__dict__['_cache'] = {}
        self.__dict__['__path__'] = []

    def __getattr__(self, name):
        if name in self._subs:
            return self._subs[name]
        if name in self._cache:
            return self._cache[name]
        if name == 'ndarray':
            return ndarray
        if name.startswith('__'):
            return getattr(self._real, name)
        if not hasattr(self._real, name) and name in ('complex_', 'float_', 'product', 'cumproduct', 'Inf', 'NaN'):
            v = {'complex_': np.complex128, 'float_': np.float64, 'product': np.prod, 'cumproduct': np.cumprod, 'Inf': np.inf, 'NaN': np.nan}[name]
        else:
            v = getattr(self._real, name)
        if callable(v) and not isinstance(v, type) and not isinstance(v, type(np.s_)):
            v = wrap(v, self._table.get(name), name)
        elif isinstance(v, types.ModuleType):
            v = ShimModule(v, {})
        self._cache[name] = v
        return v


class SymLinearOperator:
    """scipy's LinearOperator by its contract: products are those of the functions it was given"""

    def __init__(self, shape, matvec, rmatvec=None, dtype=None, **k):
        self.shape, self.dtype, self._mv, self._rmv = shape, dtype, matvec, rmatvec

    def matvec(self, x):
        return self._mv(x)

    def rmatvec(self, x):
        if self._rmv is None:
            raise NotImplementedError('rmatvec is not defined')
        return self._rmv(x)

    @property
    def H(self):
        return SymLinearOperator((self.shape[1], self.shape[0]), self._rmv, self._mv, self.dtype)

    def adjoint(self):
        return self.H

    def dot(self, x):
        return self._mv(x)

    __matmul__ = __mul__ = __call__ = dot


def fresh_real(*shape):
    """an arbitrary real array (random starting points; results of iterative solvers)"""
    c = ctx()
    c.flags['nfresh'] = c.flags.get('nfresh', 0)+1
    return gen('arbitrary%d' % c.flags['nfresh'], [(n,) for n in shape], real=True)


def r_randn(*shape):
    return fresh_real(*shape)


def r_size(*a, **k):
    size = k.get('size', a[-1] if a else None)
    return fresh_real(*(size if isinstance(size, (tuple, list)) else (size,)))


def o_root(fun, x0, args=(), **k):
    """scipy.optimize.root: some vector (that it is a root is not assumed here)"""
    class R: pass
    r = R()
    n, = lift(x0).shape
    if isinstance(n, Dim) and len(n.p) == 1:
        (mono, k), = n.p.items()
        slots = tuple(Dim({(a,): 1}) for a in mono)
        def part():
            c = ctx()
            c.flags['nfresh'] = c.flags.get('nfresh', 0)+1
            return gen('arbitrary%d' % c.flags['nfresh'], [slots], real=True)
        r.x = np_concatenate([part() for _ in range(k)]) if k > 1 else part()
    else:
        r.x = fresh_real(n)
    r.success = True
    return r


RANDOM = dict(randn=r_randn, rand=r_randn, random=r_size, normal=r_size, uniform=r_size, standard_normal=r_size)
np_random = ShimModule(np.random, RANDOM)
np_linalg = ShimModule(np.linalg, LINALG)
np_shim = ShimModule(np, IMPL, {'linalg': np_linalg, 'random': np_random})
sp_linalg = ShimModule(scipy.linalg, SLINALG)
sp_slinalg = ShimModule(scipy.sparse.linalg, SSPARSE, {'LinearOperator': SymLinearOperator})
sp_sparse = ShimModule(scipy.sparse, {}, {'linalg': sp_slinalg})
math_shim = ShimModule(math, dict(sqrt=np_sqrt, sin=np_sin, cos=np_cos, exp=np_exp))
sp_optimize = ShimModule(scipy.optimize, dict(root=o_root))
sp_shim = ShimModule(scipy, {}, {'linalg': sp_linalg, 'sparse': sp_sparse, 'optimize': sp_optimize})
