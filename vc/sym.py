"""Symbolic tensors: finite sums of tensor networks over atoms, with exact (mathematical) arithmetic.

A value of shape (n_1,..,n_k) is a list of axes, each axis a tuple of slots (C order, major first), and a list of terms
   coef * scalars * sum_{summed labels} prod factors     with one label per slot.
A label may occur any number of times (einsum semantics with hyperedges: diag, eye and ones need no atoms).
Slots of dimension one are dropped.
"""
import numpy as np
from dims import Dim, Ctx, ctx, Unsupported, PathEnd, dprod, dkey, same, divide, show, dmin, dmax, zz
import z3

TOL = 1e-9


# ------------------------------------------------------------------ atoms

class Atom:
    __slots__ = ('id', 'name', 'legs', 'real', 'herm', 'kind', 'data', 'meta')

    def __init__(self, name, legs, kind='gen', real=False, herm=None, data=None, meta=None):
        c = ctx()
        self.id = len(c.atoms)
        c.atoms.append(self)
        self.name, self.legs, self.kind, self.real, self.herm, self.data, self.meta = name, tuple(legs), kind, real, herm, data, meta

    def __repr__(self):
        return self.name


def fresh(dim):
    c = ctx()
    c.labels += 1
    c.ldim[c.labels] = dim
    return c.labels


def memo(key, make):
    c = ctx()
    if key not in c.memo:
        c.memo[key] = make()
    return c.memo[key]


def const_atom(data):
    """canonical constant: largest-first-entry normalised; returns (factor, atom or None)"""
    data = np.asarray(data)
    if data.size == 0:
        return 0, None
    m = np.abs(data).max()
    if m == 0:
        return 0, None
    flat = data.reshape(-1)
    i = int(np.argmax(np.abs(flat) > m*(1-1e-9)))
    f = flat[i]
    d = data/f
    d = np.round(d, 12)+0
    if d.ndim == 0:
        return complex(f), None
    if not np.iscomplexobj(d) or np.abs(d.imag).max() == 0:
        d = d.real.astype(float)
    else:
        d = d.astype(complex)
    key = ('const', d.shape, d.dtype.str, (d+0).tobytes())
    at = memo(key, lambda: Atom('c%d' % len(ctx().atoms), d.shape, 'const', real=not np.iscomplexobj(d), data=d))
    return complex(f), at


def inj(total, start, size):
    """E[k,a] = 1 iff k = start+a : an injection of size into total (leg 1 dropped when size is 1)"""
    if not any(isinstance(x, Dim) for x in (total, start, size)):
        d = np.eye(total)[:, start:start+size]
        return const_atom(d[:, 0] if size == 1 else d)[1]
    key = ('inj', dkey(total), dkey(start), dkey(size))
    legs = [total] if dkey(size) == 1 else [total, size]
    return memo(key, lambda: Atom('E(%s,%s,%s)' % (show(total), show(start), show(size)), legs, 'inj', real=True,
                                  meta=dict(total=total, start=start, size=size, full0=False, full1=True, rev=False)))


def revatom(n):
    if not isinstance(n, Dim):
        return const_atom(np.eye(n)[::-1])[1]
    key = ('rev', dkey(n))
    return memo(key, lambda: Atom('Rev(%s)' % show(n), [n, n], 'inj', real=True,
                                  meta=dict(total=n, start=0, size=n, full0=True, full1=True, rev=True)))


# ------------------------------------------------------------------ terms

class Term:
    __slots__ = ('coef', 'scal', 'facs', 'outs')

    def __init__(self, coef, scal, facs, outs):
        self.coef, self.scal, self.facs, self.outs = coef, scal, facs, outs

    def __repr__(self):
        return '%s%s %s -> %s' % (self.coef, dict(self.scal) if self.scal else '', ' '.join(
            '%s%s%s' % (a.name, '*' if c else '', list(l)) for a, c, l in self.facs), list(self.outs))


def relabel(t, keep=()):
    """fresh copies of every label"""
    m = {}
    c = ctx()

    def f(l):
        if l not in m:
            m[l] = fresh(c.ldim[l])
        return m[l]
    return Term(t.coef, dict(t.scal), [(a, cj, tuple(f(l) for l in ls)) for a, cj, ls in t.facs], tuple(f(l) for l in t.outs))


def conj_term(t):
    facs = []
    for a, cj, ls in t.facs:
        facs.append((a, (not cj) if not a.real else False, ls))
    sc = {}
    for (s, cj), p in t.scal.items():
        if not isinstance(s, tuple) and (s.meta or {}).get('phase'):
            sc[(s, False)] = -p         # unimodular
        else:
            sc[(s, (not cj) if not sreal(s) else False)] = p
    return Term(complex(t.coef).conjugate(), sc, facs, t.outs)


def sreal(s):
    return isinstance(s, tuple) or s.real       # ('dim', key) tuples are dimensions


class UF(dict):
    def find(self, x):
        while x in self:
            x = self[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self[b] = a


class Root:
    n = 0

    def __init__(self, name=None):
        Root.n += 1
        self.id = Root.n
        self.ver = 0
        self.name = name
        self.pending = None


def merge_scal(a, b):
    r = dict(a)
    for k, p in b.items():
        r[k] = r.get(k, 0)+p
        if r[k] and k[0].__class__ is Atom and k[0].meta and k[0].meta.get('sign'):
            r[k] %= 2
        if r[k] == 0:
            del r[k]
    return r


def dim_monos(d):
    """a dimension as scalar monomials: list of (coef, scal)"""
    if not isinstance(d, Dim):
        return [(d, {})]
    out = []
    for m, c in d.p.items():
        s = {}
        for a in m:
            k = (('dim', a), False)
            s[k] = s.get(k, 0)+1
        out.append((c, s))
    return out


# ------------------------------------------------------------------ normalisation

class Rule:
    """pattern: list of (atom, conj, vars); internal: vars that must be summed inside the pattern only;
    rhs: list of (coef, scal, facs with vars (new names allowed), merges [(var,var)], dims of new names)"""

    def __init__(self, name, pattern, internal, rhs):
        self.name, self.pattern, self.internal, self.rhs = name, pattern, set(internal), rhs
        self.count = {}
        for a, c, vs in pattern:
            for v in vs:
                self.count[v] = self.count.get(v, 0)+1

    def conj(self):
        pat = [(a, (not c) if not a.real else False, vs) for a, c, vs in self.pattern]
        rhs = []
        for co, sc, fs, mg, dm in self.rhs:
            sc2 = {(s, (not cj) if not sreal(s) else False): p for (s, cj), p in sc.items()}
            rhs.append((complex(co).conjugate(), sc2, [(a, (not c) if not a.real else False, vs) for a, c, vs in fs], mg, dm))
        return Rule(self.name+'*', pat, self.internal, rhs)


def add_rule(r, also_conj=True):
    c = ctx()
    rs = [r]
    if also_conj:
        q = r.conj()
        if [(a.id, cj) for a, cj, _ in q.pattern] != [(a.id, cj) for a, cj, _ in r.pattern]:
            rs.append(q)
    for r in rs:
        # anchored at each distinct pattern atom so that any of them finds it
        c.rules.setdefault(r.pattern[0][0].id, []).append(r)
    c.flags['rulegen'] = c.flags.get('rulegen', 0)+1


def match(rule, facs):
    """yield (indices, binding)"""
    pat = rule.pattern
    by = {}
    for i, (a, cj, ls) in enumerate(facs):
        by.setdefault((a.id, bool(cj)), []).append(i)

    def rec(k, used, b):
        if k == len(pat):
            yield list(used), dict(b)
            return
        a, cj, vs = pat[k]
        for i in by.get((a.id, bool(cj)), ()):
            if i in used:
                continue
            ls = facs[i][2]
            nb = dict(b)
            ok = True
            for v, l in zip(vs, ls):
                if nb.setdefault(v, l) != l:
                    ok = False
                    break
            if ok:
                yield from rec(k+1, used+[i], nb)
    yield from rec(0, [], {})


def counts(t):
    n = {}
    for a, cj, ls in t.facs:
        for l in ls:
            n[l] = n.get(l, 0)+1
    return n


def apply_uf(uf, t):
    if not uf:
        return t
    f = uf.find
    return Term(t.coef, t.scal, [(a, c, tuple(f(l) for l in ls)) for a, c, ls in t.facs], tuple(f(l) for l in t.outs))


def rewrite(t, remove, addf=(), merges=(), consumed=(), coef=1, scal=None):
    """remove factors, add others, unify labels; labels in `consumed` were summed away by the rule; any other label of a
    removed factor that nothing mentions afterwards is still summed and leaves its dimension.  Returns a list of terms."""
    rem = set(remove)
    labs = {l for k in rem for l in t.facs[k][2]}
    uf = UF()
    for x, y in merges:
        uf.union(x, y)
        labs.update((x, y))
    u = apply_uf(uf, Term(t.coef*coef, merge_scal(t.scal, scal) if scal else t.scal,
                          [f for k, f in enumerate(t.facs) if k not in rem]+list(addf), t.outs))
    have = set(u.outs)
    for a, c, ls in u.facs:
        have.update(ls)
    gone = {uf.find(l) for l in labs if l not in consumed}-have
    ts = [u]
    for l in gone:
        ts = [Term(x.coef*co, merge_scal(x.scal, sc), x.facs, x.outs) for x in ts for co, sc in dim_monos(ctx().ldim[l])]
    return ts


def inj_step(t):
    """one simplification with partial injections; returns None or a list of terms"""
    c = ctx()
    n = counts(t)
    outs = set(t.outs)
    I = [i for i, f in enumerate(t.facs) if f[0].kind == 'inj']
    for x, i in enumerate(I):
        a, _, la = t.facs[i]
        ma = a.meta
        # totally defined injections with a dangling leg
        if len(la) == 2:
            if n[la[0]] == 1 and la[0] not in outs and ma['full1']:
                return rewrite(t, [i], consumed=[la[0]])
            if n[la[1]] == 1 and la[1] not in outs and (ma['full0'] or same(ma['size'], ma['total'])):
                return rewrite(t, [i], consumed=[la[1]])
            if not ma['rev'] and same(ma['size'], ma['total']):
                return rewrite(t, [i], merges=[(la[0], la[1])])
        elif n[la[0]] == 1 and la[0] not in outs:
            return rewrite(t, [i], consumed=[la[0]])
        # support: a factor s[k] that vanishes outside the range of a
        if len(la) == 2 and n[la[1]] == 1 and la[1] not in outs:
            sup = c.flags.get('support', {})
            for j, (b, cj, lb) in enumerate(t.facs):
                if j != i and (b.id, a.id) in sup and lb[sup[(b.id, a.id)]] == la[0]:
                    return rewrite(t, [i], consumed=[la[1]])
        # E(m,0,r)[i,j] E(k,0,r)[l,j] s[l] with s supported on the first r entries: E(m,0,k)[i,l] s[l]
        if len(la) == 2 and n[la[1]] == 2 and la[1] not in outs and not ma['rev']:
            sup = c.flags.get('support', {})
            for j in I:
                b, _, lb = t.facs[j]
                mb = b.meta
                if j == i or b.id == a.id or len(lb) != 2 or lb[1] != la[1] or mb['rev'] or not same(mb['start'], 0) or not same(ma['start'], 0):
                    continue
                if any((f[0].id, b.id) in sup and f[2][sup[(f[0].id, b.id)]] == lb[0] for f in t.facs) and c.entails(zz(mb['total']) <= zz(ma['total'])):
                    return rewrite(t, [i, j], [(inj(ma['total'], 0, mb['total']), False, (la[0], lb[0]))], consumed=[la[1]])
        for j in I[x+1:]:
            b, _, lb = t.facs[j]
            mb = b.meta
            if a.id == b.id:
                if len(la) == 1:
                    if la[0] == lb[0]:
                        return rewrite(t, [j])
                elif la[0] == lb[0] or la[1] == lb[1]:
                    return rewrite(t, [j], merges=[(la[0], lb[0]), (la[1], lb[1])])
                if not (len(la) == 2 and ma['rev']):
                    continue
            if la[0] == lb[0] and not ma['rev'] and not mb['rev'] and same(ma['total'], mb['total']):
                e1 = zz(ma['start'])+zz(ma['size'])
                e2 = zz(mb['start'])+zz(mb['size'])
                if c.entails(z3.Or(e1 <= zz(mb['start']), e2 <= zz(ma['start']))):
                    return []
                # one range inside the other
                for (q, lq, mq, qi, p, lp, mp, eq, ep) in ((a, la, ma, i, b, lb, mb, e1, e2), (b, lb, mb, j, a, la, ma, e2, e1)):
                    if len(lp) == 2 and c.entails(z3.And(zz(mp['start']) <= zz(mq['start']), eq <= ep)):
                        e = (inj(mp['size'], mq['start']-mp['start'], mq['size']), False, (lp[1],)+tuple(lq[1:]))
                        if n[la[0]] == 2 and la[0] not in outs:
                            return rewrite(t, [i, j], [e], consumed=[la[0]])
                        return rewrite(t, [j if qi == i else i], [e])
            # composition through an internal label
            for (p, lp, q, lq, pi, qi) in ((a, la, b, lb, i, j), (b, lb, a, la, j, i)):
                if len(lp) == 2 and lp[1] == lq[0] and n[lp[1]] == 2 and lp[1] not in outs:
                    mp, mq = p.meta, q.meta
                    if mp['rev'] and mq['rev']:
                        return rewrite(t, [pi, qi], merges=[(lp[0], lq[1])], consumed=[lp[1]])
                    if not mp['rev'] and not mq['rev']:
                        e = inj(mp['total'], mp['start']+mq['start'], mq['size'])
                        return rewrite(t, [pi, qi], [(e, False, (lp[0],)+tuple(lq[1:]))], consumed=[lp[1]])
                    if mp['rev'] and not mq['rev']:
                        if len(lq) == 1:
                            e = inj(mp['total'], mp['total']-mq['start']-1, 1)
                            return rewrite(t, [pi, qi], [(e, False, (lp[0],))], consumed=[lp[1]])
                        # Rev E(start,size) = E(total-start-size,size) Rev(size)
                        e = inj(mp['total'], mp['total']-mq['start']-mq['size'], mq['size'])
                        k = fresh(mq['size'])
                        return rewrite(t, [pi, qi], [(e, False, (lp[0], k)), (revatom(mq['size']), False, (k, lq[1]))], consumed=[lp[1]])
            # Rev read through its first leg (it is symmetric)
            for (p, lp, q, lq, pi, qi) in ((a, la, b, lb, i, j), (b, lb, a, la, j, i)):
                if p.meta['rev'] and lp[0] == lq[0] and n[lp[0]] == 2 and lp[0] not in outs and not q.meta['rev']:
                    mp, mq = p.meta, q.meta
                    if len(lq) == 1:
                        e = inj(mp['total'], mp['total']-mq['start']-1, 1)
                        return rewrite(t, [pi, qi], [(e, False, (lp[1],))], consumed=[lp[0]])
                    e = inj(mp['total'], mp['total']-mq['start']-mq['size'], mq['size'])
                    k = fresh(mq['size'])
                    return rewrite(t, [pi, qi], [(e, False, (lp[1], k)), (revatom(mq['size']), False, (k, lq[1]))], consumed=[lp[0]])
    # one fixed index shared by several factors: each gets its own
    for i in I:
        a, _, la = t.facs[i]
        l = la[0]
        if len(la) == 1 and n[l]+(l in outs) > 2:
            facs = []
            for j, (b, cj, lb) in enumerate(t.facs):
                lb = list(lb)
                for q in range(len(lb)):
                    if j != i and lb[q] == l:
                        lb[q] = fresh(c.ldim[l])
                        facs.append((a, False, (lb[q],)))
                if j != i:
                    facs.append((b, cj, tuple(lb)))
            if l in outs:
                facs.append((a, False, (l,)))
            return [Term(t.coef, t.scal, facs, t.outs)]
    return None


def iso_step(t):
    """merged axes: iso[k; l1, l2, ..] is a bijection between k and the tuples (l1, l2, ..)"""
    n = counts(t)
    outs = set(t.outs)
    I = [i for i, f in enumerate(t.facs) if f[0].kind == 'iso']
    for x, i in enumerate(I):
        a, _, la = t.facs[i]
        if n[la[0]] == 1 and la[0] not in outs:
            return rewrite(t, [i], consumed=[la[0]])
        for j in I[x+1:]:
            b, _, lb = t.facs[j]
            if a.id != b.id:
                continue
            if la[0] == lb[0] or la[1:] == lb[1:]:
                return rewrite(t, [j], merges=list(zip(la, lb)))
    return None


def factor_const(d):
    """split a constant into factors over disjoint leg sets: list of (legs, array)"""
    n = d.ndim
    if n <= 1 or n > 8:
        return [(tuple(range(n)), d)]
    import itertools
    for r in range(1, n//2+1):
        for S in itertools.combinations(range(n), r):
            if 2*r == n and 0 not in S:
                continue
            R = tuple(i for i in range(n) if i not in S)
            M = np.transpose(d, S+R).reshape(int(np.prod([d.shape[i] for i in S])), -1)
            k = np.unravel_index(np.argmax(np.abs(M)), M.shape)
            u, v = M[:, k[1]], M[k[0], :]/M[k]
            if np.abs(M-np.outer(u, v)).max() < 1e-11*np.abs(M).max():
                A = factor_const(u.reshape([d.shape[i] for i in S]))
                B = factor_const(v.reshape([d.shape[i] for i in R]))
                return [(tuple(S[i] for i in l), x) for l, x in A]+[(tuple(R[i] for i in l), x) for l, x in B]
    return [(tuple(range(n)), d)]


def const_parts(at):
    """memoised structure of a constant: (coef, [(legs, atom)], [(leg, leg) copies])"""
    def make():
        co, out, mg = 1, [], []
        for legs, x in factor_const(at.data):
            legs = list(legs)
            # copy legs: zero off the diagonal of two legs
            cut = False
            done = False
            while not done:
                done = True
                for p in range(x.ndim):
                    for q in range(p+1, x.ndim):
                        if x.shape[p] != x.shape[q]:
                            continue
                        y = np.moveaxis(x, (p, q), (0, 1))
                        off = y[~np.eye(len(y), dtype=bool)]
                        if np.abs(off).max() < 1e-12*np.abs(x).max():
                            mg.append((legs[p], legs[q]))
                            x = np.moveaxis(np.array([y[k, k] for k in range(len(y))]), 0, -1)
                            legs = [l for k, l in enumerate(legs) if k not in (p, q)]+[legs[p]]
                            done, cut = False, True
                            break
                    if not done:
                        break
            for l2, y in (factor_const(x) if cut else [(tuple(range(x.ndim)), x)]):
                if y.ndim == 1 and np.abs(y-y[0]).max() < 1e-12*max(abs(y[0]), 1e-300):
                    co *= y[0]
                    continue
                f, a = const_atom(y)
                co *= f
                out.append((tuple(legs[k] for k in l2), a))
        return co, out, mg
    return memo(('parts', at.id), make)


def const_step(t):
    """None or a list of terms"""
    n = counts(t)
    outs = set(t.outs)
    C = [i for i, f in enumerate(t.facs) if f[0].kind == 'const']
    for i in C:
        a, cj, ls = t.facs[i]
        if cj:
            f, b = const_atom(a.data.conj())
            return rewrite(t, [i], [(b, False, ls)], coef=f)
        d = a.data
        inner = [l for l in set(ls) if l not in outs and n[l] == list(ls).count(l)]
        if len(set(ls)) < len(ls) or inner:
            u = list(dict.fromkeys(ls))
            keep = [l for l in u if l not in inner]
            m = {l: k for k, l in enumerate(u)}
            r = np.einsum(d, [m[l] for l in ls], [m[l] for l in keep])
            f, b = const_atom(r)
            if f == 0 or np.abs(r).max() < 1e-12:
                return []
            return rewrite(t, [i], [(b, False, tuple(keep))] if b is not None else [], consumed=inner, coef=f)
        co, parts, mg = const_parts(a)
        if not (len(parts) == 1 and parts[0][1] is a):
            return rewrite(t, [i], [(b, False, tuple(ls[k] for k in legs)) for legs, b in parts], merges=[(ls[p], ls[q]) for p, q in mg], coef=co)
    for x, i in enumerate(C):
        for j in C[x+1:]:
            a, _, la = t.facs[i]
            b, _, lb = t.facs[j]
            sh = set(la) & set(lb)
            if not sh:
                continue
            allu = list(dict.fromkeys(la+lb))
            inner = [l for l in sh if l not in outs and n[l] == 2]
            keep = [l for l in allu if l not in inner]
            if len(keep) > 8 or np.prod([ctx().ldim[l] for l in keep]) > 5000:
                continue
            m = {l: k for k, l in enumerate(allu)}
            r = np.einsum(a.data, [m[l] for l in la], b.data, [m[l] for l in lb], [m[l] for l in keep])
            f, at = const_atom(r)
            if f == 0 or np.abs(r).max() < 1e-12:
                return []
            return rewrite(t, [i, j], [(at, False, tuple(keep))] if at is not None else [], consumed=inner, coef=f)
    return None


def expand_rhs(t, idx, b, rule):
    out = []
    for co, sc, fs, mg, dm in rule.rhs:
        bb = dict(b)
        for v, d in dm.items():
            bb[v] = fresh(d)
        out += rewrite(t, idx, [(a, c, tuple(bb[v] for v in vs)) for a, c, vs in fs], [(bb[v], bb[w]) for v, w in mg],
                       [b[v] for v in rule.internal], co, sc)
    return out


def refresh_rules():
    """selectors inside rule patterns that have become identities on this path are merged away, as they are in terms"""
    c = ctx()
    for lst in list(c.rules.values()):
        for r in list(lst):
            while True:
                for k, (a, cj, vs) in enumerate(r.pattern):
                    if a.kind == 'inj' and len(vs) == 2 and not a.meta['rev'] and not all(v not in r.internal for v in vs) and same(a.meta['size'], a.meta['total']):
                        break
                else:
                    break
                x, y = (vs[0], vs[1]) if vs[0] in r.internal else (vs[1], vs[0])     # x goes, y stays
                f = lambda q: y if q == x else q
                pat = [(a, cj, tuple(map(f, v))) for j, (a, cj, v) in enumerate(r.pattern) if j != k]
                rhs = [(co, sc, [(a, cj, tuple(map(f, v))) for a, cj, v in fs], [(f(p), f(q)) for p, q in mg], dm) for co, sc, fs, mg, dm in r.rhs]
                if r in lst:
                    lst.remove(r)
                r = Rule(r.name, pat, {f(v) for v in r.internal if v != x}, rhs)
                c.rules.setdefault(pat[0][0].id, []).append(r)


def simplify_term(t):
    """list of fully simplified terms"""
    c = ctx()
    if c.flags.get('rulecons') != len(c.cons):
        c.flags['rulecons'] = len(c.cons)
        refresh_rules()
    work, done = [t], []
    guard = 0
    used = c.flags.setdefault('used', {})
    while work:
        guard += 1
        if guard > 4000:
            raise Unsupported('simplification does not settle')
        t = work.pop()
        if abs(t.coef) < 1e-13:
            continue
        # hermitian and real atoms
        ch = False
        roots = c.flags.get('roots')
        while roots and any(not isinstance(s, tuple) and s.id in roots for s, _ in t.scal):
            sc = {}
            for (s, cj), p in t.scal.items():
                q = None if isinstance(s, tuple) else roots.get(s.id)
                sc = merge_scal(sc, {(s, cj): p} if q is None else {(q, False): 2*p})
            t = Term(t.coef, sc, t.facs, t.outs)
        fs = []
        for a, cj, ls in t.facs:
            if cj and a.real:
                cj, ch = False, True
            if cj and a.herm is not None:
                ls, cj, ch = tuple(ls[k] for k in a.herm), False, True
            fs.append((a, cj, ls))
        if ch:
            t = Term(t.coef, t.scal, fs, t.outs)
        u = inj_step(t)
        if u is None:
            u = iso_step(t)
        if u is None:
            u = const_step(t)
        if u is not None:
            work.extend(u)
            continue
        n = None
        hit = False
        for a, cj, ls in t.facs:
            for r in c.rules.get(a.id, ()):
                for idx, b in match(r, t.facs):
                    if n is None:
                        n = counts(t)
                        outs = set(t.outs)
                    if all(b[v] not in outs and n[b[v]] == r.count[v] for v in r.internal):
                        used[r.name] = used.get(r.name, 0)+1
                        work.extend(expand_rhs(t, idx, b, r))
                        hit = True
                        break
                if hit:
                    break
            if hit:
                break
        if hit:
            continue
        if c.closed:
            u = closed_step(t)
            if u is not None:
                work.extend(u)
                continue
        done.append(t)
    return done


def components(t):
    """closed connected components (no output label): list of factor index lists"""
    outs = set(t.outs)
    par = list(range(len(t.facs)))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    lab = {}
    for i, (a, cj, ls) in enumerate(t.facs):
        for l in ls:
            if l in lab:
                par[find(i)] = find(lab[l])
            else:
                lab[l] = i
    groups = {}
    for i in range(len(t.facs)):
        groups.setdefault(find(i), []).append(i)
    return [g for g in groups.values() if not any(l in outs for i in g for l in t.facs[i][2])]


def closed_step(t):
    c = ctx()
    for g in components(t):
        sub = Term(1, {}, [t.facs[i] for i in g], ())
        k, _ = canon(sub)
        if k in c.closed:
            co, sc = c.closed[k]
            return [Term(t.coef*co, merge_scal(t.scal, sc), [f for i, f in enumerate(t.facs) if i not in g], t.outs)]
        kc, _ = canon(conj_term(sub))
        if kc in c.closed:
            co, sc = c.closed[kc]
            q = conj_term(Term(co, sc, [], ()))
            return [Term(t.coef*q.coef, merge_scal(t.scal, q.scal), [f for i, f in enumerate(t.facs) if i not in g], t.outs)]
    return None


# ------------------------------------------------------------------ canonical form

def skey(scal):
    return tuple(sorted(((s if isinstance(s, tuple) else ('s', s.id)), cj, p) for (s, cj), p in scal.items()))


def canon(t):
    """(key, term): key identifies the network up to renaming of summed labels and order of factors"""
    nf = len(t.facs)
    labs = {}
    for i, (a, cj, ls) in enumerate(t.facs):
        for p, l in enumerate(ls):
            labs.setdefault(l, []).append((i, p))
    for l in t.outs:
        labs.setdefault(l, [])
    outpos = {}
    for k, l in enumerate(t.outs):
        outpos.setdefault(l, []).append(k)
    c = ctx()
    lcol = {l: hash((1, tuple(outpos.get(l, ())))) for l in labs}
    fcol = [hash((2, a.id, int(cj))) for a, cj, ls in t.facs]

    def refine(lcol, fcol):
        while True:
            n0 = len(set(fcol))+len(set(lcol.values()))
            nf_ = [hash((fcol[i],)+tuple(lcol[l] for l in t.facs[i][2])) for i in range(nf)]
            nl = {l: hash((lcol[l],)+tuple(sorted((nf_[i], p) for i, p in occ))) for l, occ in labs.items()}
            if len(set(nf_))+len(set(nl.values())) == n0:
                return nl, nf_
            lcol, fcol = nl, nf_

    def search(lcol, fcol, depth):
        lcol, fcol = refine(lcol, fcol)
        seen = {}
        for i, x in enumerate(fcol):
            seen.setdefault(x, []).append(i)
        tie = [(x, g) for x, g in seen.items() if len(g) > 1]
        if tie and depth < 12:
            x, g = min(tie, key=lambda z: (len(z[1]), z[0]))
            best = None
            for i in g:
                f2 = list(fcol)
                f2[i] = hash((fcol[i], 77))
                r = search(dict(lcol), f2, depth+1)
                if best is None or r[0] < best[0]:
                    best = r
                if len(g) > 4 and depth > 3:
                    break
            return best
        order = sorted(range(nf), key=lambda i: fcol[i])
        num = {}
        key = []
        for l in t.outs:
            if l not in num:
                num[l] = len(num)
        ok = tuple(num[l] for l in t.outs)
        # factor order must not depend on hash ties
        for i in order:
            a, cj, ls = t.facs[i]
            row = []
            for l in ls:
                if l not in num:
                    num[l] = len(num)
                row.append(num[l])
            key.append((a.id, int(cj), tuple(row)))
        return (ok, tuple(key)), order
    k, order = search(lcol, fcol, 0)
    return (skey(t.scal),)+k, Term(t.coef, t.scal, [t.facs[i] for i in order], t.outs)


def dense_const(nf):
    """terms whose factors are all constants of concrete dimensions, summed entry by entry for every scalar monomial; the
    other terms are returned as they are"""
    c = ctx()
    acc, rest, rep = {}, {}, {}
    for k, t in nf.items():
        labs = list(dict.fromkeys([l for _, _, ls in t.facs for l in ls]+list(t.outs)))
        if any(a.kind != 'const' for a, _, _ in t.facs) or any(isinstance(c.ldim[l], Dim) for l in labs) or len(labs) > 40 \
                or np.prod([c.ldim[l] for l in t.outs]+[1]) > 1 << 20:
            rest[k] = t
            continue
        m = {l: i for i, l in enumerate(labs)}
        ops = []
        for a, cj, ls in t.facs:
            ops += [a.data.conj() if cj else a.data, [m[l] for l in ls]]
        uo = list(dict.fromkeys(t.outs))
        for l in uo:
            if not any(l in ls for _, _, ls in t.facs):
                ops += [np.ones(c.ldim[l]), [m[l]]]
        r = np.asarray(np.einsum(*ops, [m[l] for l in uo], optimize=len(ops) > 6) if ops else 1.0)*complex(t.coef)
        full = np.zeros([c.ldim[l] for l in t.outs], complex)
        if len(uo) == len(t.outs):
            full = r
        else:       # equal outputs: the diagonal
            idx = np.indices([c.ldim[l] for l in uo]).reshape(len(uo), -1)
            full[tuple(idx[uo.index(l)] for l in t.outs)] = r.reshape(-1)
        s = skey(t.scal)
        if s in acc:
            acc[s] = acc[s]+full
        else:
            acc[s] = full
            rep[s] = t
    for s, x in acc.items():
        if np.abs(x).max() > TOL:
            rest[('dense', s)] = rep[s]
    return rest


def normal(terms, outdims=()):
    c = ctx()
    acc = {}
    zeroed = c.flags.get('zeroed')
    for t in terms:
        if zeroed and any(s in zeroed for s, _ in t.scal):
            continue
        for u in simplify_term(t):
            if zeroed and any(s in zeroed for s, _ in u.scal):
                continue
            k, u = canon(u)
            if k in acc:
                acc[k].coef = acc[k].coef+u.coef
            else:
                acc[k] = Term(u.coef, u.scal, u.facs, u.outs)
    return {k: t for k, t in acc.items() if abs(t.coef) > TOL}


def slice_atom(at, vals):
    """the atom with some legs fixed to values: vals = {leg: value}"""
    base, have = (at.meta or {}).get('sliced') or (at, {})
    keep = [i for i in range(len(base.legs)) if i not in have]
    new = dict(have)
    for i, v in vals.items():
        new[keep[i]] = v
    rest = [base.legs[i] for i in range(len(base.legs)) if i not in new]
    k = tuple(sorted(new.items()))
    real = base.real
    return memo(('slice', base.id, k), lambda: Atom('%s%s' % (base.name, k), rest, 'gen', real, meta=dict(sliced=(base, new))))


def expand_concrete(nf, cap=400000):
    """write every label of concrete dimension out: identities between constants become sums of equal monomials"""
    import itertools
    c = ctx()
    acc = {}
    total = 0
    for t in nf.values():
        labs = []
        for a, cj, ls in t.facs:
            for l in ls:
                if l not in labs and not isinstance(c.ldim[l], Dim):
                    labs.append(l)
        for l in t.outs:
            if l not in labs and not isinstance(c.ldim[l], Dim):
                labs.append(l)
        n = 1
        for l in labs:
            n *= c.ldim[l]
        total += n
        if total > cap or not labs:
            if not labs:
                k, u = canon(t)
                k = (k, ())
                acc[k] = Term(acc[k].coef+u.coef, u.scal, u.facs, u.outs) if k in acc else u
                continue
            return nf
        for vals in itertools.product(*[range(c.ldim[l]) for l in labs]):
            v = dict(zip(labs, vals))
            coef, facs, scal = complex(t.coef), [], dict(t.scal)
            for a, cj, ls in t.facs:
                fix = {i: v[l] for i, l in enumerate(ls) if l in v}
                if not fix:
                    facs.append((a, cj, ls))
                    continue
                if a.kind == 'const':
                    z = a.data[tuple(fix[i] for i in range(len(ls)))]
                    coef *= complex(z).conjugate() if cj else complex(z)
                    if abs(coef) < 1e-13:
                        break
                    continue
                if a.kind != 'gen' or a.herm is not None:
                    return nf
                b = slice_atom(a, fix)
                rest = tuple(l for l in ls if l not in v)
                facs.append((b, cj and not b.real, rest))
            if abs(coef) < 1e-13:
                continue
            u = Term(coef, scal, facs, tuple(l for l in t.outs if l not in v))
            k, u = canon(u)
            k = (k, tuple(v[l] if l in v else None for l in t.outs))
            if k in acc:
                acc[k].coef += u.coef
            else:
                acc[k] = Term(u.coef, u.scal, u.facs, u.outs)
    return {k: t for k, t in acc.items() if abs(t.coef) > TOL}


def block_zero(d, depth=0):
    """residual d (SArr): zero on every block of a partition of an output slot whose parts its injections name"""
    nf = d.nf()
    if not nf:
        return {}
    if depth > 4:
        return nf
    c = ctx()
    nd = len(d.slots())
    flat = SArr([(x,) for x in d.slots()], d.terms)
    for pos in range(nd):
        total = flat.shape[pos]
        cuts = []
        for t in nf.values():
            l = t.outs[pos]
            for a, cj, ls in t.facs:
                if a.kind == 'inj' and not a.meta['rev'] and ls[0] == l and not same(a.meta['size'], total):
                    for x in (a.meta['start'], a.meta['start']+a.meta['size']):
                        if not same(x, 0) and not same(x, total) and not any(same(x, y) for y in cuts):
                            cuts.append(x)
        if not cuts:
            continue
        # sort the cuts, if they are totally ordered on this path
        import functools
        ok = [True]

        def cmp(x, y):
            if c.entails(zz(x) <= zz(y)):
                return -1
            if c.entails(zz(y) <= zz(x)):
                return 1
            ok[0] = False
            return 0
        cuts.sort(key=functools.cmp_to_key(cmp))
        if not ok[0]:
            continue
        pts = [0]+cuts+[total]
        for a, b in zip(pts, pts[1:]):
            ix = [slice(None)]*nd
            ix[pos] = slice(a, b)
            r = block_zero(take(flat, pos, a, b-a, False), depth+1)
            if r:
                return r
        return {}
    return nf


# ------------------------------------------------------------------ arrays

def nodim1(slots):
    return tuple(s for s in slots if not (not isinstance(s, Dim) and s == 1))


class DT:
    """stand-in dtype: values are complex numbers"""
    kind = 'c'
    name = 'complex128'
    char = 'D'
    itemsize = 16
    type = complex

    def __eq__(self, o):
        return isinstance(o, DT) or o in (complex, np.complex128, 'complex128')

    def __hash__(self):
        return 1


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 1000
    part = False        # a proper part of its buffer

    def __init__(self, axes, terms, root=None, ver=None, normalised=False, real=False):
        self.axes = [nodim1(a) for a in axes]
        self.terms = terms
        self.root = root or Root()
        self.ver = self.root.ver if ver is None else ver
        self._nf = None
        self.realdt = real

    # -- views and frames
    def chk(self):
        if self.ver != self.root.ver:
            raise Unsupported('read through a view of a buffer written in place')
        if self.root.pending is not None:
            raise Unsupported('read of a buffer written through a view')
        return self

    def view(self, axes, terms):
        r = SArr(axes, terms, self.root, self.ver)
        r.realdt = self.realdt
        return r

    @property
    def shape(self):
        return tuple(dprod(a) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        return dprod(self.shape)

    @property
    def dtype(self):
        return np.dtype(float) if self.realdt else np.dtype(complex)

    @property
    def nbytes(self):
        raise Unsupported('nbytes')

    def slots(self):
        return [s for a in self.axes for s in a]

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, Dim):
            raise Unsupported('len() of a symbolic axis')
        return d

    def __array__(self, *a, **k):
        raise Unsupported('symbolic array converted to a numpy array')

    def __float__(self):
        raise Unsupported('symbolic scalar to float')

    def __complex__(self):
        raise Unsupported('symbolic scalar to complex')

    def __int__(self):
        raise Unsupported('symbolic scalar to int')
    __index__ = __int__

    def __bool__(self):
        if self.axes and any(isinstance(s, Dim) or s != 1 for s in self.shape):
            raise ValueError('truth value of an array')
        return ctx().choose('truth of a symbolic scalar')

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SArr(%s; %s)' % (', '.join('x'.join(show(s) for s in a) if a else '1' for a in self.axes), ' + '.join(map(repr, self.terms)))

    # -- normal form
    def nf(self):
        self.chk()
        g = (ctx().flags.get('rulegen', 0), len(ctx().closed), len(ctx().flags.get('zeroed', ())))
        if self._nf is None or self._nf[0] != g:
            self._nf = (g, normal(self.terms))
        return self._nf[1]

    def simp(self):
        n = self.nf()
        self.terms = list(n.values())
        return self

    def key(self):
        n = self.nf()
        return (tuple(tuple(dkey(s) for s in a) for a in self.axes),
                tuple(sorted((k, rnd(t.coef)) for k, t in n.items())))

    def netkey(self):
        n = self.nf()
        return (tuple(dkey(s) for s in self.slots()), tuple(sorted((k, rnd(t.coef)) for k, t in n.items())))

    def number(self):
        """the complex number this is, if it is a plain number"""
        if self.slots():
            return None
        n = self.nf()
        z = 0
        for k, t in n.items():
            if t.facs or t.scal:
                return None
            z += t.coef
        return complex(z)

    # -- elementary structure
    def transpose(self, *perm):
        if not perm or (len(perm) == 1 and perm[0] is None):
            perm = tuple(reversed(range(self.ndim)))
        elif len(perm) == 1 and isinstance(perm[0], (tuple, list, np.ndarray)):
            perm = tuple(perm[0])
        perm = [int(p) % self.ndim for p in perm]
        if sorted(perm) != list(range(self.ndim)):
            raise ValueError('axes don\'t match array')
        pos, k = [], 0
        for a in self.axes:
            pos.append(range(k, k+len(a)))
            k += len(a)
        idx = [i for p in perm for i in pos[p]]
        self.chk()
        return self.view([self.axes[p] for p in perm], [Term(t.coef, t.scal, t.facs, tuple(t.outs[i] for i in idx)) for t in self.terms])

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and not isinstance(shape[0], (int, Dim, np.integer)):
            shape = tuple(shape[0])
        shape = [int(s) if isinstance(s, np.integer) else s for s in shape]
        self.chk()
        if order == 'F':
            return self.transpose().reshape(*shape[::-1]).transpose()
        if order not in ('C', 'A', None):
            raise Unsupported('reshape order %r' % order)
        tot = self.size
        if any((not isinstance(s, Dim)) and s == -1 for s in shape):
            k = [i for i, s in enumerate(shape) if (not isinstance(s, Dim)) and s == -1]
            if len(k) > 1:
                raise ValueError('can only specify one unknown dimension')
            rest = dprod([s for i, s in enumerate(shape) if i != k[0]])
            q = divide(tot, rest)
            if q is None:
                q = self.guess_minus1(shape, k[0])
            shape[k[0]] = q
        if not (dprod(shape) == tot):
            raise ValueError('cannot reshape array of size %s into shape %s' % (show(tot), shape))
        src = self
        slots = list(src.slots())
        axes, i = [], 0
        splits = []          # (slot position, dims) to apply
        for t in shape:
            cur, need = [], t
            while not (not isinstance(need, Dim) and need == 1):
                if i >= len(slots):
                    if same(need, 1):
                        break
                    raise Unsupported('reshape grouping')
                s = slots[i]
                if same(s, need):
                    cur.append(s)
                    i += 1
                    need = 1
                    break
                q = divide(need, s)
                if q is not None:
                    cur.append(s)
                    i += 1
                    need = q
                    continue
                q = divide(s, need)
                if q is not None:
                    # split the slot into (need, q)
                    src, slots = src.split_slot(i, [need, q]), None
                    slots = list(src.slots())
                    cur.append(need)
                    i += 1
                    need = 1
                    break
                raise Unsupported('reshape of %s to %s' % (self, shape))
            axes.append(tuple(cur))
        if i != len(slots):
            raise Unsupported('reshape leaves %s' % (slots[i:],))
        return src.view(axes, src.terms)

    def guess_minus1(self, shape, k):
        """quotient for -1 when the size does not divide as polynomials: regroup slots from both ends"""
        slots = list(self.slots())
        pre, post = shape[:k], shape[k+1:]
        i = 0
        for t in pre:
            p = 1
            while not same(p, t):
                if i >= len(slots):
                    raise Unsupported('reshape -1')
                p = p*slots[i]
                i += 1
        j = len(slots)
        for t in reversed(post):
            p = 1
            while not same(p, t):
                if j <= i:
                    raise Unsupported('reshape -1')
                j -= 1
                p = p*slots[j]
        return dprod(slots[i:j])

    def split_slot(self, i, dims):
        """split slot i (major, minor)"""
        c = ctx()
        terms = []
        src = self.terms
        if any(f[0].kind in ('inj', 'iso') or f[0].id in c.rules for t in src for f in t.facs if t.outs[i] in f[2]):
            src = list(self.nf().values())
        for t in src:
            terms.append(split_label(t, t.outs[i], dims, i))
        axes, k = [], 0
        for a in self.axes:
            na = []
            for s in a:
                if k == i:
                    na.extend(dims)
                else:
                    na.append(s)
                k += 1
            axes.append(tuple(na))
        r = SArr.__new__(SArr)
        r.axes, r.terms, r.root, r.ver, r._nf, r.realdt = [nodim1(a) for a in axes], terms, self.root, self.ver, None, self.realdt
        return r

    def copy(self, order='C'):
        self.chk()
        return SArr(self.axes, self.terms, real=self.realdt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **k):
        return self.copy()

    def conj(self):
        self.chk()
        return SArr(self.axes, [conj_term(t) for t in self.terms], real=self.realdt)
    conjugate = conj

    @property
    def real(self):
        return (self+self.conj())*0.5

    @property
    def imag(self):
        return (self-self.conj())*(-0.5j)

    def flatten(self, order='C'):
        return self.reshape(-1, order=order).copy()

    def ravel(self, order='C'):
        return self.reshape(-1, order=order)

    def squeeze(self, axis=None):
        if axis is None:
            keep = [i for i, a in enumerate(self.axes) if not same(dprod(a), 1) and not (isinstance(dprod(a), Dim) and dprod(a) == 1)]
        else:
            ax = [axis] if isinstance(axis, int) else list(axis)
            ax = [x % self.ndim for x in ax]
            for x in ax:
                if not (dprod(self.axes[x]) == 1):
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
            keep = [i for i in range(self.ndim) if i not in ax]
        idx, k = [], 0
        r = self
        drop = [i for i in range(self.ndim) if i not in keep]
        for i in drop:
            if self.axes[i]:        # symbolic dimension known to be one on this path: take element zero
                return self[tuple(0 if j in drop else slice(None) for j in range(self.ndim))]
        return self.view([self.axes[i] for i in keep], self.terms)

    def item(self):
        if self.slots():
            raise ValueError('can only convert an array of size 1')
        return self.reshape(())

    def tolist(self):
        if self.ndim == 0:
            return self
        return [x.tolist() for x in self]

    def __iter__(self):
        d = self.shape[0]
        if isinstance(d, Dim):
            raise Unsupported('iteration over a symbolic axis')
        for i in range(d):
            yield self[i]

    # -- arithmetic
    def __mul__(s, o):
        return mul(s, o)
    __rmul__ = __mul__

    def __truediv__(s, o):
        return mul(s, recip(o))

    def __rtruediv__(s, o):
        return mul(recip(s), o)

    def __neg__(s):
        return mul(s, -1)

    def __pos__(s):
        return s

    def __add__(s, o):
        return add(s, o, 1)
    __radd__ = __add__

    def __sub__(s, o):
        return add(s, o, -1)

    def __rsub__(s, o):
        return add(neg(s), o, 1)

    def __pow__(s, n):
        if isinstance(n, (int, np.integer)) and n >= 1:
            r = s
            for _ in range(int(n)-1):
                r = r*s
            return r
        if isinstance(n, (int, np.integer)) and n < 0:
            return recip(s)**(-n)
        if n == 0.5 and not s.slots():
            from shim import sqrt_scalar
            return sqrt_scalar(s)
        raise Unsupported('power %r' % (n,))

    def __matmul__(s, o):
        return matmul(s, o)

    def __rmatmul__(s, o):
        return matmul(o, s)

    def _inplace(s, r):
        if r.shape != s.shape and not all(same(a, b) for a, b in zip(r.shape, s.shape)):
            raise ValueError('non-broadcastable output operand')
        s.chk()
        r = align_to(r, s)
        if s.part:
            # `x[i] += y` on a part of a buffer: python stores the result back into x[i] next, which is the only use allowed
            new = SArr(r.axes, r.terms, real=s.realdt)
            new.back = s.root
            s.root.pending = new
            return new
        s.axes = r.axes
        s.write(r.terms)
        return s

    def write(s, terms):
        """replace the contents of this buffer"""
        if s.part:
            raise Unsupported('write through a view')
        s.root.pending = None
        s.root.ver += 1
        s.ver = s.root.ver
        s.terms = terms
        s._nf = None
        ctx().writes.append(s.root)

    def __iadd__(s, o):
        return s._inplace(s+o)

    def __isub__(s, o):
        return s._inplace(s-o)

    def __imul__(s, o):
        return s._inplace(s*o)

    def __itruediv__(s, o):
        return s._inplace(s/o)

    def __eq__(s, o):
        return eq_elem(s, o)

    def __ne__(s, o):
        r = eq_elem(s, o)
        return not r if isinstance(r, bool) else ~r

    def _cmp(s, o, op):
        o = lift(o)
        if s.slots() or o.slots():
            raise Unsupported('elementwise comparison of symbolic arrays')
        a, b = s.number(), o.number()
        if a is not None and b is not None:
            return {'<': a.real < b.real, '<=': a.real <= b.real, '>': a.real > b.real, '>=': a.real >= b.real}[op]
        from shim import compare_scalars
        return compare_scalars(s, o, op)

    def __lt__(s, o):
        return s._cmp(o, '<')

    def __le__(s, o):
        return s._cmp(o, '<=')

    def __gt__(s, o):
        return s._cmp(o, '>')

    def __ge__(s, o):
        return s._cmp(o, '>=')

    def __abs__(s):
        from shim import np_abs
        return np_abs(s)

    # -- numpy methods
    def dot(s, o, inds=None):
        from shim import np_dot, np_tensordot
        return np_dot(s, o) if inds is None else np_tensordot(s, o, inds)

    def sum(s, axis=None, **k):
        from shim import np_sum
        return np_sum(s, axis)

    def mean(s, axis=None):
        from shim import np_mean
        return np_mean(s, axis)

    def trace(s, offset=0, axis1=0, axis2=1):
        from shim import np_trace
        return np_trace(s, offset, axis1, axis2)

    def diagonal(s, offset=0, axis1=0, axis2=1):
        from shim import np_diagonal
        return np_diagonal(s, offset, axis1, axis2)

    def all(s, *a):
        raise Unsupported('all()')
    any = all

    def fill(s, v):
        s._inplace(s*0+v)

    # -- indexing
    def __getitem__(s, idx):
        return getitem(s, idx)

    def __setitem__(s, idx, val):
        setitem(s, idx, val)


def rnd(z):
    z = complex(z)
    return (round(z.real, 9)+0.0, round(z.imag, 9)+0.0)


def neg(a):
    return SArr(a.axes, [Term(-t.coef, t.scal, t.facs, t.outs) for t in a.chk().terms], real=a.realdt)


def split_label(t, l, dims, pos):
    """replace label l of term t by two labels (major, minor); every factor that carries l is re-legged"""
    d1, d2 = dims
    a, b = fresh(d1), fresh(d2)
    facs, ties = [], []
    for at, cj, ls in t.facs:
        if l not in ls:
            facs.append((at, cj, ls))
            continue
        if at.kind == 'const':
            shape, nl = [], []
            for s, x in zip(at.data.shape, ls):
                if x == l:
                    shape += [d1, d2]
                    nl += [a, b]
                else:
                    shape.append(s)
                    nl.append(x)
            f, at2 = const_atom(at.data.reshape(shape))
            if abs(f-1) > 1e-12:
                raise Unsupported('constant renormalised on reshape')
            facs.append((at2, cj, tuple(nl)))
        elif at.kind == 'gen' and at.herm is None and at.id not in ctx().rules and list(ls).count(l) == 1:
            leg = list(ls).index(l)
            base, groups = (at.meta or {}).get('split') or (at, [(x,) for x in at.legs])
            groups, k = [list(g) for g in groups], 0
            for g in groups:
                if k+len(g) > leg:
                    g[leg-k:leg-k+1] = [d1, d2]
                    break
                k += len(g)
            at2 = memo(('split', base.id, tuple(tuple(dkey(x) for x in g) for g in groups)), lambda: Atom(
                '%s/%s' % (base.name, ''.join(str(len(g)) for g in groups)), at.legs[:leg]+(d1, d2)+at.legs[leg+1:], 'gen', base.real,
                meta=dict(split=(base, [tuple(g) for g in groups]))))
            facs.append((at2, cj, ls[:leg]+(a, b)+ls[leg+1:]))
        elif at.kind == 'iso' and ls[0] == l and list(ls).count(l) == 1:
            k, p = 1, at.legs[1]
            while not same(p, d1) and k < len(at.legs)-1:
                k += 1
                p = p*at.legs[k]
            if not same(p, d1) and list(ls).count(ls[k]) == 1:
                # the cut runs through a leg: cut that leg (everywhere) first
                before = dprod(at.legs[1:k])
                q = divide(d1, before)
                rr = divide(at.legs[k], q) if q is not None else None
                if rr is not None and not same(q, 1) and not same(rr, 1):
                    return split_label(split_label(t, ls[k], (q, rr), -1), l, dims, pos)
            if not same(p, d1) or not same(dprod(at.legs[k+1:]), d2):
                raise Unsupported('cannot split %s into %s x %s' % (at.name, show(d1), show(d2)))
            for y, part, lab in ((a, at.legs[1:k+1], ls[1:k+1]), (b, at.legs[k+1:], ls[k+1:])):
                if len(part) == 1:
                    ties.append((y, lab[0]))
                else:
                    facs.append((iso_of(part), False, (y,)+tuple(lab)))
        elif at.kind == 'iso' and list(ls).count(l) == 1:
            j = list(ls).index(l)
            facs.append((iso_of(at.legs[1:j]+(d1, d2)+at.legs[j+1:]), cj, ls[:j]+(a, b)+ls[j+1:]))
        elif at.kind == 'inj' and not at.meta['rev'] and ls[0] == l and list(ls).count(l) == 1 and not isinstance(d1, Dim) and inj_block(at, d1, d2) is not None:
            q = inj_block(at, d1, d2)
            facs.append((inj(d1, q, 1), False, (a,)))
            off = at.meta['start']-q*d2
            if same(off, 0) and same(at.meta['size'], d2):
                ties.append((b, ls[1])) if len(ls) > 1 else None
            else:
                facs.append((inj(d2, off, at.meta['size']), False, (b,)+tuple(ls[1:])))
        elif at.kind == 'inj' and len(ls) == 1 and not isinstance(d2, Dim) and not isinstance(at.meta['start'], Dim):
            q, r = divmod(at.meta['start'], d2)
            facs.append((inj(d1, q, 1), False, (a,)))
            facs.append((inj(d2, r, 1), False, (b,)))
        else:
            raise Unsupported('cannot split a leg of %s' % at.name)
    outs = []
    for k, x in enumerate(t.outs):
        if x == l:
            if k != pos:            # the other occurrence keeps the joined index
                y = fresh(ctx().ldim[l])
                facs.append((iso_of((d1, d2)), False, (y, a, b)))
                outs.append(y)
                continue
            outs += [a, b]
        else:
            outs.append(x)
    keep = [(d1, a), (d2, b)]
    # dimension-one parts carry no label
    outs = [x for x in outs if not any(x == y and not isinstance(d, Dim) and d == 1 for d, y in keep)]
    for d, y in keep:
        if not isinstance(d, Dim) and d == 1:
            raise Unsupported('split into a trivial part')
    r = Term(t.coef, t.scal, facs, tuple(outs))
    if ties:
        uf = UF()
        for x, y in ties:
            uf.union(x, y)
        r = apply_uf(uf, r)
    return r


def inj_block(at, d1, d2):
    """the block of length d2 (out of d1) that contains the whole range of the injection"""
    c = ctx()
    a, e = zz(at.meta['start']), zz(at.meta['start'])+zz(at.meta['size'])
    for q in range(d1):
        if c.entails(z3.And(a >= q*zz(d2), e <= (q+1)*zz(d2))):
            return q
    return None


def iso_of(slots):
    slots = tuple(slots)
    return memo(('iso', tuple(dkey(s) for s in slots)), lambda: Atom('iso(%s)' % ','.join(show(s) for s in slots), (dprod(slots),)+slots, 'iso', real=True))


# ------------------------------------------------------------------ lifting

def lift(x):
    if isinstance(x, SArr):
        return x.chk()
    if isinstance(x, Dim):
        return dim_scalar(x, 1)
    if isinstance(x, SList):
        return x.stacked()
    if isinstance(x, (list, tuple)):
        from shim import np_array
        r = np_array(x)
        return r if isinstance(r, SArr) else lift(r)
    if isinstance(x, (int, float, complex, np.number, np.ndarray, bool)):
        d = np.asarray(x)
        if d.dtype == object:
            raise Unsupported('object array')
        axes = [(n,) for n in d.shape]
        if d.size == 0:
            return SArr(axes, [])
        sq = d.reshape([n for n in d.shape if n != 1])
        f, at = const_atom(sq)
        real = not np.iscomplexobj(d)
        if f == 0:
            return SArr(axes, [], real=real)
        if at is None:
            return SArr(axes, [Term(f, {}, [], ())], real=real)
        ls = tuple(fresh(n) for n in sq.shape)
        return SArr(axes, [Term(f, {}, [(at, False, ls)], ls)], real=real)
    if x is None:
        raise TypeError('unsupported operand NoneType')
    raise Unsupported('cannot lift %s' % type(x).__name__)


def dim_scalar(d, p):
    if not isinstance(d, Dim):
        return lift(float(d)**p)
    if p == 1:
        return SArr([], [Term(c, s, [], ()) for c, s in dim_monos(d)])
    if len(d.p) == 1:
        (m, c), = d.p.items()
        sc = {}
        for a in m:
            k = (('dim', a), False)
            sc[k] = sc.get(k, 0)+p
        return SArr([], [Term(float(c)**p, sc, [], ())])
    at = memo(('dimscal', dkey(d)), lambda: Atom('1/(%s)' % show(d), (), 'scal', real=True))
    return SArr([], [Term(1, {(at, False): -p if p < 0 else p}, [], ())])


def scalar_atom(name, real=False, positive=False):
    at = Atom(name, (), 'scal', real=real, meta=dict(positive=positive))
    return SArr([], [Term(1, {(at, False): 1}, [], ())])


def gen(name, axes, real=False, herm=None):
    """a generic input array; axes: list of slot tuples; herm: True for a matrix-like hermitian array (first half of the slots = rows)"""
    axes = [nodim1(a if isinstance(a, tuple) else (a,)) for a in axes]
    slots = [s for a in axes for s in a]
    h = None
    if herm:
        k = len(slots)//2
        h = tuple(range(k, 2*k))+tuple(range(k))
        if not k:
            h = None
            real = True
    at = Atom(name, slots, 'gen', real=real, herm=h)
    ls = tuple(fresh(s) for s in slots)
    if not slots:
        return SArr(axes, [Term(1, {(at, False): 1}, [], ())], real=real)
    return SArr(axes, [Term(1, {}, [(at, False, ls)], ls)], real=real)


def of_atom(at, axes, conj=False):
    slots = [s for a in axes for s in nodim1(a)]
    ls = tuple(fresh(s) for s in slots)
    return SArr(axes, [Term(1, {}, [(at, conj, ls)], ls)])


def zeros(shape, real=True):
    return SArr([(s,) for s in shape], [], real=real)


def ones(shape):
    axes = [nodim1((s,)) for s in shape]
    return SArr(axes, [Term(1, {}, [], tuple(fresh(s) for a in axes for s in a))], real=True)


def eye(n):
    slots = nodim1((n,) if not isinstance(n, tuple) else n)
    ls = tuple(fresh(s) for s in slots)
    return SArr([slots, slots], [Term(1, {}, [], ls+ls)], real=True)


# ------------------------------------------------------------------ products

def contract(arrs, labels, out, axes):
    """einsum over slots.  labels: per array one hashable per slot; out: list of hashables; axes: result axes (slot tuples)"""
    arrs = [a.chk() for a in arrs]
    outs = set(out)
    terms = [(1, {}, [], {}, UF())]
    import itertools
    res = []
    for combo in itertools.product(*[a.terms for a in arrs]):
        coef, scal, facs = 1, {}, []
        lab, uf = {}, UF()
        summed = {}
        for t, ls in zip(combo, labels):
            t = relabel(t)
            coef = coef*t.coef
            scal = merge_scal(scal, t.scal)
            facs += t.facs
            for l, x in zip(t.outs, ls):
                if x in lab:
                    uf.union(lab[x], l)
                else:
                    lab[x] = l
        tt = Term(coef, scal, [(a, c, tuple(uf.find(l) for l in ls)) for a, c, ls in facs], tuple(uf.find(lab[x]) for x in out))
        # a summed label that no factor and no output mentions contributes its dimension
        have = set(tt.outs)
        for a, c, ls in tt.facs:
            have.update(ls)
        free = {uf.find(l) for l in lab.values()}-have
        ts = [tt]
        for l in free:
            ts = [Term(t.coef*co, merge_scal(t.scal, sc), t.facs, t.outs) for t in ts for co, sc in dim_monos(ctx().ldim[l])]
        res += ts
    r = SArr(axes, res)
    if len(res) > 6:
        r.simp()
    return r


def refine(a, b):
    """common refinement of two slot lists with equal products; returns list or None"""
    a, b = list(a), list(b)
    out = []
    while a and b:
        x, y = a[0], b[0]
        if same(x, y):
            out.append(x)
            a.pop(0), b.pop(0)
            continue
        q = divide(x, y)
        if q is not None:
            out.append(y)
            a[0] = q
            b.pop(0)
            continue
        q = divide(y, x)
        if q is not None:
            out.append(x)
            b[0] = q
            a.pop(0)
            continue
        return None
    return out if not a and not b else None


def split_axis(A, ax, slots):
    """A with axis ax carrying exactly these slots"""
    if len(A.axes[ax]) == len(slots) and all(same(x, y) for x, y in zip(A.axes[ax], slots)):
        return A
    pos = sum(len(a) for a in A.axes[:ax])
    i = 0
    while i < len(slots):
        cur = A.axes[ax][i]
        if same(cur, slots[i]):
            i += 1
            continue
        q = divide(cur, slots[i])
        if q is None:
            raise Unsupported('slot structure %s against %s' % (A.axes[ax], slots))
        A = A.split_slot(pos+i, [slots[i], q])
        i += 1
    return A


def match_axes(A, i, B, j):
    """make axis i of A and axis j of B carry the same slots"""
    a, b = A.axes[i], B.axes[j]
    if len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)):
        return A, B
    if not (dprod(a) == dprod(b)):
        raise ValueError('shapes do not match: %s against %s' % (show(dprod(a)), show(dprod(b))))
    if len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)):
        return A, B
    s = refine(a, b)
    if s is None:
        raise Unsupported('no common refinement of %s and %s' % (a, b))
    return split_axis(A, i, s), split_axis(B, j, s)


def align_to(A, B):
    for i in range(A.ndim):
        A, _ = match_axes(A, i, B, i)
    return A


def tensordot(A, B, axa, axb):
    A, B = lift(A), lift(B)
    axa = [x % A.ndim for x in axa]
    axb = [x % B.ndim for x in axb]
    if len(axa) != len(axb):
        raise ValueError('shape-mismatch for sum')
    for i, j in zip(axa, axb):
        A, B = match_axes(A, i, B, j)
    la = [[('a', i, k) for k in range(len(a))] for i, a in enumerate(A.axes)]
    lb = [[('b', j, k) for k in range(len(b))] for j, b in enumerate(B.axes)]
    for i, j in zip(axa, axb):
        lb[j] = la[i]
    ka = [i for i in range(A.ndim) if i not in axa]
    kb = [j for j in range(B.ndim) if j not in axb]
    out = [l for i in ka for l in la[i]]+[l for j in kb for l in lb[j]]
    return contract([A, B], [sum(la, []), sum(lb, [])], out, [A.axes[i] for i in ka]+[B.axes[j] for j in kb])


def bcast_labels(A, B):
    """align trailing axes as numpy broadcasting does; returns A, B, labels, output labels and axes"""
    n = max(A.ndim, B.ndim)
    la, lb, out, axes = [None]*A.ndim, [None]*B.ndim, [], []
    for k in range(n):
        i, j = A.ndim-n+k, B.ndim-n+k
        if i < 0 and j >= 0:
            lb[j] = [('x', k, m) for m in range(len(B.axes[j]))]
            out += lb[j]
            axes.append(B.axes[j])
        elif j < 0 and i >= 0:
            la[i] = [('x', k, m) for m in range(len(A.axes[i]))]
            out += la[i]
            axes.append(A.axes[i])
        else:
            a, b = A.axes[i], B.axes[j]
            if not a and b:
                la[i] = []
                lb[j] = [('x', k, m) for m in range(len(b))]
                out += lb[j]
                axes.append(b)
            elif a and not b:
                lb[j] = []
                la[i] = [('x', k, m) for m in range(len(a))]
                out += la[i]
                axes.append(a)
            else:
                A, B = match_axes(A, i, B, j)
                la[i] = lb[j] = [('x', k, m) for m in range(len(A.axes[i]))]
                out += la[i]
                axes.append(A.axes[i])
    return A, B, sum(la, []), sum(lb, []), out, axes


def mul(a, b):
    if isinstance(b, (int, float, complex, np.number)) and isinstance(a, SArr):
        a.chk()
        return SArr(a.axes, [Term(t.coef*complex(b), t.scal, t.facs, t.outs) for t in a.terms], real=a.realdt and not isinstance(b, complex))
    A, B = lift(a), lift(b)
    A, B, la, lb, out, axes = bcast_labels(A, B)
    r = contract([A, B], [la, lb], out, axes)
    r.realdt = A.realdt and B.realdt
    return r


def add(a, b, sgn):
    A, B = lift(a), lift(b)
    A, B, la, lb, out, axes = bcast_labels(A, B)
    res = []
    for X, lx, sg in ((A, la, 1), (B, lb, sgn)):
        for t in X.terms:
            lab = dict(zip(lx, t.outs))
            outs = []
            slots = [s for ax in axes for s in ax]
            for l, s in zip(out, slots):
                outs.append(lab[l] if l in lab else fresh(s))
            res.append(Term(t.coef*sg, t.scal, t.facs, tuple(outs)))
    r = SArr(axes, res, real=A.realdt and B.realdt)
    if len(res) > 4:
        r.simp()
    return r


def recip(x):
    if isinstance(x, (int, float, complex, np.number)):
        return 1/x
    if isinstance(x, np.ndarray):
        return 1/x
    if isinstance(x, Dim):
        return dim_scalar(x, -1)
    x = lift(x)
    if x.slots():
        # elementwise reciprocal of a vector atom product: only for a single positive vector factor
        n = x.nf()
        if len(n) == 1:
            t, = n.values()
            if not t.facs:
                return SArr(x.axes, [Term(1/t.coef, {k: -p for k, p in t.scal.items()}, [], t.outs)])
            if len(t.facs) == 1 and len(t.outs) == 1 and t.facs[0][2] == t.outs:
                a, cj, ls = t.facs[0]
                b = vec_inverse(a)
                return SArr(x.axes, [Term(1/t.coef, {k: -p for k, p in t.scal.items()}, [(b, cj, ls)], t.outs)])
        raise Unsupported('elementwise reciprocal')
    n = x.nf()
    if not n:
        raise ZeroDivisionError('division by zero')
    if len(n) == 1:
        t, = n.values()
        if not t.facs:
            return SArr(x.axes, [Term(1/t.coef, {k: -p for k, p in t.scal.items()}, [], ())])
    s = atomise(x)
    t, = s.terms
    return SArr(x.axes, [Term(1/t.coef, {k: -p for k, p in t.scal.items()}, [], ())])


def vec_inverse(a):
    """1/v for a vector atom v whose entries are assumed non-zero: v[k] (1/v)[k] = 1"""
    def make():
        b = Atom('1/'+a.name, a.legs, 'gen', real=a.real, meta=dict(recip=a))
        ctx().assumed.add('entries of %s are non-zero (reciprocal taken)' % a.name)
        ctx().flags.setdefault('recips', {})[b.id] = a.id
        for (p, q) in ((a, b),):
            for cj in ((False, True) if not a.real else (False,)):
                ctx().rules.setdefault(p.id, []).append(Rule('reciprocal', [(p, cj, ('k',)*len(a.legs)), (q, cj, ('k',)*len(a.legs))], set(), [(1, {}, [], [], {})]))
        ctx().flags['rulegen'] = ctx().flags.get('rulegen', 0)+1
        return b
    return memo(('vinv', a.id), make)


def posdef_value(facs):
    """v^H P v for a unit vector v, or tr(P Q), of positive definite P and Q"""
    P = [f for f in facs if (f[0].meta or {}).get('posdef') and len(f[2]) == 2]
    V = [f for f in facs if f not in P]
    if len(facs) == 3 and len(P) == 1 and len(V) == 2 and V[0][0] is V[1][0] and len(V[0][2]) == 1:
        return V[0][0].kind == 'inj' and {V[0][2][0], V[1][2][0]} == set(P[0][2])
    if len(facs) == 2 and len(P) == 2:
        (a, b), (c_, d) = P[0][2], P[1][2]
        same = P[0][1] == P[1][1]
        return a != b and ((a, b) == (d, c_) if same else (a, b) == (c_, d))
    return False


def atomise(x):
    """a scalar value as a scalar atom (so that it can be divided by)"""
    n = x.nf()
    if len(n) == 1:
        t, = n.values()
        comps = components(t)
        # every closed component becomes its own scalar
        sc = dict(t.scal)
        for g in comps:
            sub = Term(1, {}, [t.facs[i] for i in g], ())
            k, _ = canon(sub)
            sc_ = simplify_term(conj_term(sub))
            real = len(sc_) == 1 and abs(sc_[0].coef-1) < 1e-12 and canon(sc_[0])[0] == k
            at = memo(('val', k), lambda: Atom('v%d' % len(ctx().atoms), (), 'scal', real=real, meta=dict(positive=True) if real and posdef_value(sub.facs) else None))
            ctx().closed[k] = (1, {(at, False): 1})
            sc = merge_scal(sc, {(at, False): 1})
        return SArr([], [Term(t.coef, sc, [], ())])
    k = ('valsum', x.netkey())
    real = x.netkey() == x.conj().netkey()
    at = memo(k, lambda: Atom('v%d' % len(ctx().atoms), (), 'scal', real=real))
    return SArr([], [Term(1, {(at, False): 1}, [], ())])


def matmul(a, b):
    A, B = lift(a), lift(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if A.ndim == 1 and B.ndim == 1:
        return tensordot(A, B, [0], [0])
    if A.ndim == 1:
        return tensordot(A, B, [0], [B.ndim-2])
    if B.ndim == 1:
        return tensordot(A, B, [A.ndim-1], [0])
    A, B = match_axes(A, A.ndim-1, B, B.ndim-2)
    # batch axes broadcast
    na, nb = A.ndim-2, B.ndim-2
    n = max(na, nb)
    la, lb = [None]*A.ndim, [None]*B.ndim
    out, axes = [], []
    for k in range(n):
        i, j = na-n+k, nb-n+k
        if i >= 0 and j >= 0:
            a_, b_ = A.axes[i], B.axes[j]
            if a_ and b_:
                A, B = match_axes(A, i, B, j)
                la[i] = lb[j] = [('x', k, m) for m in range(len(A.axes[i]))]
                out += la[i]
                axes.append(A.axes[i])
            else:
                la[i] = [('x', k, m) for m in range(len(a_))]
                lb[j] = [('x', k, m) for m in range(len(b_))]
                out += la[i] or lb[j]
                axes.append(a_ or b_)
        elif i >= 0:
            la[i] = [('x', k, m) for m in range(len(A.axes[i]))]
            out += la[i]
            axes.append(A.axes[i])
        else:
            lb[j] = [('x', k, m) for m in range(len(B.axes[j]))]
            out += lb[j]
            axes.append(B.axes[j])
    mid = [('m', m) for m in range(len(A.axes[-1]))]
    la[-1] = mid
    lb[-2] = mid
    la[-2] = [('r', m) for m in range(len(A.axes[-2]))]
    lb[-1] = [('c', m) for m in range(len(B.axes[-1]))]
    return contract([A, B], [sum(la, []), sum(lb, [])], out+la[-2]+lb[-1], axes+[A.axes[-2], B.axes[-1]])


# ------------------------------------------------------------------ indexing

def apply_inj(A, slot, at):
    """contract slot (position) of A with E's leg 0; the slot is replaced by E's leg 1 (or dropped)"""
    terms = []
    for t in A.terms:
        l = t.outs[slot]
        if len(at.legs) == 1:
            t2 = Term(t.coef, t.scal, t.facs+[(at, False, (l,))], t.outs[:slot]+t.outs[slot+1:])
            terms.append(t2)
        else:
            k = fresh(at.legs[1])
            terms.append(Term(t.coef, t.scal, t.facs+[(at, False, (l, k))], t.outs[:slot]+(k,)+t.outs[slot+1:]))
    return terms


def embed(A, slot, at):
    """inverse direction: slot (dimension = size) becomes the total"""
    terms = []
    for t in A.terms:
        k = fresh(at.legs[0])
        l = t.outs[slot]
        # the slot label may be a repeated/free label: E[k,l] ties it
        terms.append(Term(t.coef, t.scal, t.facs+[(at, False, (k, l))], t.outs[:slot]+(k,)+t.outs[slot+1:]))
    return terms


def take(A, ax, start, size, drop):
    """A[..., start:start+size, ...] on axis ax"""
    slots = A.axes[ax]
    pos = sum(len(a) for a in A.axes[:ax])
    total = dprod(slots)
    if not isinstance(size, Dim) and size == 0:
        return SArr(A.axes[:ax]+[(0,)]+A.axes[ax+1:], [], A.root, A.ver, real=A.realdt)
    if not slots:
        # dimension one
        if drop:
            return SArr(A.axes[:ax]+A.axes[ax+1:], A.terms, A.root, A.ver, real=A.realdt)
        return A
    if drop or same(size, 1):
        # one element: unravel over the slots
        parts = []
        rest = start
        for i, s in enumerate(slots):
            minor = dprod(slots[i+1:])
            if same(minor, 1):
                parts.append(rest)
                break
            if isinstance(rest, Dim) or isinstance(minor, Dim):
                if same(rest, 0):
                    parts += [0]*(len(slots)-i)
                    break
                if same(rest, total-1):
                    parts += [x-1 for x in slots[i:]]
                    break
                q = divide(rest, minor)
                if q is not None:
                    parts += [q]+[0]*(len(slots)-i-1)
                    break
                if not isinstance(rest, Dim) and len(slots) == i+1:
                    parts.append(rest)
                    break
                if not isinstance(rest, Dim) and not isinstance(slots[-1], Dim):
                    raise Unsupported('index into a symbolic composite axis')
                raise Unsupported('index into a symbolic composite axis')
            parts.append(rest//minor)
            rest = rest % minor
        B = A
        for i in reversed(range(len(slots))):
            terms = apply_inj(B, pos+i, inj(slots[i], parts[i], 1))
            B = SArr.__new__(SArr)
            B.axes, B.terms, B.root, B.ver, B._nf, B.realdt = None, terms, A.root, A.ver, None, A.realdt
        axes = A.axes[:ax]+([] if drop else [()])+A.axes[ax+1:]
        return SArr(axes, B.terms, A.root, A.ver, real=A.realdt)
    if len(slots) > 1:
        # a slice aligned with the major slot
        minor = dprod(slots[1:])
        q0, q1 = (0 if same(start, 0) else divide(start, minor)), divide(size, minor)
        if q0 is None or q1 is None:
            if not isinstance(total, Dim):
                A = merge_const_slots(A, ax)
                slots = A.axes[ax]
                if len(slots) == 1:
                    return take(A, ax, start, size, drop)
            raise Unsupported('slice of a composite axis')
        if same(q1, 1):
            terms = apply_inj(A, pos, inj(slots[0], q0, 1))
            return SArr(A.axes[:ax]+[slots[1:]]+A.axes[ax+1:], terms, A.root, A.ver, real=A.realdt)
        terms = apply_inj(A, pos, inj(slots[0], q0, q1))
        return SArr(A.axes[:ax]+[(q1,)+slots[1:]]+A.axes[ax+1:], terms, A.root, A.ver, real=A.realdt)
    terms = apply_inj(A, pos, inj(slots[0], start, size))
    return SArr(A.axes[:ax]+[(size,)]+A.axes[ax+1:], terms, A.root, A.ver, real=A.realdt)


def merge_const_slots(A, ax):
    raise Unsupported('slice across a composite axis')


def slice_bounds(sl, n):
    """(start, size, step) of a slice on an axis of dimension n, numpy clipping"""
    step = 1 if sl.step is None else sl.step
    if step == -1 and sl.start is None and sl.stop is None:
        return 0, n, -1
    if step != 1:
        raise Unsupported('slice step %r' % (step,))
    a = 0 if sl.start is None else sl.start
    b = n if sl.stop is None else sl.stop
    if isinstance(a, SArr) or isinstance(b, SArr):
        raise Unsupported('slice by a symbolic value')
    a = a if isinstance(a, Dim) else int(a)
    b = b if isinstance(b, Dim) else int(b)
    if a < 0:
        a = n+a
        if a < 0:
            a = 0
    if b < 0:
        b = n+b
        if b < 0:
            b = 0
    if dkey(a) != 0 and a > n:
        a = n
    if dkey(b) != dkey(n) and b > n:
        b = n
    if dkey(b) != dkey(n) or dkey(a) != 0:
        if b < a:
            b = a
    return a, b-a, 1


def norm_index(idx, nd):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    n = len([i for i in idx if i is not None and i is not Ellipsis])
    if Ellipsis in [i for i in idx if not isinstance(i, (SArr, np.ndarray))]:
        k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
        idx[k:k+1] = [slice(None)]*(nd-n)
    else:
        idx += [slice(None)]*(nd-n)
    if n > nd:
        raise IndexError('too many indices for array')
    return idx


def getitem(A, idx):
    A.chk()
    if isinstance(idx, SArr) or isinstance(idx, (list, np.ndarray)) and not isinstance(idx, tuple):
        raise Unsupported('fancy indexing')
    idx = norm_index(idx, A.ndim)
    B = A
    ax = 0
    for i in idx:
        if i is None:
            B = SArr(B.axes[:ax]+[()]+B.axes[ax:], B.terms, A.root, A.ver, real=A.realdt)
            ax += 1
        elif isinstance(i, slice):
            n = B.shape[ax]
            a, m, st = slice_bounds(i, n)
            if st == -1:
                B = reverse(B, ax)
            elif not (dkey(a) == 0 and dkey(m) == dkey(n)) and not (same(a, 0) and same(m, n)):
                B = take(B, ax, a, m, False)
            ax += 1
        elif isinstance(i, (int, np.integer, Dim)):
            i = int(i) if not isinstance(i, Dim) else i
            n = B.shape[ax]
            if i < 0:
                i = n+i
            if i < 0 or i >= n:
                raise IndexError('index out of bounds')
            B = take(B, ax, i, 1, True)
        else:
            raise Unsupported('index %r' % (i,))
    r = SArr(B.axes, B.terms, A.root, A.ver, real=A.realdt)
    r.part = A.part or B is not A
    return r


def reverse(A, ax):
    slots = A.axes[ax]
    pos = sum(len(a) for a in A.axes[:ax])
    B = A
    for i, s in enumerate(slots):
        terms = apply_inj(B, pos+i, revatom(s))
        B = SArr(A.axes, terms, A.root, A.ver, real=A.realdt)
    return B


def setitem(A, idx, val):
    if A.root.pending is not None and A.root.pending is val:
        A.root.pending = None
    A.chk()
    if isinstance(idx, (SArr, np.ndarray, list)):
        raise Unsupported('fancy assignment')
    idx = norm_index(idx, A.ndim)
    V = lift(val)
    old = A
    # region: per axis (start,size,drop)
    reg = []
    for ax, i in enumerate(idx):
        n = A.shape[ax]
        if isinstance(i, slice):
            a, m, st = slice_bounds(i, n)
            if st != 1:
                raise Unsupported('assignment with a step')
            reg.append((a, m, False))
        elif isinstance(i, (int, np.integer, Dim)):
            i = int(i) if not isinstance(i, Dim) else i
            if i < 0:
                i = n+i
            if i < 0 or i >= n:
                raise IndexError('index out of bounds')
            reg.append((i, 1, True))
        else:
            raise Unsupported('assignment index %r' % (i,))
    # broadcast the value to the region
    shape = [m for a, m, d in reg if not d]
    W = zeros(shape)
    W = add(W, V, 1)
    if W.ndim != len(shape):
        raise ValueError('could not broadcast input array')
    k = 0
    axes = []
    # put dropped axes back
    full = []
    for (a, m, d) in reg:
        if d:
            full.append(())
        else:
            full.append(W.axes[k])
            k += 1
    W = SArr(full, W.terms)
    P = A
    newterms = None
    whole = True
    for ax, (a, m, d) in enumerate(reg):
        n = A.shape[ax]
        if same(a, 0) and same(m, n):
            continue
        whole = False
        slots = A.axes[ax]
        pos = sum(len(x) for x in W.axes[:ax])
        if len(slots) > 1:
            raise Unsupported('assignment into a composite axis')
        e = inj(n, a, m)
        if len(e.legs) == 1:
            terms = []
            if W.axes[ax]:
                raise Unsupported('assignment of a symbolic unit slice')
            for t in W.terms:
                l = fresh(n)
                terms.append(Term(t.coef, t.scal, t.facs+[(e, False, (l,))], t.outs[:pos]+(l,)+t.outs[pos:]))
        else:
            if len(W.axes[ax]) != 1:
                W = merge_const_slots(W, ax)
            if len(W.axes[ax]) != 1:
                raise Unsupported('assignment from a composite axis')
            terms = embed(W, pos, e)
        W = SArr(W.axes[:ax]+[(n,)]+W.axes[ax+1:], terms)
    if whole:
        W = align_to(W, A)
        A.axes = W.axes
        A.write(W.terms)
        return
    rest = A
    if A.terms:
        # A outside the region: A - (A restricted to it)
        Rr = A
        for ax, (a, m, d) in enumerate(reg):
            n = A.shape[ax]
            if same(a, 0) and same(m, n):
                continue
            pos = sum(len(x) for x in A.axes[:ax])
            e = inj(n, a, m)
            terms = []
            for t in Rr.terms:
                l = t.outs[pos]
                if len(e.legs) == 1:
                    terms.append(Term(t.coef, t.scal, t.facs+[(e, False, (l,))], t.outs))
                else:
                    terms.append(Term(t.coef, t.scal, t.facs+[(e, False, (l, fresh(m)))], t.outs))
            Rr = SArr(A.axes, terms)
        new = add(add(SArr(A.axes, A.terms), Rr, -1), W, 1)
    else:
        new = W
    new = align_to(new, A)
    nr = SArr(new.axes, new.terms)
    if len(nr.terms) > 3:
        nr.simp()
    A.axes = new.axes
    A.write(nr.terms)


class SList:
    """result of np.split along a (possibly symbolic) number of sections: arr has the section index as axis 0"""

    def __init__(self, arr):
        self.arr = arr

    def stacked(self):
        return self.arr

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        return iter(self.arr)

    def __getitem__(self, i):
        return self.arr[i]


def eq_elem(a, b):
    """== on scalars / arrays used as truth values"""
    if isinstance(b, str) or b is None:
        return False
    A, B = lift(a), lift(b)
    if A.slots() or B.slots():
        raise Unsupported('elementwise == on symbolic arrays')
    d = A-B
    if not d.nf():
        return True
    n = d.number()
    if n is not None:
        return abs(n) < TOL
    return ctx().choose('equality of symbolic scalars')
