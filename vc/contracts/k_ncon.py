from api import contract
import random

M = 'xmps.ncon'


def network(seed, big=False):
    """a consistent network description: labels only, every dimension stays symbolic"""
    r = random.Random(77*seed+5)
    n = r.randint(1, 6 if big else 5)
    labels = [[] for _ in range(n)]
    npos, nneg = r.randint(0, 7 if big else 5), r.randint(0, 4)
    pos = r.sample(range(1, 30), npos) if r.random() < .4 else list(range(1, npos+1))
    neg = [-i for i in (r.sample(range(1, 30), nneg) if r.random() < .3 else range(1, nneg+1))]
    for p in pos:
        a = r.randrange(n)
        b = a if r.random() < .2 else r.randrange(n)
        labels[a].append(p)
        labels[b].append(p)
    for q in neg:
        labels[r.randrange(n)].append(q)
    for l in labels:
        r.shuffle(l)
    return labels, pos, neg, r


def build(c, labels):
    As = []
    for i, l in enumerate(labels):
        As.append(c.arr('A%d' % i, *[c.dim(('p%d' % x) if x > 0 else ('f%d' % -x)) for x in l]))
    return As


def esum(c, As, labels, out):
    ids = sorted({x for l in labels for x in l})
    m = {x: i for i, x in enumerate(ids)}
    args = []
    for A, l in zip(As, labels):
        args += [A, [m[x] for x in l]]
    return c.np.einsum(*args, [m[x] for x in out])


SEEDS = [dict(net=s) for s in range(50)]
MORE = [dict(net=s) for s in range(50, 450)]


@contract('C19', 'the Einstein sum', 'network topology', grid=SEEDS, thorough=MORE)
def _(c, net):
    ncon = c.mod(M).ncon
    labels, pos, neg, r = network(net, net >= 50)
    As = build(c, labels)
    k = c.snap(*As)
    d = sorted(neg, reverse=True)
    arg = [list(l) for l in labels]
    want = esum(c, As, labels, d)
    c.eq('sum over the repeated labels', ncon(As, arg), want)
    c.true('labels left alone', arg == [list(l) for l in labels] and len(As) == len(labels))
    c.eq('tuples', ncon(tuple(As), tuple(map(tuple, labels))), want)
    order = list(pos)
    r.shuffle(order)
    mine = list(order)
    c.eq('any contraction order', ncon(As, labels, mine), want)
    c.true('order left alone', mine == order)
    f = list(neg)
    r.shuffle(f)
    c.eq('requested free legs', ncon(As, labels, None, f), esum(c, As, labels, f))
    c.eq('both orders', ncon(As, labels, order, f), esum(c, As, labels, f))
    c.eq('unchecked', ncon(As, labels, check_indices=False), want)
    c.unchanged('tensors left alone', k)
    if len(As) == 1 and labels[0]:
        c.eq('single tensor', ncon(As[0], labels[0]), want)


def single(seed):
    r = random.Random(seed)
    while True:
        n, f = r.randint(0, 3), r.randint(0, 4)
        if n+f:
            break
    l = [i+1 for i in range(n)]*2+[-(i+1) for i in range(f)]
    r.shuffle(l)
    return l


@contract('C19', 'one tensor by itself', 'pattern of labels', grid=[dict(net=s) for s in range(8)], thorough=[dict(net=s) for s in range(8, 60)])
def _(c, net):
    ncon = c.mod(M).ncon
    l = single(net)
    A, = build(c, [l])
    want = esum(c, [A], [l], sorted([x for x in l if x < 0], reverse=True))
    c.eq('without lists', ncon(A, l), want)
    c.eq('in lists', ncon([A], [l]), want)


@contract('C19', 'disconnected networks', 'network topology', grid=[dict(net=s) for s in range(8)], thorough=[dict(net=s) for s in range(8, 60)])
def _(c, net):
    """several components joined by nothing, scalars among them"""
    ncon = c.mod(M).ncon
    r = random.Random(1000+net)
    labels, p, q = [], 0, 0
    for _ in range(r.randint(2, 3)):
        n = r.randint(1, 2)
        comp = [[] for _ in range(n)]
        for _ in range(r.randint(0, 2)):
            p += 1
            comp[0].append(p)
            comp[-1].append(p)
        if n == 2 and not comp[0]:
            p += 1
            comp[0].append(p)
            comp[1].append(p)
        for _ in range(r.randint(0, 2)):
            q += 1
            comp[r.randrange(n)].append(-q)
        for l in comp:
            r.shuffle(l)
        labels += comp
    r.shuffle(labels)
    As = build(c, labels)
    f = [-i for i in range(1, q+1)]
    c.eq('product of the parts', ncon(As, labels), esum(c, As, labels, f))
    r.shuffle(f)
    order = list(range(1, p+1))
    r.shuffle(order)
    c.eq('any orders', ncon(As, labels, order, f), esum(c, As, labels, f))


KINDS = ['dimension', 'count', 'fewer', 'legs', 'once', 'thrice', 'freetwice']


@contract('C19', 'refusals', 'network topology', grid=[dict(kind=k, net=s) for k in KINDS for s in (1, 4)], thorough=[dict(kind=k, net=s) for k in KINDS for s in range(5, 25)])
def _(c, kind, net):
    ncon = c.mod(M).ncon
    s = net
    while True:
        labels, pos, neg, r = network(s)
        if pos and len(labels) > 1:
            break
        s += 100
    As = build(c, labels)
    x = max(pos)+1
    if kind == 'dimension':
        i, j = r.choice([(i, j) for i, l in enumerate(labels) for j, y in enumerate(l) if y > 0])
        e = c.dim('extra')
        sh = [d+e if k == j else d for k, d in enumerate(As[i].shape)]
        As[i] = c.arr('B', *sh)
    elif kind == 'count':
        As = As+[c.arr('B', c.dim('x'))]
    elif kind == 'fewer':
        As = As[:-1]
    elif kind == 'legs':
        i = r.randrange(len(As))
        As[i] = c.arr('B', *(list(As[i].shape)+[c.dim('x')]))
    else:
        y = {'freetwice': min(neg+[0])-1, 'zero': x}.get(kind, x)
        times = {'once': 1, 'thrice': 3, 'freetwice': 2, 'zero': 1}[kind]
        at = [r.randrange(len(As)) for _ in range(times)]
        labels = [list(l) for l in labels]
        for i in at:
            labels[i].append(y)
            As[i] = c.arr('B%d' % len(labels[i]), *(list(As[i].shape)+[c.dim('x')]))
    try:
        ncon(As, labels)
    except (ValueError, RuntimeError, IndexError) as e:
        c.true('refused', True)
    else:
        c.true('refused', False, kind)
