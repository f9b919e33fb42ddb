"""Loads the repository's real source with numpy / scipy bound to the symbolic shims.

No file is changed: each is compiled from /repo on every run and executed in a module whose __builtins__ differ in len, range,
max, min, sum, enumerate, zip, reversed, list, int, type, print and __import__ (all fall through to the real ones on concrete arguments).
One construct is desugared on the way, so that it can run over lists of symbolic length: [e for x in it] becomes a call of a
function with lambda x: e.
"""
import os, sys, types, builtins, importlib, ast
import numpy as np
from dims import Dim, dmax, dmin, Unsupported, ctx
from sym import SArr, SList
import shim, loops

REPO = os.environ.get('XMPS_REPO', '/repo')
EXECUTED = {}       # code qualname -> file


class Stub(types.ModuleType):
    """stands in for optional packages that are not installed here (plotting, cython, progress bars)"""
    def __getattr__(self, n):
        if n.startswith('__') and n != '__path__':
            raise AttributeError(n)
        if n == '__path__':
            return []
        return Stub(self.__name__+'.'+n)

    def __call__(self, *a, **k):
        return a[0] if a and len(a) == 1 else self


def p_len(x):
    if isinstance(x, SArr):
        return x.shape[0]
    if isinstance(x, loops.SymSeq):
        return x.length
    if isinstance(x, loops.SymIter):
        return x.n
    if loops.symbolic(x):
        return type(x).__len__(x)
    return builtins.len(x)


def p_max(*a, **k):
    if len(a) == 1 and loops.symbolic(a[0]):
        return loops.fresh_dim('max')
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and any(isinstance(x, Dim) for x in xs):
        return dmax(*xs)
    if len(a) == 1:
        return builtins.max(xs, **k)
    return builtins.max(*a, **k)


def p_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and any(isinstance(x, Dim) for x in xs):
        return dmin(*xs)
    if len(a) == 1:
        return builtins.min(xs, **k)
    return builtins.min(*a, **k)


def p_range(*a):
    if any(isinstance(x, Dim) for x in a):
        return loops.p_range(*a)
    return builtins.range(*a)


def p_enumerate(x, start=0):
    return loops.p_enumerate(x, start) if loops.symbolic(x) else builtins.enumerate(x, start)


def p_zip(*xs, **k):
    if any(loops.symbolic(x) for x in xs):
        return loops.p_zip(xs)
    return builtins.zip(*xs, **k)


def p_reversed(x):
    return loops.as_iter(x).rev() if loops.symbolic(x) else builtins.reversed(x)


def p_sum(x, *a):
    if loops.symbolic(x):
        return loops.p_sum(x, *a)
    return builtins.sum(x, *a)


def listcomp(f, it, star):
    """[f(x) for x in it] (list comprehensions of one unfiltered generator are compiled to this call)"""
    if loops.symbolic(it):
        return loops.listcomp(f, it, star)
    return [f(*t) for t in it] if star else [f(t) for t in it]


class Desugar(ast.NodeTransformer):
    """[e for x in it]  ->  __listcomp__(lambda x: e, it); nothing else is touched"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1:
            return n
        g = n.generators[0]
        if g.ifs or g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        if isinstance(g.target, ast.Name):
            ts, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            ts, star = [x.id for x in g.target.elts], True
        else:
            return n
        lam = ast.Lambda(ast.arguments([], [ast.arg(t) for t in ts], None, [], [], None, []), n.elt)
        call = ast.Call(ast.Name('__listcomp__', ast.Load()), [lam, g.iter, ast.Constant(star)], [])
        return ast.copy_location(call, n)


def p_int(*a, **k):
    if a and isinstance(a[0], Dim):
        return a[0]
    if a and isinstance(a[0], SArr):
        z = a[0].number()
        if z is not None and abs(z.imag) < 1e-12:
            return builtins.int(round(z.real, 9))
        return shim.dimof(a[0])
    return builtins.int(*a, **k)


class ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)

    def __call__(cls, *a):
        if a and loops.symbolic(a[0]):
            return loops.p_list(a[0])
        return builtins.list(*a)


class p_list(metaclass=ListMeta):
    pass


class TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            return shim.ndarray if isinstance(a[0], (SArr, np.ndarray)) else builtins.type(a[0])
        return builtins.type(*a, **k)


class p_type(metaclass=TypeMeta):
    pass


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(len=p_len, max=p_max, min=p_min, range=p_range, enumerate=p_enumerate, zip=p_zip, reversed=p_reversed, sum=p_sum, list=p_list, __listcomp__=listcomp, int=p_int, type=p_type, __import__=self.imp, print=lambda *a, **k: None)
        self.tracked = set()

    def load(self, name):
        """name: dotted module name inside xmps"""
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            fn = os.path.join(path, '__init__.py')
            pkg = True
        else:
            fn, pkg = path+'.py', False
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        if pkg:
            m.__path__ = [path]
        m.__builtins__ = self.builtins
        self.mods[name] = m
        if not os.path.exists(fn):
            del self.mods[name]
            raise ModuleNotFoundError("No module named '%s'" % name)
        src = open(fn, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.fix_missing_locations(Desugar().visit(ast.parse(src, fn)))
            exec(compile(tree, fn, 'exec'), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get('__package__') or 'xmps'
            for _ in range(level-1):
                base = base.rsplit('.', 1)[0]
            name = base+('.'+name if name else '')
        if name.split('.')[0] == 'xmps':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name+'.'+f))
                        except (ModuleNotFoundError, FileNotFoundError):
                            raise ImportError('cannot import name %r from %r' % (f, name))
                return m
            return self.load('xmps')
        top = {'numpy': shim.np_shim, 'numpy.linalg': shim.np_linalg, 'scipy': shim.sp_shim, 'scipy.linalg': shim.sp_linalg,
               'scipy.sparse.linalg': shim.sp_slinalg, 'scipy.sparse': shim.sp_sparse, 'numpy.core': shim.np_shim,
               'numpy.random': shim.np_random, 'scipy.optimize': shim.sp_optimize, 'math': shim.math_shim}
        if name in top:
            if fromlist:
                return top[name]
            return top[name.split('.')[0]]
        if name in ('numpy.linalg.linalg',):
            st = Stub(name)
            st.LinAlgError = np.linalg.LinAlgError
            return st if fromlist else shim.np_shim
        if name.split('.')[0] in ('pyximport', 'matplotlib', 'tqdm', 'qutip', 'cProfile', 'multiprocessing', 'expokitpy'):
            if name.split('.')[0] in ('expokitpy', 'qutip'):
                raise ImportError(name)
            return Stub(name)
        if name.split('.')[0] in ('numpy', 'scipy'):
            m = importlib.import_module(name)
            w = shim.ShimModule(m, {})
            if fromlist:
                return w
            return top[name.split('.')[0]]
        return builtins.__import__(name, globals, locals, fromlist, level)
