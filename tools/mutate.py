"""mutation sweep: which small changes that the stable tests accept do the checks miss?

mutate.py gen N SEED        write /tmp/mut/muts.json (random sample of mutation points of the files in scope)
mutate.py test JOBS         run the stable tests on each (fail fast) in scratch copies; survivors -> /tmp/mut/surv.json
mutate.py check JOBS        run the checks of the properties that execute the mutated function on every survivor -> /tmp/mut/res.json
"""
import warnings
warnings.simplefilter('ignore')
import ast, sys, os, json, random, subprocess, shutil, copy, re
from concurrent.futures import ThreadPoolExecutor
import threading, queue
BASE = os.environ.get('MUT_DIR', '/tmp/mut')
FILES = ['xmps/fMPS.py', 'xmps/fPEPS.py', 'xmps/fTDVP.py', 'xmps/iMPS.py', 'xmps/iTDVP.py', 'xmps/Hamiltonians.py', 'xmps/ncon.py', 'xmps/peps_tools.py',
         'xmps/spin.py', 'xmps/tensor.py', 'xmps/svd_robust.py', 'xmps/projects/fTFD.py']
SKIPF = re.compile(r'^(test|setUp|plot|main|environment|moses|__str__|__repr__|clear|U2|show|H2|hess)')


def seg(src, node):
    return ast.get_source_segment(src, node)


def points(path, src):
    tree = ast.parse(src)
    out = []

    def add(fn, node, new, kind):
        out.append((fn, node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new if isinstance(new, str) else ast.unparse(new), kind))

    def walk(node, fn, skip):
        for ch in ast.iter_child_nodes(node):
            f, s = fn, skip
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                f = (fn+'.' if fn else '')+ch.name
                s = skip or bool(SKIPF.match(ch.name)) or (isinstance(ch, ast.ClassDef) and ch.name.lower().startswith('test'))
            if not s and f and isinstance(ch, ast.AST):
                muts(ch, f)
            walk(ch, f, s)

    def muts(n, fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            q = copy.deepcopy(n)
            q.ops = [m[type(n.ops[0])]()]
            add(fn, n, q, 'cmp')
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add, ast.Pow: ast.Mult}
            if type(n.op) in m:
                q = copy.deepcopy(n)
                q.op = m[type(n.op)]()
                add(fn, n, q, 'bin')
            if isinstance(n.op, ast.MatMult):
                q = copy.deepcopy(n)
                q.left, q.right = q.right, q.left
                add(fn, n, q, 'swap@')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(fn, n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(fn, n, str(n.value+1), 'int+')
            add(fn, n, '('+str(n.value-1)+')' if n.value < 1 else str(n.value-1), 'int-')
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(fn, n, repr(n.value*1.5+.1), 'float')
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('conj', 'copy', 'conjugate', 'transpose', 'swapaxes', 'squeeze') and not (isinstance(f.value, ast.Name) and f.value.id == 'np'):
                add(fn, n, f.value, 'drop .'+f.attr)
            nm = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np' else '')
            if nm in ('c', 'C', 'cT', 'T', 'H', 'conj', 'conjugate', 'real', 'copy', 'deepcopy', 'sqrt', 'abs', 'sorted', 'reversed', 'tr') and len(n.args) >= 1:
                add(fn, n, n.args[0], 'drop '+nm)
            if nm in ('T', 'cT'):
                q = copy.deepcopy(n)
                q.func = ast.Name('c' if nm == 'cT' else 'cT')
                add(fn, n, q, 'other '+nm)
            if len(n.args) == 2 and nm not in ('range', 'isinstance'):
                q = copy.deepcopy(n)
                q.args = q.args[::-1]
                add(fn, n, q, 'swapargs')
            for i, kw in enumerate(n.keywords):
                q = copy.deepcopy(n)
                del q.keywords[i]
                add(fn, n, q, 'drop kw '+str(kw.arg))
        if isinstance(n, ast.Attribute) and n.attr in ('T', 'conj', 'real', 'H') and isinstance(n.ctx, ast.Load) and n.attr in ('T', 'real'):
            add(fn, n, n.value, 'drop .'+n.attr)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
            add(fn, n, n.operand, 'unary')
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            for i in range(len(n.elts)-1):
                q = copy.deepcopy(n)
                q.elts[i], q.elts[i+1] = q.elts[i+1], q.elts[i]
                add(fn, n, q, 'swapel')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(fn, n.test, 'True', 'cond T')
            add(fn, n.test, 'False', 'cond F')
            add(fn, n.test, 'not (%s)' % ast.unparse(n.test), 'cond not')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(fn, n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign) or (isinstance(n, ast.Assign) and all(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets)):
            add(fn, n, 'pass', 'delete')
        if isinstance(n, ast.Slice):
            for fld in ('lower', 'upper', 'step'):
                if getattr(n, fld) is not None:
                    q = copy.deepcopy(n)
                    setattr(q, fld, None)
                    add(fn, n, q, 'slice '+fld)
        if isinstance(n, ast.BoolOp):
            q = copy.deepcopy(n)
            q.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(fn, n, q, 'bool')

    walk(tree, '', False)
    return out


def apply(src, p):
    fn, l, c, el, ec, new, kind = p
    lines = src.splitlines(True)
    off = [0]
    for x in lines:
        off.append(off[-1]+len(x.encode()))
    b = src.encode()
    return (b[:off[l-1]+c]+new.encode()+b[off[el-1]+ec:]).decode()


def gen(n, seed):
    rng = random.Random(seed)
    allp = []
    for f in FILES:
        src = open(BASE+'/base/'+f).read()
        blame = subprocess.run(['git', '-C', BASE+'/base', 'blame', '-s', '--abbrev=7', f], capture_output=True, text=True).stdout.splitlines()
        for p in points(f, src):
            if not any(b.startswith('^') for b in blame[p[1]-1:p[3]]):
                continue
            allp.append((f,)+p)
    # by function, so that long functions do not dominate
    by = {}
    for p in allp:
        by.setdefault((p[0], p[1]), []).append(p)
    for k in by:
        rng.shuffle(by[k])
    out = []
    ks = list(by)
    while len(out) < n and ks:
        rng.shuffle(ks)
        for k in list(ks):
            for _ in range(max(1, len(by[k])//40)):
                if by[k]:
                    out.append(by[k].pop())
            if not by[k]:
                ks.remove(k)
    out = out[:n]
    ok = []
    for i, p in enumerate(out):
        try:
            s = apply(open(BASE+'/base/'+p[0]).read(), p[1:])
            ast.parse(s)
            ok.append(dict(id=i, p=p))
        except Exception as e:
            pass
    json.dump(ok, open(BASE+'/muts.json', 'w'))
    print(len(allp), 'points', len(ok), 'mutants')


STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def workers(n, items, fn, save):
    q = queue.Queue()
    for i in items:
        q.put(i)
    lock = threading.Lock()
    done = []

    def run(k):
        w = '%s/w%d' % (BASE, k)
        if os.path.exists(w):
            shutil.rmtree(w)
        subprocess.run(['cp', '-a', BASE+'/base', w], check=True)
        while True:
            try:
                it = q.get_nowait()
            except queue.Empty:
                break
            f = it['p'][0]
            src = open(BASE+'/base/'+f).read()
            try:
                open(w+'/'+f, 'w').write(apply(src, it['p'][1:]))
                r = fn(w, it)
            except Exception as e:
                r = dict(error=repr(e))
            open(w+'/'+f, 'w').write(src)
            with lock:
                done.append(dict(it, res=r))
                save(done)
        shutil.rmtree(w)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return done


def env(w):
    return dict(os.environ, PYTHONPATH='/opt/vp/plugin:/tmp/mut/plugin:'+w, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                MPLBACKEND='Agg', PYTHONHASHSEED='0', HOME='/root', XMPS_REPO=w)


def run_tests(w, it):
    d = w+'/run/a/b'
    if os.path.exists(w+'/run'):
        shutil.rmtree(w+'/run')
    os.makedirs(d)
    os.symlink(w+'/tests', w+'/run/tests')
    os.symlink(w+'/tests/fixtures', d+'/fixtures')
    args = [w+'/tests']+[w+'/xmps/'+f for f in ('mps_examples.py', 'fPEPS.py', 'projects/fTFD.py') if os.path.exists(w+'/xmps/'+f)]
    xml = w+'/run/j.xml'
    cmd = ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-c', '/dev/null', '--rootdir='+w, '-p', 'no:cacheprovider', '-p', 'xmps_vp_plugin', '-p', 'stableonly', '-x', '--randomly-seed=0',
           '--randomly-dont-reorganize', '--deselect', 'xmps/fPEPS.py::tests', '--timeout=120', '--continue-on-collection-errors', '-W', 'ignore', '--tb=no',
           '-o', 'junit_family=xunit2', '--junitxml='+xml]
    import xml.etree.ElementTree as ET
    try:
        subprocess.run(cmd+args, cwd=d, env=env(w), capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        return dict(survives=False)
    if not os.path.exists(xml):
        return dict(survives=False)
    passed = set()
    for tc in ET.parse(xml).getroot().iter('testcase'):
        if not len([c for c in tc if c.tag in ('failure', 'error', 'skipped')]):
            passed.add(tc.get('classname')+'::'+tc.get('name'))
    miss = [s for s in STABLE if s not in passed and 'qmb' not in s]
    return dict(survives=not miss, miss=miss[:3], npass=len(passed))


def cov():
    """which properties execute which function (run-time layer)"""
    fn = BASE+'/cover.json'
    if not os.path.exists(fn):
        raise SystemExit('run tools/cover.py first')
    return json.load(open(fn))


def check(w, it):
    cv = cov()
    f, name = it['p'][0], it['p'][1].split('.')[-1]
    key = f+':'+name
    ps = cv.get(key)
    order = sorted(ps or [], key=lambda p: (-cv[key][p] if isinstance(cv[key], dict) else 0))
    if not order:
        return dict(caught=None, reason='function not executed by any check')
    noans = []
    for p in order:
        e = dict(env(w), PYTHONPATH='')
        e.pop('PYTHONPATH')
        out = w+'/run.%s.json' % p
        if os.path.exists(out):
            os.remove(out)
        try:
            r = subprocess.run(['/opt/venv/bin/python', 'conc/run.py', p, '--tier', 'quick', '--seed', '1', '--jobs', '1', '--scale', os.environ.get('SCALE', '.5'), '--out', out],
                               cwd=os.environ.get('MUT_VERIF', '/verif'), env=e, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            noans.append(p)
            continue
        if not os.path.exists(out):
            noans.append(p)
            continue
        d = json.load(open(out))
        if d.get('import_error') or d.get('failures'):
            fl = d.get('failures') or []
            return dict(caught=p, by='conc', what=(fl[0]['case']+': '+fl[0]['clause']) if fl else 'import')
    for p in order:
        e = dict(env(w))
        e.pop('PYTHONPATH')
        out = w+'/vc.%s.json' % p
        try:
            r = subprocess.run(['python3-vt', 'vc/prove.py', p, '--tier', 'quick', '--jobs', '1', '--out', out], cwd=os.environ.get('MUT_VERIF', '/verif'), env=e, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            noans.append('vc'+p)
            continue
        if os.path.exists(out):
            d = json.load(open(out))
            if d.get('refuted'):
                return dict(caught=p, by='vc', what=d['refuted'][0]['name'])
            if d.get('undischarged'):
                noans.append('open:'+p+':'+d['undischarged'][0]['name'])
            os.remove(out)
    return dict(caught=False, tried=order, noans=noans)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'gen':
        gen(int(sys.argv[2]), int(sys.argv[3]))
    elif cmd == 'test':
        items = json.load(open(BASE+'/muts.json'))
        def save(done):
            json.dump([dict(id=d['id'], p=d['p']) for d in done if d['res'].get('survives')], open(BASE+'/surv.json', 'w'))
            open(BASE+'/test.progress', 'w').write('%d/%d survivors %d' % (len(done), len(items), sum(bool(d['res'].get('survives')) for d in done)))
        workers(int(sys.argv[2]), items, run_tests, save)
    elif cmd == 'check':
        items = json.load(open(BASE+'/surv.json'))
        if len(sys.argv) > 3:
            items = [i for i in items if i['p'][0] in sys.argv[3:]]
        def save(done):
            json.dump(done, open(BASE+'/res.json', 'w'), indent=0)
        workers(int(sys.argv[2]), items, check, save)
