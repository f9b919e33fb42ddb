"""prove.py PROP --tier T --out F --jobs J : discharge the contracts of one property.
   prove.py PROP --only LABEL [-v]         : one contract, verbosely."""
import sys, os, json, time, argparse, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from concurrent.futures import ProcessPoolExecutor, as_completed
import api


def work(prop, label, limit):
    import symc
    k = [x for x in api.load() if x.prop == prop and x.label() == label][0]
    try:
        return symc.run_case(k, limit=limit)
    except Exception as e:
        import traceback
        return {'contract': label, 'prop': prop, 'crash': traceback.format_exc()[-1500:]}


def die_with_parent():
    """workers do not outlive the run that started them"""
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default='quick')
    a.add_argument('--out')
    a.add_argument('--jobs', type=int, default=8)
    a.add_argument('--only')
    a.add_argument('--exact')
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a.add_argument('--limit', type=float, default=150)
    a.add_argument('--deadline', type=float, default=1e6)
    a.add_argument('--draws', type=int, default=3)
    a.add_argument('-v', action='store_true')
    a = a.parse_args()
    t0 = time.time()
    ks = api.of_prop(a.prop, 'thorough' if a.only or a.exact else a.tier)
    if a.exact:
        ks = [k for k in ks if k.label() == a.exact]
    if a.only:
        ks = [k for k in ks if k.label().startswith(a.only) or a.only in k.label()]
    res = []
    ex = ProcessPoolExecutor(a.jobs, initializer=die_with_parent)
    futs = {ex.submit(work, k.prop, k.label(), a.limit): k for k in ks}
    try:
        for f in as_completed(futs, timeout=a.deadline):
            try:
                r = f.result()
            except Exception as e:
                r = {'contract': futs[f].label(), 'prop': a.prop, 'crash': repr(e)}
            res.append(r)
    except TimeoutError:
        have = {r['contract'] for r in res}
        for k in ks:
            if k.label() not in have:
                res.append({'contract': k.label(), 'prop': a.prop, 'crash': 'not decided within %d s' % a.deadline})
        for p in list(ex._processes.values()):
            p.kill()
    ex.shutdown(wait=False, cancel_futures=True)
    # the same contracts on the real code: cross-check, and replay of what failed
    jobs = []
    for r in res:
        bad = [o for o in r.get('obligations', []) if not o['ok']]
        dims = []
        for o in bad:
            if o.get('dims') and o['dims'] not in dims:
                dims.append(o['dims'])
        jobs.append({'prop': a.prop, 'label': r['contract'], 'seed': a.seed, 'draws': (a.draws if not bad else 8)*(4 if 'any length' in r['contract'] else 1), 'dims': dims[:6]})
    num = numeric(jobs, 90 if a.deadline < 1000 else 900)
    byl = {}
    for n in num or []:
        byl[n['label']] = n
    obs = [dict(o, contract=r['contract'], bounded=r.get('bounded')) for r in res for o in r.get('obligations', [])]
    undis, ref, names, bounded = [], [], [], []
    for r in res:
        if 'crash' in r:
            undis.append({'name': r['contract'], 'reason': 'engine error: '+r['crash'][-300:]})
            r['obligations'] = []
        elif not r['obligations']:
            undis.append({'name': r['contract'], 'reason': 'no obligation was generated'})
        for u in r.get('unsupported', []):
            undis.append({'name': r['contract'], 'reason': u})
    seen = set()
    for o in obs:
        names.append(o['name'])
        if o['bounded']:
            bounded.append(o['name'])
        if o['ok']:
            continue
        wit = [f for f in byl.get(o['contract'], {}).get('failed', []) if f['clause'] == o['clause'] or o['clause'] == 'no error']
        if wit:
            ref.append({'name': o['name'], 'contract': o['contract'], 'clause': o['clause'], 'reason': o['detail'], 'path': o['path'], 'witness': wit[0]})
            seen.add((o['contract'], o['clause']))
        elif o.get('data') and o['clause'] != 'no error' and 'any length' not in o['contract'] and EXACT not in o['path']:
            # refuted on a path the data decide: the replay cannot be steered there.  (An invariant that no longer describes a
            # loop is no alarm by itself: the contract's clauses have been replayed over many lengths.  Neither is an exception
            # the engine raised, nor a path on which two computed numbers are exactly equal: the preconditions that exclude
            # it, such as full rank, may be ones the engine has not used.)
            ref.append({'name': o['name'], 'contract': o['contract'], 'clause': o['clause'], 'reason': '%s [path: %s]' % (o['detail'], '; '.join(o['path'])), 'path': o['path'], 'witness': None})
            seen.add((o['contract'], o['clause']))
        else:
            undis.append({'name': o['name'], 'reason': '%s [path: %s]' % (o['detail'], '; '.join(o['path']))})
    # numerically false although not refuted symbolically (or on a path that was not explored)
    for l, n in sorted(byl.items()):
        for f in n['failed']:
            if (l, f['clause']) not in seen:
                seen.add((l, f['clause']))
                ref.append({'name': '%s/%s/numeric/%s' % (a.prop, l, f['clause']), 'contract': l, 'clause': f['clause'],
                            'reason': 'false on the real code: '+f['detail'], 'path': [], 'witness': f})
    # report each contract clause once
    short, done = [], set()
    for o in ref:
        if (o['contract'], o['clause']) not in done:
            done.add((o['contract'], o['clause']))
            short.append(o)
    rules = {}
    for r in res:
        for k, n in r.get('rules', {}).items():
            rules[k] = rules.get(k, 0)+n
    fns = sorted({f for r in res for f in r.get('functions', [])})
    out = {'obligations': len(obs), 'discharged': sum(1 for o in obs if o['ok']), 'names': names, 'bounded': sorted({'%s (bounded: %s)' % (r['contract'], r['bounded']) for r in res if r.get('bounded')}),
           'unbounded_contracts': sorted(r['contract'] for r in res if not r.get('bounded')),
           'functions': fns, 'undischarged': undis, 'refuted': short,
           'trusted_base': ['vc/sym.py, vc/dims.py, vc/shim.py: the symbolic tensor kernel and its contracts of numpy / scipy (%s)' % ', '.join(sorted({f for r in res for f in r.get('np', [])})),
                            'z3 (dimension conditions)', 'CPython executing the unmodified source'],
           'backends': {'tensor-network normal form': sum(1 for o in obs if o['ok']), 'z3 queries': sum(r.get('queries', 0) for r in res)},
           'solver_s': round(sum(r.get('solver_s', 0) for r in res), 2), 'rules_used': rules,
           'vacuity': {'paths': sum(r.get('paths', 0) for r in res), 'equations with a non-zero left side': sum(r.get('nonzero', 0) for r in res),
                       'numeric cross-check': {'runs': sum(n['ran'] for n in num or []), 'clauses': sum(n['clauses'] for n in num or [])}},
           'assumptions': sorted({x for r in res for x in r.get('assumed', [])}), 'wall_s': round(time.time()-t0, 2)}
    if a.out:
        json.dump(out, open(a.out, 'w'))
    print('%s: %d/%d obligations, %d refuted, %d undischarged, %.1f s' % (a.prop, out['discharged'], out['obligations'], len(short), len(undis), out['wall_s']))
    if a.v or not a.out:
        for r in sorted(res, key=lambda r: r['contract']):
            print('  %-45s %3d/%-3d paths %d  %.1fs' % (r['contract'], sum(o['ok'] for o in r['obligations']), len(r['obligations']), r.get('paths', 0), r.get('wall', 0)))
        for o in short:
            print('  REFUTED', o['name'], o['reason'][:200], '| witness', o['witness'])
        for o in undis:
            print('  open', o['name'], o['reason'][:500])
    sys.exit(1 if short else 0)


EXACT = 'equality of symbolic scalars = True'


def numeric(jobs, limit=900):
    if not jobs:
        return []
    t0 = time.time()
    n = min(8, len(jobs))
    chunks = [jobs[i::n] for i in range(n)]
    ps = []
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    for ch in chunks:
        d = tempfile.mkdtemp(prefix='xv')
        fi, fo = os.path.join(d, 'in'), os.path.join(d, 'out')
        json.dump(ch, open(fi, 'w'))
        ps.append((d, fi, fo, subprocess.Popen(['/opt/venv/bin/python', os.path.join(HERE, 'numc.py'), fi, fo], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)))
    out = []
    for d, fi, fo, p in ps:
        try:
            log, _ = p.communicate(timeout=max(5, limit-(time.time()-t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            log = 'timeout'
        if os.path.exists(fo):
            out += json.load(open(fo))
        else:
            print('numeric replay failed:', log[-1500:])
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == '__main__':
    main()
