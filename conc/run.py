"""run.py PROP --tier quick|thorough --seed N [--jobs J] [--case NAME --idx I] -> JSON on stdout"""
import os, sys, json, time, argparse, importlib, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base
from multiprocessing import get_context, TimeoutError


def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])


def work(a):
    prop, ci, seed, idx, hints = a
    c = base.CASES[prop][ci]
    return ci, base.run_case(c, base.seed_of(seed, prop, c.name, idx), hints, idx)


def works(ts):
    return [work(t) for t in ts]


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default='quick')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--case')
    p.add_argument('--idx', type=int)
    p.add_argument('--hints')
    p.add_argument('--out')
    p.add_argument('--scale', type=float, default=1.0)
    p.add_argument('--deadline', type=float, default=1e9)
    a = p.parse_args()
    t0 = time.time()
    try:
        load()
    except Exception as e:      # the tree cannot even be imported
        import traceback
        json.dump({'import_error': traceback.format_exc()}, open(a.out, 'w') if a.out else sys.stdout)
        return
    cases = base.CASES.get(a.prop, [])
    tasks = []
    if a.case:
        ci = [i for i, c in enumerate(cases) if c.name == a.case][0]
        tasks = [(a.prop, ci, a.seed, a.idx, json.loads(a.hints) if a.hints else None)]
    else:
        for ci, c in enumerate(cases):
            n = c.quick if a.tier == 'quick' else c.thorough
            for i in range(max(1, int(n*a.scale))):
                tasks.append((a.prop, ci, a.seed, i, None))
        # interleave the cases so that a slow one spreads over the workers
        tasks.sort(key=lambda t: (t[3], t[1]))
    res = []
    if len(tasks) == 1:
        res = [work(tasks[0])]
    elif tasks:
        with get_context('fork').Pool(a.jobs) as pool:
            it = pool.imap_unordered(works, [tasks[i:i+4] for i in range(0, len(tasks), 4)])
            hung = 0
            while True:
                try:
                    r = it.next(timeout=max(1., a.deadline-(time.time()-t0)))
                except StopIteration:
                    break
                except TimeoutError:        # of time: report what was explored
                    break
                res += r
                hung += sum(x['status'] == 'fail' and x['clause'] == 'returns' for _, x in r)
                if hung >= 4 or time.time()-t0 > a.deadline:
                    break
            pool.terminate()
    out = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'cases': {}, 'failures': [], 'wall': time.time()-t0, 'asked': len(tasks), 'explored': len(res)}
    for ci, r in res:
        d = out['cases'].setdefault(r['case'], {'run': 0, 'skipped': 0, 'checks': 0, 'failed': 0, 'distinct': set(), 't': 0.})
        d['t'] += r['t']
        if r['status'] == 'skip':
            d['skipped'] += 1
            continue
        d['run'] += 1
        d['checks'] += r['checks']
        d['distinct'].add(json.dumps(r['drawn'], sort_keys=True, default=str))
        if r['status'] == 'fail':
            d['failed'] += 1
            out['failures'].append(r)
    for d in out['cases'].values():
        d['sample'] = sorted(d['distinct'])[:1]
        d['distinct'] = len(d['distinct'])
    out['failures'].sort(key=lambda r: (r['case'], r['idx']))
    json.dump(out, open(a.out, 'w') if a.out else sys.stdout, default=str, ensure_ascii=False)


if __name__ == '__main__':
    main()
