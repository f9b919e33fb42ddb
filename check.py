"""check.py PROP --tier quick|thorough : decide one property on /repo's current tree.

 1. vc/   deductive layer: contracts over the real source, obligations discharged symbolically   (python3-vt)
 2. conc/ run-time contracts on the real code: cross-check, replay of refutations, bounded stand-in (/opt/venv)

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import sys, os, re, json, time, argparse, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPOPY = '/opt/venv/bin/python'
import props, tiers


def sh(cmd, timeout, **kw):
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0')
    return subprocess.run(cmd, cwd=HERE, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def known_ids(prop):
    out = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('known:') and 'property=%s ' % prop in l:
            out[l.split('id=')[1].split()[0]] = l.split('::', 1)[1].strip()
    return out


def by_clause(names):
    """obligation names without the path, with the number of paths each was discharged on"""
    out = {}
    for n in names:
        n = re.sub(r'/p\d+/', '/', n)
        out[n] = out.get(n, 0)+1
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a.add_argument('--jobs', type=int, default=8)
    a.add_argument('--scale', type=float)
    a.add_argument('--no-vc', action='store_true')
    a = a.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    meta = [p for p in props.P if p['id'] == prop][0]
    work = os.path.join(HERE, 'evidence')
    os.makedirs(work, exist_ok=True)
    rep_dir = os.path.join(work, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    scale = a.scale or tiers.scale(prop, tier)
    quick = tier == 'quick'
    tmo = 330 if quick else 7200

    # ---- deductive layer, started first so that both run side by side
    vc, vcp = None, None
    from tiers import HAS_VC
    vout = os.path.join(work, '.%s.vc.json' % prop)
    if prop in HAS_VC and not a.no_vc:
        if os.path.exists(vout):
            os.remove(vout)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        vcp = subprocess.Popen(['python3-vt', os.path.join(HERE, 'vc', 'prove.py'), prop, '--tier', tier, '--out', vout, '--jobs', str(a.jobs),
                                '--deadline', '220' if quick else '5400'],
                               cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    cout = os.path.join(work, '.%s.conc.json' % prop)
    if os.path.exists(cout):
        os.remove(cout)
    r = sh([REPOPY, 'conc/run.py', prop, '--tier', tier, '--seed', str(a.seed), '--jobs', str(a.jobs), '--scale', str(scale), '--deadline', str(tmo-60),
            '--out', cout], tmo)
    if not os.path.exists(cout):
        print('error: run-time contracts did not finish\n', r.stderr[-2000:])
        sys.exit(2)
    conc = json.load(open(cout))
    os.remove(cout)
    if conc.get('import_error'):
        print('error: the tree cannot be imported\n', conc['import_error'][-2000:])
        sys.exit(2)
    if not conc['cases'] or sum(c['run'] for c in conc['cases'].values()) == 0:
        print('error: no run-time contract was exercised')
        sys.exit(2)
    if vcp is not None:
        try:
            log, _ = vcp.communicate(timeout=tmo)
        except subprocess.TimeoutExpired:
            vcp.kill()
            log = 'timeout'
        if os.path.exists(vout):
            vc = json.load(open(vout))
            os.remove(vout)
        else:
            # no verdict from the deductive layer: nothing of it counts as discharged, the run-time layer still decides what it can
            print('undischarged (tool limit, not a violation): the deductive layer did not finish:', log[-600:])
            vc = {'obligations': 0, 'discharged': 0, 'trusted_base': [], 'functions': [], 'unfinished': True,
                  'undischarged': [{'name': 'all', 'reason': 'the deductive layer did not finish'}]}

    # ---- known findings
    known = known_ids(prop)
    if known:
        r = sh([REPOPY, 'conc/known.py', prop], 300)
        try:
            still = json.loads(r.stdout)
        except Exception:
            still = {}
        for k in known:
            if still.get(k):
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, still[k]))

    # ---- verdict
    violations = []
    fails = conc['failures']
    clauses = {}
    for f in fails:
        clauses.setdefault((f['case'], f['clause']), f)
    for (c, cl), f in sorted(clauses.items()):
        path = os.path.join(rep_dir, '%s-%s-%d.json' % (prop, c, f['idx']))
        json.dump({'kind': 'runtime', 'property': prop, 'case': c, 'idx': f['idx'], 'run_seed': a.seed, 'clause': cl, 'info': f['info'],
                   'input': f['drawn'], 'how': 'python3 replay.py %s' % os.path.relpath(path, HERE)}, open(path, 'w'), indent=1, default=str)
        violations.append((path, '%s: %s: %s' % (c, cl, f['info']), True))
    if vc:
        confirmed = bool(violations)
        for o in vc.get('refuted', []):
            # each refuted obligation carries a replay result obtained on the real code
            path = os.path.join(rep_dir, '%s-ob-%s.json' % (prop, o['name'].replace('/', '_').replace(' ', '_')[:80]))
            o['how'] = 'python3 replay.py %s' % os.path.relpath(path, HERE)
            json.dump(dict(o, kind='obligation', property=prop, run_seed=a.seed, tier=tier, scale=scale,
                           runtime_failures=[{k: f[k] for k in ('case', 'idx', 'clause', 'info')} for f in fails[:5]]), open(path, 'w'), indent=1, default=str)
            violations.append((path, 'obligation %s refuted: %s' % (o['name'], o.get('reason', '')), bool(o.get('witness'))))
    for path, text, wit in violations[:12]:
        print('%s' % text)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if wit else ' no-failing-input-found'))

    # ---- evidence
    runs = sum(c['run'] for c in conc['cases'].values())
    distinct = sum(c['distinct'] for c in conc['cases'].values())
    lv, te, note = props.LEVEL.get(prop, props.DEFAULT)
    cov = {'evaluations': runs, 'distinct_nontrivial': distinct,
           'rule': 'bounded run-time layer: a case is one seeded structured input (drawn parameters listed in samples) run through the real functions; '
                   'distinct = different drawn parameters, cases outside the preconditions are skipped and not counted',
           'samples': [{'case': k, 'input': json.loads(c['sample'][0])} for k, c in sorted(conc['cases'].items()) if c.get('sample')][:8],
           'runtime_contract_clauses_checked': sum(c['checks'] for c in conc['cases'].values()),
           'runtime_cases': {k: {x: c[x] for x in ('run', 'skipped', 'checks', 'failed', 'distinct')} for k, c in sorted(conc['cases'].items())},
           'runtime_scale': scale, 'runtime_wall_s': round(conc['wall'], 2)}
    assumptions = list(tiers.ASSUMPTIONS)
    if vc:
        cov.update({'obligations': vc['obligations'], 'discharged': vc['discharged'],
                    'checker_cmd': 'python3-vt vc/prove.py %s --tier %s' % (prop, tier),
                    'trusted_base': vc['trusted_base'], 'functions_under_contract': vc['functions'],
                    'undischarged': vc.get('undischarged', []), 'back_ends': vc.get('backends', {}), 'solver_s': vc.get('solver_s'),
                    'vacuity': vc.get('vacuity'), 'bounded_obligations': vc.get('bounded', []), 'vc_wall_s': vc.get('wall_s'),
                    'obligations_by_clause': by_clause(vc.get('names', []))})
        assumptions += vc.get('assumptions', [])
        if vc['obligations'] == 0 and not vc.get('unfinished'):
            print('error: no obligation was generated')
            sys.exit(2)
        if vc.get('undischarged'):
            for u in vc['undischarged'][:10]:
                print('undischarged (tool limit, not a violation): %s: %s' % (u['name'], u['reason'][:200]))
        if lv == 'proof' and (vc.get('undischarged') or vc.get('refuted')):
            lv = 'exploration'      # not everything was discharged this time: the run-time layer is all there is for the rest
    json.dump({'property': prop, 'tier': tier, 'seed': a.seed, 'level': lv, 'coverage': cov, 'assumptions': assumptions,
               'wall_s': round(time.time()-t0, 2), 'violations': len(violations)},
              open(os.path.join(work, prop+'.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s %s: %s; %d run-time evaluations, %d clauses%s; %.1f s' % (
        prop, tier, 'VIOLATED' if violations else 'held', runs, cov['runtime_contract_clauses_checked'],
        '; %d/%d obligations discharged' % (vc['discharged'], vc['obligations']) if vc else '', time.time()-t0))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
