"""tools/mkseed.py SPEC.py : build seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) in a scratch copy
of /repo: patch applies, stable tests pass, demo passes without and fails with the patch."""
import sys, os, subprocess, shutil, json, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
T = tempfile.mkdtemp(prefix='mkseed', dir='/tmp')
R = T+'/repo'
try:
    subprocess.run(['cp', '-a', '/repo', R], check=True)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
    for f, old, new, *nth in spec['EDITS']:
        p = R+'/'+f
        s = open(p).read()
        parts = s.split(old)
        assert len(parts) > 1 and (len(parts) == 2 or nth), (f, len(parts)-1, old)
        k = (nth[0] if nth else 0)+1
        open(p, 'w').write(old.join(parts[:k])+new+old.join(parts[k:]))
    patch = subprocess.check_output(['git', '-C', R, 'diff'], text=True)
    d = '/verif/seeded/'+spec['ID']
    os.makedirs(d, exist_ok=True)
    demo = spec['DEMO']
    open(d+'/demo.py', 'w').write('import os, sys, warnings\nwarnings.filterwarnings("ignore")\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n'+demo.lstrip('\n'))
    open(d+'/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh', 0o755)
    open(d+'/patch.diff', 'w').write(patch)
    json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d+'/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', d+'/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', d+'/demo.sh'], cwd=R, capture_output=True, text=True)
    # stable tests on the copy
    t = open('/opt/vp/test.sh').read().replace('REPO=/repo', 'REPO=%s' % R).replace('/opt/vp/plugin', R+':/opt/vp/plugin').replace('W=/opt/vp/work', 'W=%s/work' % T)
    open(T+'/test.sh', 'w').write(t)
    os.makedirs(T+'/work', exist_ok=True)
    subprocess.run(['bash', T+'/test.sh', T+'/o.json'], capture_output=True)
    o = json.load(open(T+'/o.json'))
    miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(o['passed'])
    print(spec['ID'], 'demo clean', a.returncode, 'demo patched', b.returncode, (b.stdout+b.stderr).strip().splitlines()[-1:], 'tests lost', sorted(miss)[:3])
    good = a.returncode == 0 and b.returncode != 0 and not miss
    if not good:
        print(a.stderr[-500:], b.stderr[-300:])
        shutil.rmtree(d)
    # does the check see it?
    if good and '--check' in sys.argv:
        for p in [spec['PROP']]:
            c = subprocess.run(['python3-vt', 'check.py', p], cwd='/verif', env=dict(os.environ, XMPS_REPO=R), capture_output=True, text=True)
            print(' check', p, 'rc', c.returncode, [l for l in c.stdout.splitlines() if l.startswith('VIOL') or 'error' in l][:3], c.stdout.splitlines()[-1:])
finally:
    shutil.rmtree(T)
