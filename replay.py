"""replay.py FILE : run the recorded failing input (or obligation) again on /repo's current tree"""
import sys, json, subprocess, os, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
if r['kind'] == 'runtime':
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(['/opt/venv/bin/python', os.path.join(HERE, 'conc', 'run.py'), r['property'], '--seed', str(r['run_seed']),
                               '--case', r['case'], '--idx', str(r['idx']), '--out', t+'/o'], cwd=HERE, stdout=subprocess.DEVNULL)
        f = json.load(open(t+'/o'))['failures']
    print(json.dumps(f, indent=1))
    sys.exit(1 if f else 0)
p = subprocess.run(['python3-vt', os.path.join(HERE, 'vc', 'prove.py'), r['property'], '--exact', r['contract'], '--seed', str(r.get('run_seed', 1))], cwd=HERE)
sys.exit(p.returncode)
