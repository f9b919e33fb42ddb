"""which functions of the repository each property's run-time contracts execute -> /tmp/mut/cover.json"""
import sys, os, json, subprocess
if len(sys.argv) > 1:
    sys.path.insert(0, '/verif/conc')
    import run, base
    run.load()
    cnt = {}
    def prof(frame, ev, arg):
        if ev == 'call':
            f = frame.f_code.co_filename
            if '/xmps/' in f:
                k = 'xmps/'+f.split('/xmps/', 1)[1]+':'+frame.f_code.co_name
                cnt[k] = cnt.get(k, 0)+1
    for ci, c in enumerate(base.CASES.get(sys.argv[1], [])):
        for i in range(max(2, min(10, c.quick//6))):
            sys.setprofile(prof)
            try:
                run.work((sys.argv[1], ci, 1, i, None))
            finally:
                sys.setprofile(None)
    json.dump(cnt, open('/tmp/mut/cov.%s.json' % sys.argv[1], 'w'))
else:
    ps = ['C%02d' % i for i in range(1, 27)]
    env = dict(os.environ, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    run = [subprocess.Popen(['/opt/venv/bin/python', '-W', 'ignore', __file__, p], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for p in ps]
    [r.wait() for r in run]
    out = {}
    for p in ps:
        c = json.load(open('/tmp/mut/cov.%s.json' % p))
        t = sum(c.values()) or 1
        for k, v in c.items():
            out.setdefault(k, {})[p] = v/t
    json.dump(out, open('/tmp/mut/cover.json', 'w'))
    print(len(out))
