"""Reproducers of the recorded (unrepaired) findings: id -> (property, function returning text when it still fails)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from base import *


def null_directions():
    from xmps.fMPS import fMPS
    hit = []
    for seed in (26, 209, 609, 718, 875, 954, 1171, 1182, 2268):
        r = np.random.default_rng(seed)
        L = int(r.integers(2, 5))
        b = [1]+[int(r.integers(1, 4)) for _ in range(L-1)]+[1]
        As = [r.integers(-1, 2, size=(2, b[i], b[i+1])).astype(float) for i in range(L)]
        for left in (True, False):
            m = fMPS([a.copy() for a in As])
            m.left_canonicalise() if left else m.right_canonicalise()
            for A in m.data:
                e = left_iso(A) if left else right_iso(A)
                if np.abs(e-np.eye(len(e))).max() > 1e-3:
                    hit.append('integer chain rng(%d) bonds %s %s' % (seed, b, 'left' if left else 'right'))
                    break
    return '%d of 9 listed rank-deficient chains are isometric only on directions of non-zero weight, e.g. %s' % (len(hit), hit[0]) if hit else None


KNOWN = {'null-directions': ('C02', null_directions)}

if __name__ == '__main__':
    import json
    out = {}
    for k, (p, f) in KNOWN.items():
        if p == sys.argv[1]:
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                try:
                    out[k] = f()
                except Exception as e:
                    out[k] = 'raises %r' % e
    print(json.dumps(out))
