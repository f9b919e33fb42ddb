"""how much of the bounded run-time layer each tier runs"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vc'))
import api
HAS_VC = {k.prop for k in api.load()}
QUICK = {'C11': 6, 'C12': 6, 'C20': 30, 'C24': 20, 'C26': 25}
ASSUMPTIONS = ['floating point arithmetic is compared with exact linear algebra up to tolerances of 1e-7..1e-10 relative to the state norm',
               'numpy, scipy and LAPACK meet their documented contracts']


def scale(prop, tier):
    q = QUICK.get(prop, 40)
    return q if tier == 'quick' else q*10
