PROPERTY = 'C21'
NEEDS = 'more accepted secant pairs than the memory holds'
BREAKS = 'when the oldest pair is evicted the curvature of the newest one is dropped instead, so later compact representations combine pairs with the wrong curvatures'
EDITS = [('src/mssm/src/python/gamm_solvers.py', '            rhos = np.delete(rhos, 0)\n', '            rhos = rhos[:maxcor]\n')]
DEMO = '''\
import numpy as np
from mssm.src.python.gamm_solvers import update_ys_qefs
A = np.diag([1.0, 2.0, 3.0])
y, s, r = np.array([]), np.array([]), np.array([])
for k in range(4):
    st = np.array([[1.0], [0.3 * k], [0.1 - 0.2 * k * k]])
    g = np.zeros((3, 1))
    y, s, r, om, skip = update_ys_qefs(None, None, None, y, s, r, g, -(A @ st) + 0.05 * k * np.eye(3)[:, [0]], st, 1.0, False, 2)
    assert np.allclose(r, 1 / np.einsum("ij,ij->i", s, y)), (r, s, y)
'''
