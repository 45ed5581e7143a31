PROPERTY = 'C17'
NEEDS = 'three or more means, so that a mean lies strictly between two others'
BREAKS = 'the column of the Hessian for a coefficient of a middle mean is taken from the wrong column of its model matrix'
EDITS = [('src/mssm/src/python/exp_fam.py', 'coef_j_idx = j if parj_idx == 0 else j - par_n_coef[parj_idx - 1]', 'coef_j_idx = j if parj_idx == 0 else (j - par_n_coef[0]) % len(split_coef[parj_idx])')]
DEMO = '''\
import numpy as np, scipy as scp
from mssm.src.python.exp_fam import MultiGauss, Identity
rng = np.random.default_rng(1)
ps = [2, 1, 2]
f = MultiGauss(3, [Identity()] * 3)
Xs = [scp.sparse.csc_array(rng.normal(size=(6, p))) for p in ps]
ys = [rng.normal(size=(6, 1)) for _ in ps]
c = rng.normal(size=(11, 1)) * 0.3
idx = [2, 3, 5]
for j in range(11):
    e = np.zeros((11, 1)); e[j] = 1e-5
    num = (f.gradient(c + e, idx, ys, Xs) - f.gradient(c - e, idx, ys, Xs)) / 2e-5
    got = f.jcolhessian(j, c, idx, ys, Xs)
    assert np.allclose(got, num, atol=1e-4), (j, got.ravel(), num.ravel())
'''
