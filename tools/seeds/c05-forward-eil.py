PROPERTY = 'C05'
NEEDS = 'ends_in_last without ends_with_last, last sample of a series'
BREAKS = "the last forward residual also counts paths that end in other states than the last one, so it is no longer the conditional distribution function under the likelihood's paths"
EDITS = [('src/mssm/src/cpp/hsmm/resid.cpp', '                    if (t < (n_T - 1) || ends_in_last == false)\n                    {\n                        Lam(t) += lam(t,d,j);\n                        for (size_t m = 0; m < M; m++)\n                        {\n                            resid(t,m) += clam(t,m,d,j);\n                        }\n                        ', '                    if (t < n_T || ends_in_last == false)\n                    {\n                        Lam(t) += lam(t,d,j);\n                        for (size_t m = 0; m < M; m++)\n                        {\n                            resid(t,m) += clam(t,m,d,j);\n                        }\n                        ')]
HELPERS = ['brute.py']
DEMO = '''\
import numpy as np, hsmm, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from brute import segmentations, prob, model
n_T, n_S, D = 4, 3, 3
bs, ds, T, pi = model(3, n_T, n_S, D, True, False)
cb = np.random.default_rng(5).uniform(0.1, 0.9, (n_T, n_S, 1))
got = np.asarray(hsmm.forward_resid(np.asfortranarray(cb), bs, ds, T, pi, np.zeros(1), 1.0, n_T, D, n_S, 1, 0, True, False, True, 0, False))
num = den = 0.0
for s in segmentations(n_T, n_S, D, False, True):
    b2 = bs.copy(); b2[n_T - 1] = cb[n_T - 1, :, 0]
    num += prob(s, b2, ds, T, pi, n_T, n_S, True, False)
for s in segmentations(n_T - 1, n_S, D, False, False):
    den += prob(s, bs, ds, T, pi, n_T - 1, n_S, True, False)
assert abs(got[-1, 0] - num / den) < 1e-9, (got[-1, 0], num / den)
'''
