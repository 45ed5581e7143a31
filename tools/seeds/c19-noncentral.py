PROPERTY = 'C19'
NEEDS = 'a non-zero non-centrality parameter'
BREAKS = 'the damping of the integrand by the non-centrality is too weak, so the distribution function of non-central mixtures is off'
EDITS = [('src/mssm/src/cpp/davies.cpp', 'sum3 = sum3 - 0.5 * x * y;', 'sum3 = sum3 - 0.25 * x * y;')]
DEMO = '''\
import numpy as np, davies
from scipy.stats import ncx2, chi2
q, f, _ = davies.daviesQF(np.array([1.0]), np.array([4.0]), np.array([3], dtype=np.int32), 6.0, 0.0, 1e-5, 1, 100000)
assert f == 0 and abs(q - ncx2.cdf(6.0, 3, 4.0)) < 1e-4, (q, ncx2.cdf(6.0, 3, 4.0))
q, f, _ = davies.daviesQF(np.array([1.0]), np.array([0.0]), np.array([3], dtype=np.int32), 6.0, 0.0, 1e-5, 1, 100000)
assert f == 0 and abs(q - chi2.cdf(6.0, 3)) < 1e-4
'''
