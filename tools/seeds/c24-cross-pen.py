PROPERTY = 'C24'
NEEDS = 'a term with more than one penalty on the same coefficients (tensor product, penalised null-space) in a model of a one-parameter dispersion family'
BREAKS = 'the covariance of the log smoothing parameters ignores that penalties of one term share the log-determinant of their sum'
EDITS = [('src/mssm/src/python/utils.py', '''            if gamma or (penalties[peni].start_index == penalties[penj].start_index):
                t3 = (''', '''            if gamma:
                t3 = (''')]
DEMO = '''\
import numpy as np, pandas as pd, warnings
warnings.simplefilter("ignore")
from mssm.models import *
from mssm.src.python.utils import estimateVp
rng = np.random.default_rng(3)
n = 400
x, z = rng.uniform(0, 1, (2, n))
d = pd.DataFrame({"y": np.sin(5 * x) * (0.3 + np.cos(4 * z)) + rng.normal(size=n) * 0.3, "x": x, "z": z})
m = GAMM(Formula(lhs("y"), [i(), f(["x", "z"], te=True, nk=5)], d, print_warn=False), Gaussian())
m.fit(progress_bar=False)
a = estimateVp(m, n_c=1, grid_type="JJJ1", Vp_fidiff=False)[0]
b = estimateVp(m, n_c=1, grid_type="JJJ1", Vp_fidiff=True)[0]
print([p.lam for p in m.overall_penalties], a, b)
assert np.abs(a - b).max() < 0.05 * np.abs(b).max(), (a, b)
'''
