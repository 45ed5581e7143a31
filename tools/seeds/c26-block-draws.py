PROPERTY = 'C26'
NEEDS = 'a model with several parameters whose estimates are correlated'
BREAKS = 'draws for one distribution parameter use only the square block of the factor, i.e. not the marginal posterior of its coefficients'
EDITS = [('src/mssm/models.py', '''            coef = np.ndarray.flatten(split_coef[par])
            lvi = self.lvi[:, split_idx]
        else:
            coef = self.coef.flatten()
            lvi = self.lvi

        # Now sample
        if deviations:
''', '''            coef = np.ndarray.flatten(split_coef[par])
            lvi = self.lvi[split_idx, :][:, split_idx]
        else:
            coef = self.coef.flatten()
            lvi = self.lvi

        # Now sample
        if deviations:
''')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.models import *
rng = np.random.default_rng(1)
n = 120
x = rng.uniform(0, 1, n)
e = rng.multivariate_normal([0, 0], [[1, 0.8], [0.8, 1]], n)
d = pd.DataFrame({"a": x + e[:, 0], "b": 1 - x + e[:, 1], "x": x})
m = GSMM([Formula(lhs("a"), [i(), l(["x"])], d), Formula(lhs("b"), [i(), l(["x"])], d)], MultiGauss(2, [Identity(), Identity()]))
m.fit(progress_bar=False)
V = np.linalg.inv(-m.hessian.toarray())
for par in (0, 1):
    dr = m.sample_post(20000, deviations=True, seed=1, par=par)
    C = np.cov(dr)
    W = V[2 * par:2 * par + 2, 2 * par:2 * par + 2]
    assert np.allclose(C, W, rtol=0.06, atol=0.02 * W.max()), (par, C, W)
'''
