PROPERTY = 'C09'
NEEDS = 'predict_diff for an earlier parameter of a model with several formulas'
BREAKS = 'the interval of a predicted difference ignores part of the covariance of the coefficients of that parameter'
EDITS = [('src/mssm/models.py', """            lvi = self.lvi[:, split_idx]
        else:
            coef = self.coef.flatten()
            lvi = self.lvi

        # Predicted difference
""", """            lvi = self.lvi[split_idx, :][:, split_idx]
        else:
            coef = self.coef.flatten()
            lvi = self.lvi

        # Predicted difference
""")]
DEMO = '''\
import numpy as np, pandas as pd, scipy as scp
from mssm.models import GAMMLSS, Formula, lhs, i, f, l, GAUMLSS, Identity, LOGb
rng = np.random.default_rng(1)
n = 200
d = pd.DataFrame(dict(y=rng.normal(size=n), x=rng.uniform(size=n)))
m = GAMMLSS([Formula(lhs("y"), [i(), f(["x"], nk=5)], data=d, print_warn=False), Formula(lhs("y"), [i(), l(["x"])], data=d, print_warn=False)], GAUMLSS([Identity(), LOGb(-0.01)]))
p = 6 + 2
m.coef = rng.normal(size=(p, 1)); m.coef_split_idx = [6]
L = np.tril(rng.normal(size=(p, p)))
m.lvi = scp.sparse.csc_array(L)
V = L.T @ L
a, b = d.iloc[:5], d.iloc[5:10]
for par, idx in ((0, range(6)), (1, range(6, 8))):
    D = (m.predict(None, a, par=par)[1] - m.predict(None, b, par=par)[1]).toarray()
    want = 1.959963984540054 * np.sqrt(np.diag(D @ V[np.ix_(list(idx), list(idx))] @ D.T))
    got = m.predict_diff(a, b, None, par=par)[1]
    assert np.allclose(got, want, rtol=1e-8), (par, got, want)
'''
