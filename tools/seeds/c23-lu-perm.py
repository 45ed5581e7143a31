PROPERTY = 'C23'
NEEDS = 'a redundant general smooth model fitted with method="LU/Chol" whose column ordering differs from the identity'
BREAKS = 'the approximate null vector is permuted the wrong way round, so the wrong coefficients are dropped'
EDITS = [('src/mssm/src/python/gamm_solvers.py', '''            wk = (vh @ P.T).T
''', '''            wk = (vh @ P).T
''')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.models import *
rng = np.random.default_rng(3)
n = 120
x, z = rng.uniform(0, 1, n), rng.uniform(0, 1, n)
f = rng.choice(["a", "b", "c", "d"], n)
y = np.sin(4 * x) + (f == "b") + rng.normal(size=n) * 0.4
d = pd.DataFrame({"y": y, "x": x, "x2": 2 * x + 0.5, "z": z, "f": f, "g": pd.Series(f).map({"a": "u", "b": "v", "c": "w", "d": "t"})})
def fit(terms, **kw):
    m = GAMMLSS([Formula(lhs("y"), terms, d, print_warn=False), Formula(lhs("y"), [i()], d, print_warn=False)], GAUMLSS([Identity(), LOG()]))
    m.fit(progress_bar=False, n_cores=1, **kw)
    return m
import mssm.models as M
sm = M.f
for full, red in (([i(), l(["x2"]), l(["f"]), sm(["z"], nk=6), sm(["x"], nk=7), l(["z"])], [i(), l(["f"]), sm(["z"], nk=6), sm(["x"], nk=7)]),
                  ([i(), sm(["x"], nk=7), l(["x2"]), l(["f"])], [i(), sm(["x"], nk=7), l(["f"])])):
    m, r = fit(full, method="LU/Chol"), fit(red)
    nd = 0 if m.info.dropped is None else len(m.info.dropped)
    assert nd <= len(m.coef) - len(r.coef), (m.info.dropped, len(m.coef), len(r.coef))
    assert np.allclose(m.preds[0], r.preds[0], atol=0.01, rtol=0.01), np.abs(m.preds[0] - r.preds[0]).max()
'''
