PROPERTY = 'C25'
NEEDS = 'several series, one of which has no remaining observation, and a Gaussian fit with rho'
BREAKS = 'the log-likelihood correction counts series that have no observation left'
EDITS = [('src/mssm/src/python/utils.py', '''    llc = (n_y - (np.sum(start) if formula.series_id is not None else 1)) * np.log(
''', '''    llc = (n_y - (len(formula.sid) if formula.series_id is not None else 1)) * np.log(
''')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.models import *
rng = np.random.default_rng(1)
s = np.repeat(["a", "b", "c"], 8)
x = rng.uniform(0, 1, 24)
y = x + rng.normal(size=24)
y[8:16] = np.nan
def fit(d):
    m = GAMM(Formula(lhs("y"), [i(), l(["x"])], d, series_id="s", print_warn=False), Gaussian())
    m.fit(rho=0.5, progress_bar=False)
    return m
d = pd.DataFrame({"y": y, "x": x, "s": s})
a, b = fit(d), fit(d[~d.y.isna()].reset_index(drop=True))
assert np.allclose(a.coef, b.coef)
assert abs(a.get_llk() - b.get_llk()) < 1e-8, (a.get_llk(), b.get_llk())
'''
