PROPERTY = 'C11'
NEEDS = 'an array offset together with missing responses that are not the last rows'
BREAKS = 'offsets are cut to the number of remaining observations instead of being matched with them'
EDITS = [('src/mssm/models.py', '''                    offset = offset[self.formulas[0].NOT_NA_flat]
''', '''                    offset = offset[: len(y_flat)]
''')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.models import *
rng = np.random.default_rng(1)
x = rng.uniform(0, 1, 40)
o = rng.normal(size=(40, 1))
y = x + o.ravel() + rng.normal(size=40) * 0.1
y[[3, 17]] = np.nan
d = pd.DataFrame({"y": y, "x": x})
def mod(d, off):
    m = GAMM(Formula(lhs("y"), [i(), l(["x"])], d, print_warn=False), Gaussian())
    m.fit(progress_bar=False, offset=off.copy())
    return m
k = ~np.isnan(y)
a, b = mod(d, o), mod(d[k].reset_index(drop=True), o[k])
assert np.allclose(a.coef, b.coef), (a.coef, b.coef)
'''
