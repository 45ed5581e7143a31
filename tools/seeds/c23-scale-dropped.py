PROPERTY = 'C23'
NEEDS = 'a family with estimated scale and a log link, and observations whose fitted mean underflows to zero so that they leave the working model'
BREAKS = 'the scale estimate divides by all observations instead of the ones that took part'
EDITS = [('src/mssm/src/python/gamm_solvers.py', '''        scale = est_scale(wres, rowsX - dropped, total_edf)
    else:
        scale = family.scale

    return wres, InvCholXXS, total_edf, term_edfs, Bs, scale
''', '''        scale = est_scale(wres, rowsX, total_edf)
    else:
        scale = family.scale

    return wres, InvCholXXS, total_edf, term_edfs, Bs, scale
''')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.models import *
rng = np.random.default_rng(3)
x = rng.uniform(-1, 1, 40)
y = np.exp(0.5 + 0.8 * x) + rng.normal(size=40) * 0.2
x[:8] = -9000.0 - np.arange(8)
y[:8] = 0.0
d = pd.DataFrame({"y": y, "x": x})
m = GAMM(Formula(lhs("y"), [i(), l(["x"])], d, print_warn=False), Gaussian(LOG()))
m.fit(progress_bar=False)
mu = m.mus[0].ravel()
ok = mu > 0
assert ok.sum() == 32, ok.sum()
want = np.sum((y - mu)[ok] ** 2) / (ok.sum() - 2)
assert abs(m.scale / want - 1) < 1e-3, (m.scale, want)
'''
