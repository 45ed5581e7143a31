PROPERTY = 'C10'
NEEDS = 'a centred univariate smooth and files of unequal length whose covariate distributions differ'
BREAKS = 'the identifiability constraint averages over files instead of over observations'
EDITS = [('src/mssm/src/python/formula.py', '''                C += np.sum(matrix_term_v, axis=0).reshape(-1, 1)
''', '''                C += np.mean(matrix_term_v, axis=0).reshape(-1, 1)
''')]
DEMO = '''\
import os, tempfile, numpy as np, pandas as pd
from mssm.models import *
if __name__ == "__main__":
    rng = np.random.default_rng(1)
    x = np.round(np.sort(rng.uniform(0, 1, 60)), 4)
    d = pd.DataFrame({"y": np.round(np.sin(5 * x) + rng.normal(size=60) * 0.2, 4), "x": x})
    with tempfile.TemporaryDirectory() as tmp:
        ps = []
        for k, (a, b) in enumerate([(0, 45), (45, 60)]):
            ps.append(os.path.join(tmp, f"p{k}.csv"))
            d.iloc[a:b].to_csv(ps[-1], index=False)
        F = Formula(lhs("y"), [i(), f(["x"], nk=6)], None, print_warn=False, file_paths=ps, file_loading_nc=1)
        m = GAMM(F, Gaussian())
        m.fit(progress_bar=False, n_cores=1)
    r = GAMM(Formula(lhs("y"), [i(), f(["x"], nk=6)], d, print_warn=False), Gaussian())
    r.fit(progress_bar=False, n_cores=1, method="Chol")
    assert np.allclose(m.coef, r.coef, atol=1e-4), (m.coef.ravel(), r.coef.ravel())
'''
