PROPERTY = 'C24'
NEEDS = 'comparing two models of a family with estimated theta (scaled t) with the correction for the test (perform_GLRT or correct_t1)'
BREAKS = 'the AIC of the second model does not count the estimated parameters of the family'
EDITS = [('src/mssm/src/python/compare.py', '''            aic_DOF1 += len(model1.family.theta)
            if model2.family.est_theta:
                aic_DOF2 += len(model2.family.theta)
''', '''            aic_DOF1 += len(model1.family.theta)
            if not model1.family.est_theta:
                aic_DOF2 += len(model2.family.theta)
''')]
DEMO = '''\
import numpy as np, pandas as pd, warnings
warnings.simplefilter("ignore")
from mssm.models import *
from mssm.src.python.compare import compare_CDL
rng = np.random.default_rng(3)
n = 300
x, z = rng.uniform(0, 1, (2, n))
d = pd.DataFrame({"y": np.sin(5 * x) + rng.standard_t(5, size=n) * 0.4, "x": x, "z": z})
ms = []
for t in ([i(), f(["x"], nk=6), l(["z"])], [i(), f(["x"], nk=6)]):
    m = GAMM(Formula(lhs("y"), t, d, print_warn=False), ScaledT())
    m.fit(progress_bar=False)
    ms.append(m)
r = compare_CDL(ms[0], ms[1], correct_V=False, correct_t1=True, perform_GLRT=False)
for k, m in enumerate(ms):
    want = -2 * float(np.ravel(m.get_llk(False))[0]) + 2 * (m.edf + 2)
    print(r["aic%d" % (k + 1)], want)
    assert abs(r["aic%d" % (k + 1)] - want) < 1e-3, (k, r, want)
'''
