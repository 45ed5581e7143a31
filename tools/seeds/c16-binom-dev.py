PROPERTY = 'C16'
NEEDS = 'observed proportions of exactly zero or one'
BREAKS = 'both parts of a deviance component are dropped when only one of them is undefined, so proportions of zero or one contribute nothing'
EDITS = [('src/mssm/src/python/exp_fam.py', '''        ratio1[np.isinf(ratio1) | np.isnan(ratio1)] = 0
        ratio2[np.isinf(ratio2) | np.isnan(ratio2)] = 0
''', '''        undefined = ~(np.isfinite(ratio1) & np.isfinite(ratio2))
        ratio1[undefined] = 0
        ratio2[undefined] = 0
''')]
DEMO = '''\
import numpy as np
from mssm.src.python.exp_fam import Binomial
f = Binomial(n=4)
y = np.array([[0.0], [0.5], [1.0]])
mu = np.array([[0.3], [0.4], [0.6]])
sat = np.array([0.0, f.lp(y[[1]], y[[1]])[0, 0], 0.0])
want = 2 * (sat.sum() - f.llk(y, mu))
assert abs(f.deviance(y, mu) - want) < 1e-8, (f.deviance(y, mu), want)
'''
