PROPERTY = 'C02'
NEEDS = 'a model with estimated, time-varying transition probabilities (tvdtpi, n_S>2) whose covariates change over time, at a coefficient of the transition model'
BREAKS = 'the derivative of time-varying transition probabilities is taken at the sample entered instead of the sample left'
EDITS = [('src/mssm/src/cpp/hsmm/llk.cpp', '((tvdtpi) ? T_grad(tidx,ci,t-1): T_grad(tidx,ci));\n                                    }\n                                }\n\n                                // Done:', '((tvdtpi) ? T_grad(tidx,ci,t): T_grad(tidx,ci));\n                                    }\n                                }\n\n                                // Done:')]
HELPERS = []
DEMO = '''\
import numpy as np, scipy as scp
from mssm.src.python.hsmm import HSMMFamily
from mssm.src.python.exp_fam import GAUMLSS, GAMMALS, Identity, LOG, LOGb
N, nS, D = 6, 3, 4
r = np.random.default_rng(1)
y = r.normal(size=(N, 1))
one = np.ones((N, 1))
x = np.column_stack([np.ones(N), r.normal(size=N)])
obs = [[GAUMLSS([Identity(), LOGb(-0.0001)])] for _ in range(nS)]
dur = [GAMMALS([LOG(), LOGb(-0.0001)]) for _ in range(nS)]
Xd = [one] * (2 * nS) + [x, one] * nS + [x] * (nS * (nS - 2)) + [one] * (nS - 1)
Xs = [scp.sparse.csc_array(X) for X in Xd]
cs = [r.uniform(-0.5, 0.5, X.shape[1]) for X in Xd]
split = list(np.cumsum([len(c) for c in cs])[:-1])
coef = np.concatenate(cs).reshape(-1, 1)
n = len(Xs)
fam = HSMMFamily(n, [Identity()] * n, nS, obs, dur, np.array([0]), None, D, 1, True, False, False, n_cores=1, build_mat_idx=list(range(n)), tvdtpi=True)
ys = [y] * n
g = fam.gradient(coef, split, ys, Xs).ravel()
f = lambda c: fam.llk(c.reshape(-1, 1), split, ys, Xs)
h = 1e-5
num = np.array([(f(coef.ravel() + h * e) - f(coef.ravel() - h * e)) / (2 * h) for e in np.eye(len(coef))])
assert np.max(np.abs(num - g)) < 1e-6, np.abs(num - g).max()
'''
