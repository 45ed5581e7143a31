PROPERTY = 'C06'
NEEDS = 'a model whose first state may have been ongoing (starts_with_first=False) that returns to a state'
BREAKS = 'simulated stays after the first one are drawn from the first-stay duration distribution'
EDITS = [('src/mssm/src/python/hsmm.py', '                                    else ds[\n                                        :, (state if starts_with_first else state + n_S)\n                                    ]', '                                    else ds[:, state]')]
HELPERS = []
DEMO = '''\
import numpy as np, scipy as scp
from mssm.src.python.hsmm import HSMMFamily
from mssm.src.python.exp_fam import GAUMLSS, GAMMALS, Identity, LOG, LOGb
N, nS, D = 40, 2, 12
y = np.zeros((N, 1))
one = scp.sparse.csc_array(np.ones((N, 1)))
o1 = scp.sparse.csc_array(np.ones((1, 1)))
obs = [[GAUMLSS([Identity(), LOGb(-0.0001)])] for _ in range(nS)]
dur = [GAMMALS([LOG(), LOGb(-0.0001)]) for _ in range(2 * nS)]
coef = [[-0.5], [0.1], [0.5], [0.2]] + [[np.log(1.2)], [-4.0]] * 2 + [[np.log(8.0)], [-6.0]] * 2
split = list(np.cumsum([len(c) for c in coef])[:-1])
coef = np.array(coef).reshape(-1, 1)
n = len(split) + 1
fam = HSMMFamily(n, [Identity()] * n, nS, obs, dur, np.array([0]), np.array([0]), D, 1, False, False, False, n_cores=1, build_mat_idx=list(range(n)), T=np.array([[0.0, 1.0], [1.0, 0.0]]), pi=np.array([0.5, 0.5]))
out = fam.predict(coef, split, [y] * 4 + [np.zeros((1, 1))] * 8, [one] * 4 + [o1] * 8, n_samples=3, seed=1)
for k in range(3):
    s = out[0][1][:, k]
    runs = np.diff(np.concatenate(([0], np.flatnonzero(np.diff(s)) + 1, [N])))
    assert runs[1] > 5, runs
'''
