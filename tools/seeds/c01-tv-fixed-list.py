PROPERTY = 'C01'
NEEDS = 'a time-varying duration model (tvdtpi) with a maximum duration D>2: the normalisation of the duration distribution only shows when durations are truncated'
BREAKS = "duration probabilities of time-varying models are normalised with the first sample's constant, so the likelihood is no longer the sum over segmentations with durations normalised to one"
EDITS = [('src/mssm/src/python/hsmm.py', '            ds[:, j, :] /= np.sum(ds[:, j, :], axis=0)[None, :]\n\n            if log', '            ds[:, j, :] /= np.sum(ds[:, j, 0])\n\n            if log')]
HELPERS = []
DEMO = '''\
import numpy as np, scipy as scp
from mssm.src.python.hsmm import HSMMFamily
from mssm.src.python.exp_fam import GAUMLSS, GAMMALS, Identity, LOG, LOGb
N, nS, D = 6, 2, 4
r = np.random.default_rng(1)
y = r.normal(size=(N, 1))
one = scp.sparse.csc_array(np.ones((N, 1)))
xt = scp.sparse.csc_array(np.column_stack([np.ones(N), np.linspace(0, 2, N)]))
obs = [[GAUMLSS([Identity(), LOGb(-0.0001)])] for _ in range(nS)]
dur = [GAMMALS([LOG(), LOGb(-0.0001)]) for _ in range(nS)]
Xs = [one] * 4 + [xt, one] * nS
coef = [[-0.5], [0.1], [0.5], [0.2], [0.2, 0.6], [-1.0], [0.4, -0.3], [-0.5]]
split = list(np.cumsum([len(c) for c in coef])[:-1])
coef = np.concatenate(coef).reshape(-1, 1)
T = np.stack([np.array([[0.0, 1.0], [1.0, 0.0]])] * N, axis=2)
fam = HSMMFamily(8, [Identity()] * 8, nS, obs, dur, np.array([0]), None, D, 1, True, False, False, n_cores=1, build_mat_idx=list(range(8)), T=np.asfortranarray(T), pi=np.array([0.4, 0.6]), tvdtpi=True)
bs, ds = fam.compute_od_probs(coef, split, [y] * 8, Xs, log=False)[0]
s = np.asarray(ds).sum(axis=0)
assert np.allclose(s, 1), s
'''
