PROPERTY = 'C22'
NEEDS = 'two or more chains and an adaptation phase'
BREAKS = 'after adaptation the chains run with the last trial step sizes of dual averaging instead of the averaged iterates'
EDITS = [('src/mssm/src/python/mcmc.py', '            epsilons[chain] = return_dict[chain][2]\n            epsilonbars[chain] = return_dict[chain][3]\n', '            epsilonbars[chain] = epsilons[chain] if iter + steps < M_adapt else return_dict[chain][3]\n            epsilons[chain] = return_dict[chain][2]\n')]
DEMO = '''\
import numpy as np, pandas as pd, warnings, mcmc
warnings.simplefilter("ignore")
from mssm.models import *
from mssm.src.python.mcmc import sample_mssm
rng = np.random.default_rng(3)
n = 100
x = rng.uniform(0, 1, n)
d = pd.DataFrame({"y": rng.poisson(3, n).astype(float), "x": x})
m = GAMM(Formula(lhs("y"), [i(), l(["x"])], d, print_warn=False), Poisson())
m.fit(progress_bar=False)
log = []
mcmc.find_reasonable_epsilon = lambda *a: 0.2
def adv(seed, m_, A, steps, cL, om, r, c, nz, a, b, e, eps, epsbar, Hbar, *rest):
    log.append((m_, eps, epsbar))
    k = len(log)
    return np.zeros(steps), np.repeat(np.asarray(om), steps, axis=1), 0.5 + 0.01 * k, 0.1 + 0.001 * k, 0.0
mcmc.advance_chain = adv
sample_mssm(m, n_iter=4, M_adapt=6, n_steps=3, n_chains=2, parallelize_chains=False, progress_bar=False, auto_converge=False)
ad = [x for x in log if x[0] == 3]
assert np.allclose([x[2] for x in ad], [0.101, 0.102]), log
assert np.allclose([x[1] for x in ad], [0.51, 0.52]), log
'''
