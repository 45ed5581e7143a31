PROPERTY = 'C22'
NEEDS = 'sampling the smoothing parameters (sample_rho) together with the coefficients under the vague priors (make_proper)'
BREAKS = 'the gradient handed to the sampler is not the gradient of the density: the vague priors are missing from it'
EDITS = [('src/mssm/src/python/mcmc.py', '''            # Adjust penalty matrix for proper prior
            if make_proper:
                S_embr += S_f_emb

            pgrad''', '''            # Adjust penalty matrix for proper prior
            if make_proper and n_lam == 0:
                S_embr += S_f_emb

            pgrad''')]
DEMO = '''\
import numpy as np, pandas as pd, warnings, mcmc
warnings.simplefilter("ignore")
from mssm.models import *
from mssm.src.python.mcmc import sample_mssm
rng = np.random.default_rng(3)
n = 200
x, z = rng.uniform(0, 1, (2, n))
d = pd.DataFrame({"y": rng.poisson(np.exp(1 + np.sin(5 * x))).astype(float), "x": x, "z": z})
m = GAMM(Formula(lhs("y"), [i(), f(["x"], nk=6), l(["z"])], d, print_warn=False), Poisson())
m.fit(progress_bar=False)
class Stop(Exception): pass
box = []
def fake(omega, g, r, c, nz, a, b, e, cL, llk, grad, rs, seed):
    box.append((omega, llk, grad))
    raise Stop
mcmc.find_reasonable_epsilon = fake
try:
    sample_mssm(m, n_chains=1, parallelize_chains=False, progress_bar=False, sample_rho=True, lambda_0=0.5)
except Stop:
    pass
w, llk, grad = box[0]
w = np.asarray(w, dtype=float)
g = np.ravel(grad(w))
for k in range(len(w)):
    a, b = w.copy(), w.copy()
    a[k] += 1e-5
    b[k] -= 1e-5
    fd = (llk(a) - llk(b)) / 2e-5
    assert abs(fd - g[k]) < 1e-3 * (1 + abs(fd)), (k, fd, g[k])
'''
