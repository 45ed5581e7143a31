PROPERTY = 'C13'
NEEDS = 'a tensor smooth with normalised marginal penalties'
BREAKS = 'the root of the normalised tensor penalty no longer reproduces the penalty'
EDITS = [('src/mssm/src/python/penalties.py', '        D_j /= np.sqrt(eig[-1])', '        D_j /= eig[-1]')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.src.python.formula import Formula, lhs, build_penalties
from mssm.src.python.terms import i, f
rng = np.random.default_rng(1)
n = 150
d = pd.DataFrame(dict(y=rng.normal(size=n), x=rng.uniform(size=n), z=rng.uniform(size=n)))
for rp in (0, 2):
    for te in (False, True):
        for p in build_penalties(Formula(lhs("y"), [i(), f(["x", "z"], nk=5, te=te, rp=rp)], data=d, print_warn=False)):
            S, D = p.S_J_emb.toarray(), p.D_J_emb.toarray()
            assert np.allclose(D @ D.T, S, atol=1e-6), (rp, te)
'''
