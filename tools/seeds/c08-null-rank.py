PROPERTY = 'C08'
NEEDS = 'a smooth with by, a shared id and a null-space penalty'
BREAKS = 'the null-space penalty that is replicated over the levels declares the rank of a single copy'
EDITS = [('src/mssm/src/python/formula.py', 'lTerm.rank = nri_rank * last_pen_rep', 'lTerm.rank = nri_rank')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.src.python.formula import Formula, lhs, build_penalties
from mssm.src.python.terms import i, f
rng = np.random.default_rng(1)
n = 80
d = pd.DataFrame(dict(y=rng.normal(size=n), x=rng.uniform(size=n)))
d["c"] = np.array(["a", "b", "c"], dtype=object)[np.arange(n) % 3]
P = build_penalties(Formula(lhs("y"), [i(), f(["x"], nk=6, by="c", id=1, penalize_null=True)], data=d, print_warn=False))
for p in P:
    assert p.rank == np.linalg.matrix_rank(p.S_J_emb.toarray()), (p.type, p.rank)
'''
