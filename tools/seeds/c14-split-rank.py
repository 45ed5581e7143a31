PROPERTY = 'C14'
NEEDS = 'two smooths that share a smoothing parameter; splitting the combined penalty'
BREAKS = 'penalties recovered from a combined one declare the rank of the combination'
EDITS = [('src/mssm/src/python/penalties.py', 'rank=merged_pen.ranks[m],', 'rank=merged_pen.rank,')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.src.python.formula import Formula, lhs, build_penalties
from mssm.src.python.penalties import combine_shared_penalties, split_shared_penalties
from mssm.src.python.terms import i, f
rng = np.random.default_rng(1)
n = 150
d = pd.DataFrame(dict(y=rng.normal(size=n), x=rng.uniform(size=n), z=rng.uniform(size=n)))
P = build_penalties(Formula(lhs("y"), [i(), f(["x"], nk=6, id=1), f(["z"], nk=6, id=1)], data=d, print_warn=False))
M = combine_shared_penalties(P)
assert len(M) == 1
for p in split_shared_penalties(M):
    assert p.rank == np.linalg.matrix_rank(p.S_J_emb.toarray()), p.rank
'''
