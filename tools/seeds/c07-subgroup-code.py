PROPERTY = 'C07'
NEEDS = 'a factor smooth restricted to a subgroup (by_subgroup) and rows outside that subgroup'
BREAKS = 'rows outside the subgroup are evaluated as if they belonged to the first level of the grouping factor'
EDITS = [('src/mssm/src/python/formula.py', 'c_code = [c_coding[cr] if cr in c_coding else -1 for cr in c_raw]', 'c_code = [c_coding[cr] if cr in c_coding else 0 for cr in c_raw]')]
DEMO = '''\
import numpy as np, pandas as pd
from mssm.src.python.formula import Formula, lhs, build_model_matrix, build_penalties
from mssm.src.python.terms import i, fs
rng = np.random.default_rng(1)
n = 80
d = pd.DataFrame(dict(y=rng.normal(size=n), x=rng.uniform(size=n)))
d["cond"] = np.array(["a", "b"], dtype=object)[np.arange(n) % 2]
d["g"] = np.array([f"s{j % 4}.{c}" for j, c in enumerate(d["cond"])], dtype=object)
F = Formula(lhs("y"), [i(), fs(["x"], rf="g", nk=5, by_subgroup=("cond", "b"))], data=d, print_warn=False)
build_penalties(F)
X = build_model_matrix(F).toarray()
out = X[d["cond"].values == "a"][:, 1:]
assert np.abs(out).max() == 0, np.abs(out).max()
assert np.abs(X[d["cond"].values == "b"][:, 1:]).sum(axis=1).min() > 0
'''
