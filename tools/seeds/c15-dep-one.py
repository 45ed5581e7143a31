PROPERTY = 'C15'
NEEDS = 'a block of columns that depends completely on the reference block, with rounding noise left after projection'
BREAKS = 'one column of a completely dependent block is reported as independent, so a redundant coefficient is kept'
EDITS = [('src/mssm/src/cpp/eigen_solvers.cpp', 'while (r > 0)', 'while (r > 1)')]
DEMO = '''\
import numpy as np, eigen_solvers
rng = np.random.default_rng(3)
A = rng.normal(size=(12, 3))
bad = 0
for k in range(20):
    B = A @ rng.normal(size=(3, 2))
    piv, r = eigen_solvers.id_dependencies(np.asfortranarray(A), np.asfortranarray(B), np.finfo(float).eps ** 0.5)
    bad += r != 0
assert bad == 0, bad
'''
