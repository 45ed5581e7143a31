PROPERTY = 'C20'
NEEDS = 'two or more penalties with correlated log smoothing parameters'
BREAKS = 'half of the cross terms of the second uncertainty correction are lost'
EDITS = [('src/mssm/src/cpp/dchol.cpp', 'for (size_t k = 0; k < npen; k++)', 'for (size_t k = l; k < npen; k++)')]
DEMO = '''\
import numpy as np, dChol
rng = np.random.default_rng(3)
n = 4
D = [np.asfortranarray(np.triu(rng.normal(size=(n, n)))) for _ in range(2)]
V = np.array([[1.0, 0.4], [0.4, 2.0]])
got = dChol.computeV2(np.asfortranarray(V), D, n)
want = sum(V[k, l] * D[k] @ D[l].T for k in range(2) for l in range(2))
assert np.allclose(got, want), np.abs(got - want).max()
'''
