PROPERTY = 'C18'
NEEDS = 'a time at which only censored subjects leave, followed (in decreasing time) by an event'
BREAKS = 'subjects censored at a time without events never enter the risk sets used for the Hessian'
EDITS = [('src/mssm/src/cpp/hazard.cpp', '''            // Adjust gamma_p
            Eigen::VectorXd gi = gamma(rij.array());
''', '''            // No events, nothing to add
            if (dj == 0.0)
            {
                continue;
            }

            // Adjust gamma_p
            Eigen::VectorXd gi = gamma(rij.array());
''')]
DEMO = '''\
import numpy as np, scipy as scp
from mssm.src.python.exp_fam import PropHaz
X = np.array([[0.5, 1.0], [-0.3, 0.2], [0.9, -1.0], [0.1, 0.4]])
f = PropHaz(np.array([9, 7, 4]), np.array([0, 1, 1, 2]))
d = np.array([[0], [1], [0], [1]])
c = np.array([[0.3], [-0.2]])
S = [scp.sparse.csc_array(X)]
H = f.hessian(c, [], [d], S).toarray()
num = np.zeros((2, 2))
for j in range(2):
    e = np.zeros((2, 1)); e[j] = 1e-5
    num[:, [j]] = (f.gradient(c + e, [], [d], S) - f.gradient(c - e, [], [d], S)) / 2e-5
assert np.allclose(H, num, atol=1e-6), (H, num)
'''
