PROPERTY = 'C22'
NEEDS = 'a tree of depth two or more in which the second sub-tree of an inner doubling replaces the proposal'
BREAKS = 'the log joint carried with the state is the one of another state: slices and acceptance of later transitions are wrong'
EDITS = [('src/mssm/src/cpp/mcmc.cpp', '''                stateprime = stateprime2;
                Lprime = Lprime2;
            }

            aprime += aprime2;
''', '''                stateprime = stateprime2;
            }
            Lprime = sprime2 == 1 ? Lprime2 : Lprime;

            aprime += aprime2;
''')]
DEMO = '''\
import numpy as np, mcmc
P = np.array([[1.0, 0.4], [0.4, 2.0]])
llk = lambda q: float(-0.5 * (np.ravel(q) @ P @ np.ravel(q)))
grad = lambda q: -(P @ np.ravel(q)).reshape(-1, 1)
q = np.array([[0.5], [-0.3]])
for seed in range(20):
    out = mcmc.advance_chain(seed, 0, 0, 12, llk(q), q, 2, 2, 2, np.ones(2), np.array([0, 1, 2]), np.array([0, 1]), 0.3, 0.3, 0.0, 0.0, 0.6, 0.75, 0.05, 10, 5, llk, grad,
                             lambda s: np.random.default_rng(s).normal(size=(2, 1)))
    for L, s in zip(out[0], np.asarray(out[1]).T):
        assert abs(L - llk(s)) < 1e-9, (seed, L, llk(s))
'''
