PROPERTY = 'C04'
NEEDS = 'a stay of maximal duration D-1 (the tail of the duration distribution)'
BREAKS = 'the backward sampler never continues a state into its longest residual duration, so stays of length D-1 are never sampled although they have positive posterior probability'
EDITS = [('src/mssm/src/cpp/hsmm/decode.cpp', '                    if ((tmp_ed + 1) <= (D - 2))\n                    {\n                        state_probs[i]', '                    if ((tmp_ed + 1) < (D - 2))\n                    {\n                        state_probs[i]')]
HELPERS = ['brute.py']
DEMO = '''\
import numpy as np, hsmm, os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from brute import segmentations, prob, model
n_T, n_S, D = 4, 2, 4
bs, ds, T, pi = model(3, n_T, n_S, D, True, False)
post = collections.Counter()
for s in segmentations(n_T, n_S, D, False, False):
    st = tuple(i for (j, d, t) in s for i in [j] * d)[:n_T]
    post[st] += prob(s, bs, ds, T, pi, n_T, n_S, True, False)
tot = sum(post.values())
n = 40000
ed, st = hsmm.sample_backwards(bs, ds, T, pi, np.zeros(1), 1.0, n_T, D, n_S, 0, n, True, False, False, 0, 1, False)[:2]
cnt = collections.Counter(tuple(int(x) for x in st[:, k]) for k in range(n))
for s in set(post) | set(cnt):
    p = post[s] / tot
    assert abs(cnt[s] / n - p) < 6 * np.sqrt(p * (1 - p) / n) + 1e-12, (s, cnt[s] / n, p)
'''
