PROPERTY = 'C03'
NEEDS = 'a final state whose best remaining duration is the longest one (the series may end before the state does)'
BREAKS = 'when the last state may outlast the series, decoding never considers the longest remaining duration, so the decoded sequence need not be a most probable one'
EDITS = [('src/mssm/src/cpp/hsmm/decode.cpp', '                for (size_t d = 0; d < (D-1); d++)\n                {\n                    if (delta(n_T-1,d,j) > tmp_d)', '                for (size_t d = 0; d + 2 < D || d == 0; d++)\n                {\n                    if (delta(n_T-1,d,j) > tmp_d)')]
HELPERS = ['brute.py']
DEMO = '''\
import numpy as np, hsmm, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from brute import segmentations, prob, model
for seed in range(60):
    n_T, n_S, D = 4, 3, 4
    bs, ds, T, pi = model(seed, n_T, n_S, D, True, False)
    segs = list(segmentations(n_T, n_S, D, False, False))
    ps = [prob(s, bs, ds, T, pi, n_T, n_S, True, False) for s in segs]
    with np.errstate(all="ignore"):
        ed, st = hsmm.viterbi(np.log(bs), np.log(ds), np.log(T), np.log(pi), np.zeros(1), 1.0, n_T, D, n_S, 0, True, False, False, 0, False)[:2]
    st = [int(x) for x in st]
    b = segs[int(np.argmax(ps))]
    best = [i for (j, d, t) in b for i in [j] * d]
    assert st == best[:n_T] and ed == len(best) - n_T, (seed, st, best, ed)
'''
