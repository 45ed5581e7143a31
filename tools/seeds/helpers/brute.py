"""Brute-force enumeration of all segmentations of one series (plain arrays)."""
import numpy as np


def segmentations(n_T, n_S, D, ewl, eil, last=-1, t=0, pre=()):
    for j in range(n_S):
        if j == last:
            continue
        for d in range(1, D):
            e = t + d
            if e < n_T:
                yield from segmentations(n_T, n_S, D, ewl, eil, j, e, pre + ((j, d, t),))
            elif (not ewl or e == n_T) and (not eil or j == n_S - 1):
                yield pre + ((j, d, t),)


def prob(segs, bs, ds, T, pi, n_T, n_S, swf, tv):
    p = pi[segs[0][0]]
    for k, (j, d, t) in enumerate(segs):
        f = j if (k == 0 or swf) else j + n_S
        p *= ds[d - 1, f, t] if tv else ds[d - 1, f]
        if k:
            i = segs[k - 1][0]
            p *= T[i, j, t - 1] if tv else T[i, j]
        for s in range(t, min(t + d, n_T)):
            p *= bs[s, j]
    return p


def model(seed, n_T, n_S, D, swf, tv):
    r = np.random.default_rng(seed)
    nf = n_S * (1 if swf else 2)
    bs = np.asfortranarray(r.uniform(0.1, 1, (n_T, n_S)))
    ds = r.uniform(0.1, 1, (D - 1, nf, n_T) if tv else (D - 1, nf))
    ds /= ds.sum(axis=0)
    T = r.uniform(0.1, 1, (n_S, n_S, n_T) if tv else (n_S, n_S))
    for j in range(n_S):
        T[j, j] = 0
    T /= T.sum(axis=1, keepdims=True)
    pi = r.uniform(0.1, 1, n_S)
    pi /= pi.sum()
    return bs, np.asfortranarray(ds), np.asfortranarray(T), pi
