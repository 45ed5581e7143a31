"""The No-U-Turn sampler on explicit trajectories (Hoffman & Gelman 2014, algorithms 4 and 6, with Betancourt's momentum-sum criterion as in
Stan): points of a trajectory are numbered relative to the current state; sub-trees are ranges of numbers."""
import math

import numpy as np

DELTA_MAX = 1000.0


class Source:
    """Draws from a list; `draw(kind, p)` is told what the value decides."""
    def __init__(self, script):
        self.s, self.at = list(script), 0

    def draw(self, kind, p):
        v = self.s[self.at]
        self.at += 1
        return v


class Tree:
    """All outcomes of the draws: each draw that decides something branches into the values on both sides of its threshold."""
    def __init__(self, prefix):
        self.prefix, self.at, self.values, self.more = prefix, 0, [], []

    def draw(self, kind, p):
        if kind == "dir":
            opts = [0.26, 0.74]
        elif not p > 0:  # 0 or 0/0: never
            opts = [0.3]
        elif p >= 1:
            opts = [0.999]
        else:
            opts = [p * 0.999, p + (1 - p) * 0.001]
        i = self.prefix[self.at] if self.at < len(self.prefix) else 0
        if self.at >= len(self.prefix):
            self.more += [self.prefix + [0] * (self.at - len(self.prefix)) + [k] for k in range(1, len(opts))]
        self.at += 1
        self.values.append(opts[i])
        return opts[i]


def outcomes(fn):
    """Runs fn(Tree) for every outcome of the draws."""
    todo = [[]]
    while todo:
        t = Tree(todo.pop())
        yield t, fn(t)
        todo += t.more


class Trajectory:
    def __init__(self, q, r, Minv, eps, llk, grad):
        self.M, self.eps, self.llk, self.grad = Minv, eps, llk, grad
        self.P = {0: (q, r, grad(q), None)}

    def H(self, L, r):
        return L - 0.5 * float(r @ self.M @ r)

    def point(self, k):
        if k not in self.P:
            v = 1 if k > 0 else -1
            q, r, g, _ = self.P[k - v] if k - v in self.P else self.point(k - v)
            h = v * self.eps
            r = r + 0.5 * h * g
            q = q + h * (self.M @ r)
            L, g = self.llk(q), self.grad(q)
            self.P[k] = (q, r + 0.5 * h * g, g, L)
        return self.P[k]

    def ok(self, ks1, ks2):
        """Neither the union of two neighbouring ranges nor either range extended by one point of the other turns back. ks1 is the
        range that was there first, listed in the direction of growth."""
        r = lambda k: self.P[k][1]
        for rng in (ks1 + ks2, ks1 + ks2[:1], ks1[-1:] + ks2):
            s = sum(r(k) for k in rng)
            for end in (rng[0], rng[-1]):
                if not float((self.M @ r(end)) @ s) > 0:
                    return False
        return True


def transition(q, L, r, e, Minv, eps, max_j, llk, grad, src, eager=True):
    """One transition; returns state, log density, acceptance statistic of the last doubling and bookkeeping."""
    T = Trajectory(q, r, Minv, eps, llk, grad)
    H0 = T.H(L, r)
    logu = H0 - e

    def build(first, v, j):
        """Range of 2^j points starting at number `first` in direction v: (visited points, chosen, number inside the slice, go on, sum of acceptance, visited)"""
        if j == 0:
            q1, r1, _, L1 = T.point(first)
            H1 = T.H(L1, r1)
            d = H1 - H0
            acc = 0.0 if math.isnan(d) else min(1.0, math.exp(min(d, 0.0)))
            return [first], first, int(logu <= H1), bool(logu < DELTA_MAX + H1), acc, 1
        ks, pick, n, go, a, na = build(first, v, j - 1)
        if not go:
            return ks, pick, n, go, a, na
        ks2, pick2, n2, go2, a2, na2 = build(ks[-1] + v, v, j - 1)
        tot = n + n2
        if tot > 0 or eager:
            p = n2 / tot if tot else float("nan")
            if p > src.draw("sub", p):
                pick = pick2
        go = go2 and T.ok(ks, ks2)
        return ks + ks2, pick, tot, go, a + a2, na + na2

    lo = hi = 0
    n, go, j, cur, a, na = 1, True, 0, 0, 0.0, 1
    while go and j < max_j:
        v = 1 if src.draw("dir", 0.5) >= 0.5 else -1
        old = list(range(lo, hi + 1))[::v]
        ks, pick, n1, go1, a, na = build((hi if v > 0 else lo) + v, v, j)
        if go1 and min(1.0, n1 / n) > src.draw("top", n1 / n):
            cur = pick
        n += n1
        go = go1 and T.ok(old, ks)
        lo, hi = min(lo, ks[-1]), max(hi, ks[-1])
        j += 1
    if cur == 0:
        out, Lout = q, L
    else:
        out, _, _, Lout = T.P[cur]
    return out, Lout, a / na, dict(j=j, n=n, cur=cur, turned=not go)


def adapt(m, Madapt, stat, eps, epsbar, Hbar, mu, delta, kappa, gamma, t0):
    """Dual averaging after transition number m (1, 2, ...)."""
    if m < Madapt:
        w = 1.0 / (m + t0)
        Hbar = (1 - w) * Hbar + w * (delta - stat)
        leps = mu - math.sqrt(m) / gamma * Hbar
        eps = math.exp(leps)
        k = m ** -kappa
        epsbar = math.exp(k * leps + (1 - k) * math.log(epsbar))
    else:
        eps = epsbar
    return eps, epsbar, Hbar


def reasonable(q, L, r, Minv, llk, grad, eps=0.1):
    def ratio(h):
        T = Trajectory(q, r, Minv, h, llk, grad)
        q1, r1, _, L1 = T.point(1)
        return T.H(L1, r1) - T.H(L, r)
    up = ratio(eps) > math.log(0.5)
    n = 0
    while True:
        d = ratio(eps)
        if not (d > -math.log(2) if up else d < -math.log(2)):
            return eps, n
        eps *= 2.0 if up else 0.5
        n += 1


class Mersenne(Source):
    """std::mt19937 with libstdc++'s distributions."""
    def __init__(self, seed):
        self.g = np.random.RandomState(np.uint32(seed))

    def word(self):
        return int.from_bytes(self.g.bytes(4), "little")

    def unit(self):
        a, b = self.word(), self.word()
        u = (a + b * 4294967296.0) / 18446744073709551616.0
        return min(u, math.nextafter(1.0, 0.0))

    def draw(self, kind, p):
        return self.unit()

    def expo(self):
        return -math.log(1.0 - self.unit())
