"""C06: simulation: every outcome of every scripted draw of the real generative loop; the induced law is compared with the model's law."""
import collections
import types

import numpy as np
import hsmm_ref as H
import mssm.src.python.hsmm as HM
import vmc
from vmc import product

LEVEL = "model_checking"
ASSUMPTIONS = ["numpy's Generator.choice is replaced by scripted choice points while the code under test runs; all other draws stay seeded.",
               "Ordinary models: the emission families' rvs is replaced by a recognisable function of the distribution parameters, so the parameters used at every sample are observed exactly.",
               "Event-template models: noise is removed by subtracting the run with all event amplitudes set to zero (same seed, same script).",
               "The last state of an event-template model is extended to the end of the series."]

_default_rng = np.random.default_rng


class Script:
    def __init__(self, script):
        self.script, self.points = script, []

    def pick(self, p):
        i = len(self.points)
        self.points.append(p)
        if i < len(self.script):
            return self.script[i]
        pos = [a for a, v in enumerate(p) if v > 0]
        return pos[0] if pos else 0


class Scripted:
    """Delegates to a real Generator; choice() with probabilities becomes a scripted choice point."""

    def __init__(self, real, sc):
        self._r, self._s = real, sc

    def __getattr__(self, n):
        return getattr(self._r, n)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        if p is None or size is not None:
            return self._r.choice(a, size=size, replace=replace, p=p, **kw)
        self._r.choice(np.arange(len(p)), p=p)     # numpy's own validation of the probabilities
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return vals.take(self._s.pick([float(x) for x in np.asarray(p)]), axis=0)


def scripted(fn, script):
    sc = Script(script)
    np.random.default_rng = lambda *a, **k: a[0] if a and isinstance(a[0], Scripted) else Scripted(_default_rng(*a, **k), sc)
    try:
        out = fn()
    finally:
        np.random.default_rng = _default_rng
    return out, sc.points


def enumerate_runs(fn, limit=300000):
    stack, n = [[]], 0
    while stack:
        pre = stack.pop()
        out, pts = scripted(fn, pre)
        choices, p = [], 1.0
        for i, pr in enumerate(pts):
            if i < len(pre):
                ch = pre[i]
            else:
                pos = [a for a, v in enumerate(pr) if v > 0]
                ch = pos[0] if pos else 0
                for a in pos[1:]:
                    stack.append(choices + [a])
            choices.append(ch)
            p *= pr[ch]
        n += 1
        if n > limit:
            raise RuntimeError("script enumeration exceeded its bound")
        yield out, p, choices, len(pts)


def true_law(m, q, plus):
    """Law of the state sequence of one series; plus=1: every stay lasts one sample longer than drawn (known deviation)."""
    c, n_S, D, L = m.c, m.n_S, m.D, q["L"]
    ds, T, pi = np.exp(np.real(q["lds"])), np.exp(np.real(q["lT"])), np.exp(np.real(q["lpi"]))
    law = collections.defaultdict(float)

    def rec(t, seq, prev, p):
        if t >= L:
            law[tuple(seq[:L])] += p
            return
        if prev is not None and m.hmp and prev == n_S - 1:
            law[tuple((seq + [prev] * L)[:L])] += p
            return
        for j in range(n_S):
            pj = pi[j] if prev is None else T[prev, j, t - 1]
            if pj == 0:
                continue
            f = j if (prev is None or c["swf"]) else j + n_S
            for d in range(1, D):
                pd = ds[d - 1, f, t]
                if pd > 0:
                    rec(t + d + plus, seq + [j] * (d + plus), j, p * pj * pd)
    rec(0, [], None, 1.0)
    return law


def event_mean(m, q_amp, states, L, plus, rho, forced_last):
    """Mean of the (whitened) signals given a state sequence of an event-template model."""
    c, n_S, w = m.c, m.n_S, m.c["w"]
    tpl = m.template
    d0, d1 = (1.0, 0.0) if rho is None else (1 / np.sqrt(1 - rho ** 2), -rho / np.sqrt(1 - rho ** 2))
    E = np.zeros((L, m.M))
    t = 0
    while t < L:
        j = states[t]
        e = t
        while e < L and states[e] == j:
            e += 1
        if j % 2 == 1:
            for s in range(t, e):
                p = s - t - plus
                tp = tpl[p] if -w <= p < w else np.nan
                E[s] += d0 * tp * q_amp[s, :, j]
                if 0 < p < w:
                    E[s] += d1 * tpl[p - 1] * q_amp[s - 1, :, j]
            if e < L and not plus:
                E[e] += d1 * tpl[-1] * q_amp[e - 1, :, j]
        t = e
    return E


def stub_rvs(salt):
    def rvs(*mus, size=1, seed=0):
        v = mus[0].ravel() + 100.0 * np.log(mus[1].ravel() + 1e-12) + 1e4 * salt
        return np.stack([v + 1e6 * k for k in range(size)])
    return rvs


def stub_mg(salt):
    def rvs(mus, theta, size=1, seed=0):
        v = mus + 100.0 * np.sum(np.asarray(theta).ravel() * np.arange(1, np.size(theta) + 1)) + 1e4 * salt   # (n, M)
        return np.stack([(v + 1e6 * k).T for k in range(size)])                                              # (size, M, n)
    return rvs


def expected_emissions(m):
    """value[t, j, m] of the stubbed emission draws of every state (first sample)."""
    n_S, M, c = m.n_S, m.M, m.c
    sc = np.split(m.coef.ravel(), m.split)
    eta = [m.Xd[i] @ sc[i] for i in range(len(m.Xd))]
    by = {}
    for i, (k, info) in enumerate(m.par):
        by.setdefault(k, {})[info] = eta[i]
    N = sum(m.lens)
    V = np.zeros((N, n_S, M))

    def sh(par, mm):
        if par not in m.shared_pars:
            return 0.0
        return by["shared"][(par, 0 if m.shared_m else mm)]
    off = 0
    for j in range(n_S):
        if m.obs_kind(j, 0) == "mg":
            k = M * (M + 1) // 2
            th = sc[-1][off:off + k]
            off += k
            for mm in range(M):
                V[:, j, mm] = by["mg"][(j, mm)] + sh(0, mm) + 100.0 * np.sum(th * np.arange(1, k + 1)) + 1e4 * (j * 10)
            continue
        for mm in range(M):
            kind = m.obs_kind(j, mm)
            e0, e1 = by[kind][(j, mm, 0)] + sh(0, mm), by[kind][(j, mm, 1)] + sh(1, mm)
            mu = e0 if kind == "gau" else np.exp(e0)
            V[:, j, mm] = mu + 100.0 * np.log(H.fi("logb", e1) + 1e-12) + 1e4 * (j * 10 + mm)
    return V


def close_law(a, b):
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= 1e-9 + 1e-8 * b.get(k, 0.0) for k in set(a) | set(b))


def case_sim(ctx, c):
    m = H.Model(c)
    k = c.get("k", 1)
    n_S, M = m.n_S, m.M
    qs = m.quantities()
    V = None
    if not m.hmp:
        for j in range(n_S):
            for mm, f in enumerate(m.fam.llkargs[1][j]):
                f.rvs = stub_mg(j * 10) if m.obs_kind(j, 0) == "mg" else stub_rvs(j * 10 + mm)
        V = expected_emissions(m)

    def go(args):
        return m.fam.predict(*args, seed=4, n_samples=k)
    zero = None
    if m.hmp:
        zero = m.args()
        cf = zero[0]
        o = 0
        for i, (kind, info) in enumerate(m.par):
            n = len(m.coefs[i])
            if kind in ("bump", "shared"):
                cf[o:o + n] = 0
            o += n
    laws = [collections.defaultdict(float) for _ in m.lens]
    joint = collections.defaultdict(float)
    npts, plus_ok, zero_ok = 0, True, True
    why = {}
    for out, p, choices, pts in enumerate_runs(lambda: go(m.args())):
        npts += pts
        ctx.state()
        ctx.trans(pts)
        ctx.trace()
        base = None
        if m.hmp:
            base, pts2 = scripted(lambda: go(zero), choices)
            ctx.expect(len(pts2) == pts, "event amplitudes do not influence which states are drawn")
        key = []
        ok_shape = ctx.expect(len(out) == len(m.lens), "one prediction per series", str(len(out)))
        for s, (st, L) in enumerate(zip(m.sid, m.lens)):
            if not ok_shape:
                return
            E, S = np.asarray(out[s][0]), np.asarray(out[s][1])
            if not ctx.expect(E.shape == (L, M, k) and S.shape == (L, k), "shapes of predicted signals and states", f"{E.shape} {S.shape}"):
                return
            for i in range(k):
                seq = tuple(int(x) for x in S[:, i])
                if i == 0:
                    laws[s][seq] += p
                key.append(seq)
                if not m.hmp:
                    want = V[np.arange(st, st + L), list(seq), :] + 1e6 * i
                    ctx.close(E[:, :, i], want, "signals are emitted by the state occupied at that sample", rtol=1e-9, atol=1e-6)
                else:
                    diff = E[:, :, i] - np.asarray(base[s][0])[:, :, i]
                    if m.Lr is not None:
                        Ls = m.Lr[st:st + L, st:st + L]
                        diff = Ls.T @ diff
                    amp = amplitudes(m)[st:st + L]
                    for plus in (0, 1):
                        want = event_mean(m, amp, seq, L, plus, c.get("rho"), None)
                        good = np.allclose(diff, want, rtol=1e-7, atol=1e-7)
                        if plus == 0 and not good:
                            zero_ok = False
                        if plus == 1 and not good:
                            plus_ok = False
                            why.setdefault("e", f"states {seq}: whitened event signal {diff.ravel().tolist()}, expected {want.ravel().tolist()}")
        joint[tuple(key)] += p
    if npts == 0:
        ctx.skipped += 1
        return
    for s, q in enumerate(qs):
        t0, t1 = true_law(m, q, 0), true_law(m, q, 1)
        ctx.evals += 1
        if close_law(laws[s], t0) and zero_ok:
            pass
        elif close_law(laws[s], t1) and (not m.hmp or plus_ok):
            ctx.known("predict-stay-plus-one", f"series {s}")
        else:
            bad = [x for x in set(laws[s]) | set(t1) if abs(laws[s].get(x, 0) - t1.get(x, 0)) > 1e-9]
            det = why.get("e", "") if not bad else f"states {bad[0]}: simulated with probability {laws[s].get(bad[0], 0.0)}, model {t0.get(bad[0], 0.0)} (stays prolonged by one: {t1.get(bad[0], 0.0)})"
            ctx.fail("simulated state sequences / event signals do not follow the generative law", f"series {s} {det}")
    # series and samples are independent
    tot = sum(joint.values())
    ctx.close(tot, 1.0, "probabilities of all draws sum to one", rtol=1e-9)
    if len(m.lens) * k > 1:
        for key, p in joint.items():
            ind = 1.0
            for s in range(len(m.lens)):
                for i in range(k):
                    ind *= laws[s][key[s * k + i]]
            if not ctx.expect(abs(ind - p) <= 1e-9, "series and samples are simulated independently", f"{key}: {p} vs {ind}"):
                break
    ctx.outcome(tuple(sorted(joint)))


def amplitudes(m):
    sc = np.split(m.coef.ravel(), m.split)
    eta = [m.Xd[i] @ sc[i] for i in range(len(m.Xd))]
    A = np.zeros((sum(m.lens), m.M, m.n_S))
    sh = {info: eta[i] for i, (kd, info) in enumerate(m.par) if kd == "shared"}
    for i, (kd, info) in enumerate(m.par):
        if kd == "bump":
            j, mm = info
            A[:, mm, j] = eta[i] + (0.0 if not m.shared_pars else sh[(0, 0 if m.shared_m else mm)])
    return A


def case_noise(ctx, c):
    """Event-template noise: scales with the square root of the scale, differs between samples and signals; a seed reproduces the run."""
    m = H.Model(c)
    args = m.args()
    args[0][:] = 0
    a = m.fam.predict(*args, seed=9, n_samples=3, scale=1.0)
    b = m.fam.predict(*args, seed=9, n_samples=3, scale=4.0)
    a2 = m.fam.predict(*args, seed=9, n_samples=3, scale=1.0)
    o = m.fam.predict(*args, seed=10, n_samples=3, scale=1.0)
    for s in range(len(m.lens)):
        ctx.expect(np.array_equal(a[s][0], a2[s][0]) and np.array_equal(a[s][1], a2[s][1]), "the same seed reproduces the simulation")
        ctx.close(b[s][0], 2 * np.asarray(a[s][0]), "event-template noise scales with the square root of the scale", rtol=1e-9)
        ctx.expect(not np.allclose(a[s][0], o[s][0]), "another seed gives another simulation")
        v = np.asarray(a[s][0])
        ctx.expect(len(np.unique(np.round(v.ravel(), 10))) == v.size, "noise differs between samples, signals and time-points")
        ctx.state(v.size)
        ctx.trace(4)
    ctx.outcome(np.asarray(a[0][0]).ravel()[:3])


def case_seed(ctx, c):
    """The unmodified simulator: admissible states, reproducible by seed."""
    m = H.Model(c)
    qs = m.quantities()
    for seed in (0, 3):
        a = m.fam.predict(*m.args(), seed=seed, n_samples=7)
        b = m.fam.predict(*m.args(), seed=seed, n_samples=7)
        for s, q in enumerate(qs):
            ctx.expect(np.array_equal(a[s][0], b[s][0], equal_nan=True) and np.array_equal(a[s][1], b[s][1]), "the same seed reproduces the simulation")
            laws = [true_law(m, q, 0), true_law(m, q, 1)]
            for i in range(7):
                seq = tuple(int(x) for x in np.asarray(a[s][1])[:, i])
                ctx.expect(any(l.get(seq, 0) > 0 for l in laws), "a simulated sequence has probability zero", str(seq))
                ctx.outcome(seq)
        ctx.trace(2)
        ctx.state(7)


def space(thorough):
    sp = []

    def add(**kw):
        x = H.default_case(**kw)
        if x not in sp:
            sp.append(x)
    for d in product(swf=[True, False], n_S=[2, 3], D=[2, 3, 4], lens=[[1], [2], [4], [6]] + ([[5], [7], [8]] if thorough else []), Tpi=["est", "fix", "list"], tv=[False, True]):
        add(**d)
    for d in product(swf=[True, False], lens=[[2, 2], [3, 2]] + ([[2, 1, 2]] if thorough else []), n_S=[2, 3], Tpi=["est", "fix", "list"], tv=[False, True]):
        add(D=3, **d)
    for d in product(obs=["gau", "gamma", "mix", "mg"], M=[1, 2, 3], shared=["", "mu", "mum", "both", "bothm"], reuse=[False, True], swf=[True, False]):
        if d["obs"] == "mg" and (d["M"] == 1 or d["shared"].startswith("both")):
            continue
        add(lens=[3], D=3, n_S=2, Tpi="est", **d)
    for d in product(swf=[True, False], n_S=[2, 3], Tpi=["fix", "list"]):
        add(sparseT=True, lens=[6], D=3, **d)
    for d in product(n_S=[3, 5], w=[2, 3], M=[1, 2], rho=[None, 0.4, -0.3], hmp_fam=["Gaussian", "Exponential"], shared=["", "mu", "mum"], lens=[[6], [9]] if not thorough else [[6], [9], [11], [5, 7]]):
        if d["M"] == 1 and d["shared"] == "mum" or d["n_S"] == 5 and d["w"] == 3 and not thorough:
            continue
        add(kind="hmp", D=4, Tpi="fix", ewl=True, eil=True, **d)
    for d in product(rho=[None, 0.4], w=[2, 3]):
        add(kind="hmp", tv=True, D=4, Tpi="fix", n_S=3, lens=[8], **d)
    return sp


def run(chk):
    sp = space(chk.thorough)
    chk.explore("every-draw", sp, case_sim, bounds="all outcomes of every draw; n_S<=5, D<=4, series length<=9", min_outcomes=20)
    two = [dict(H.default_case(n_S=n, D=3, lens=L, swf=f, Tpi=t, obs=o, M=M), k=2) for n in (2, 3) for L in ([1], [2]) for f in (True, False) for t in ("est", "list")
           for o, M in (("gau", 1), ("mg", 2))]
    chk.explore("two-samples", two, case_sim, bounds="all outcomes of every draw of two samples, series length<=2", min_outcomes=4)
    chk.explore("noise", [c for c in sp if c["kind"] == "hmp" and not c["shared"]], case_noise, bounds="fixed seeds", min_outcomes=2)
    chk.explore("seeded", [c for c in sp if c["D"] == 3 and not c["reuse"]], case_seed, bounds="2 seeds x 7 samples", min_outcomes=20)
