"""C19: distribution function of linear combinations of chi-square variables (Davies) vs. Ruben's series and exact convolution."""
import functools
import itertools
import numpy as np
import scipy.special as sc
from scipy.stats import norm
import vmc

LEVEL = "model_checking"
ASSUMPTIONS = ["Reference: Ruben's series for the positive and the negative part (exact mixture of central chi-squares), convolved by Gauss-Legendre quadrature; its own error is bounded by comparing two node counts and is below 2e-7."]


@functools.lru_cache(None)
def ruben(parts):
    """Mixture weights a_k, scale beta and df of sum lambda_j chi2_{n_j}(nc_j), lambda_j > 0."""
    lam = np.array([p[0] for p in parts])
    nu = np.array([p[1] for p in parts], float)
    nc = np.array([p[2] for p in parts])
    beta = lam.min() * 0.999999 if len(set(lam)) > 1 or nc.sum() > 0 else lam.min()
    # beta slightly different from min is admissible for any 0 < beta <= min lambda
    g = 1 - beta / lam
    a = [np.exp(-0.5 * nc.sum() + 0.5 * (nu * np.log(beta / lam)).sum())]
    K = 1
    gk = [0.0]
    tot = a[0]
    while tot < 1 - 1e-12 and K < 6000:
        gk.append(0.5 * ((nu * g ** K).sum() + K * (nc * g ** (K - 1) * (1 - g)).sum()))
        av = np.array(a)
        a.append(float(np.dot(np.array(gk[K:0:-1]), av)) / K)
        tot += a[-1]
        K += 1
    assert tot > 1 - 1e-9, (parts, tot)
    return np.array(a), beta, nu.sum()


def cdf_pos(parts, x):
    x = np.atleast_1d(np.asarray(x, float))
    if not parts:
        return (x >= 0).astype(float)
    a, beta, nu = ruben(parts)
    out = np.zeros(len(x))
    pos = x > 0
    if pos.any():
        k = np.arange(len(a))
        out[pos] = sc.chdtr(nu + 2 * k[None, :], (x[pos] / beta)[:, None]) @ a
    return out


def pdf_root(parts, s):
    """density of sqrt(Q) at s (no singularity at zero for one degree of freedom)"""
    a, beta, nu = ruben(parts)
    k = np.arange(len(a))
    h = 0.5 * (nu + 2 * k)
    x = s ** 2 / beta
    with np.errstate(divide="ignore"):
        lp = (2 * h - 1)[None, :] * np.log(s)[:, None] - h[None, :] * np.log(2 * beta) - 0.5 * x[:, None] - sc.gammaln(h)[None, :] + np.log(2)
    return np.exp(lp) @ a


def gl(a, b, m):
    x, w = np.polynomial.legendre.leggauss(m)
    return 0.5 * (b - a) * x + 0.5 * (a + b), 0.5 * (b - a) * w


def ref(parts, sigma, c, m=60):
    """P(sum + sigma N <= c)"""
    if sigma > 0:
        # integrate over the normal, splitting where the conditional distribution has its kink
        cuts = sorted(set([-8.5, 8.5] + [float(np.clip(c / sigma, -8.5, 8.5))]))
        pts = []
        for lo, hi in zip(cuts[:-1], cuts[1:]):
            mid = float(np.clip(c / sigma, lo, hi))
            for l2, h2 in ((lo, (lo + hi) / 2), ((lo + hi) / 2, hi)):
                # square-root substitution at both ends of every piece
                t, w = gl(0, 1, m)
                z = l2 + (h2 - l2) * t * t * (3 - 2 * t)
                pts.append((z, w * (h2 - l2) * 6 * t * (1 - t)))
        z = np.concatenate([p[0] for p in pts])
        w = np.concatenate([p[1] for p in pts])
        return float(np.sum(w * norm.pdf(z) * ref_many(parts, c - sigma * z, m)))
    return float(ref_many(parts, np.array([c]), m)[0])


def ref_many(parts, cs, m):
    P = tuple(sorted((l, n, d) for l, n, d in parts if l > 0 and (n > 0 or d > 0)))
    N = tuple(sorted((-l, n, d) for l, n, d in parts if l < 0 and (n > 0 or d > 0)))
    cs = np.asarray(cs, float)
    if not N:
        return cdf_pos(P, cs)
    if not P:
        return 1 - cdf_pos(N, -cs)
    # P(Q+ <= c + Q-) : integrate over s = sqrt(Q-); split at the kink s0 = sqrt(-c)
    top = np.sqrt(max(l for l, _, _ in N) * (sum(n + d for _, n, d in N) + 60 + 9 * np.sqrt(sum(2 * n + 4 * d for _, n, d in N))))
    out = np.zeros(len(cs))
    for i, c in enumerate(cs):
        s0 = np.sqrt(-c) if c < 0 else 0.0
        if s0 >= top:
            out[i] = 0.0
            continue
        edges = s0 + (top - s0) * np.array([0, 1e-3, 0.01, 0.05, 0.12, 0.25, 0.4, 0.6, 1.0])
        acc = 0.0
        for a, b in zip(edges[:-1], edges[1:]):
            t, w = gl(0, 1, max(12, m // 3))
            s = a + (b - a) * t * t
            acc += np.sum(w * 2 * t * (b - a) * pdf_root(N, s) * cdf_pos(P, c + s * s))
        out[i] = acc
    return out


def call(parts, sigma, c, acc, lim):
    import davies
    lb = np.array([p[0] for p in parts], float)
    n = np.array([p[1] for p in parts], dtype=np.int32)
    nc = np.array([p[2] for p in parts], float)
    q, fault, tr = davies.daviesQF(lb, nc, n, c, sigma, acc, len(parts), lim)
    return q, fault


def case(ctx, c):
    parts = tuple(tuple(p) for p in c["parts"])
    sg = c["sigma"]
    mean = sum(l * (n + d) for l, n, d in parts)
    sd = np.sqrt(sum(l * l * (2 * n + 4 * d) for l, n, d in parts) + sg ** 2)
    pts = sorted([0.0] + [mean + k * sd for k in (-2.5, -1.3, -0.6, 0.0, 0.45, 1.2, 2.2, 4.5)])
    if c.get("wide"):
        pts = sorted(set(pts) | {mean + k * sd for k in (-3.0, -1.8, -0.9, 0.2, 0.8, 1.5, 1.8, 3.0)})
    both = any(p[0] > 0 for p in parts) and any(p[0] < 0 for p in parts)
    if sg > 0 and both:
        pts = pts[1:-1:2]
    want = np.array([ref(parts, sg, x) for x in pts])
    if c.get("self") and not (sg > 0 and both):
        w2 = np.array([ref(parts, sg, x, 90) for x in pts])
        assert np.abs(w2 - want).max() < 2e-7, ("reference", np.abs(w2 - want).max())
    perms = [parts, parts[::-1]] + ([parts[1:] + parts[:1]] if len(parts) > 2 else [])
    for acc in (1e-2, 1e-3, 2e-5, 1e-6):
        for pm in perms:
            prev = -1.0
            for x, w in zip(pts, want):
                q, fault = call(pm, sg, x, acc, 200000)
                ctx.expect(fault == 0 or (fault in (1, 2, 4) and acc < 1e-5), "fault on valid input", f"c={x} acc={acc} fault={fault}")
                if fault == 0:
                    ctx.expect(abs(q - w) <= acc + 4e-7, "distribution function outside the requested accuracy", f"order {[p[0] for p in pm]} c={x} acc={acc}: {q} instead of {w}")
                    ctx.expect(q >= prev - 2 * acc, "distribution function decreases", f"c={x}")
                    prev = q
                ctx.trans()
    # few terms allowed: a fault must be signalled or the value must be right
    for lim in (1, 5, 20, 100, 500):
        for x, w in zip(pts[::2], want[::2]):
            q, fault = call(parts, sg, x, 1e-4, lim)
            ctx.expect(fault != 0 or abs(q - w) <= 1e-4 + 4e-7, "wrong value without a fault (limited terms)", f"lim={lim} c={x}: {q} instead of {w}")
            ctx.trans()
    ctx.state(len(pts))
    ctx.trace(len(pts))
    ctx.outcome(np.round(want, 6))


def bad_case(ctx, c):
    parts = [list(p) for p in c["parts"]]
    for j in range(len(parts)):
        for kind in ("n", "nc"):
            b = [list(p) for p in parts]
            if kind == "n":
                b[j][1] = -1
            else:
                b[j][2] = -0.5
            for x in (0.0, 1.0):
                q, fault = call(b, c["sigma"], x, 1e-4, 10000)
                ctx.expect(fault == 3, "invalid parameters are not signalled", f"{b}: fault {fault}")
                ctx.trans()
    ctx.state(len(parts) * 2)
    ctx.trace()
    ctx.outcome(len(parts))


def run(chk):
    th = chk.thorough
    lams = (0.3, 1.0, 2.5) + ((0.05,) if True else ())
    ns = (1, 2, 5)
    sp = []
    # one variable: everything
    for l, n, d, s in itertools.product((0.05, 1.0, 40.0, -1.0), (1, 2, 3, 8), (0.0, 0.8, 6.0), (0.0, 0.5)):
        sp.append(dict(parts=[[l, n, d]], sigma=s, self=True))
    # two and three variables, all combinations of weights (with sign) and degrees of freedom
    alpha = [(l, n) for l in lams for n in ns]
    for a, b in itertools.combinations(alpha, 2):
        for sg_ in ((1, 1), (1, -1), (-1, 1)):
            for s in (0.0, 0.7) if sg_ == (1, 1) or th or (a[1] == b[1] and a[0] != 0.05) else (0.0,):
                sp.append(dict(parts=[[a[0] * sg_[0], a[1], 0.0], [b[0] * sg_[1], b[1], 0.0]], sigma=s))
        sp.append(dict(parts=[[a[0], a[1], 0.9], [b[0], b[1], 0.0]], sigma=0.0))
        sp.append(dict(parts=[[a[0], a[1], 0.9], [-b[0], b[1], 2.0]], sigma=0.0))
    for tr in itertools.product(((0.05, 1), (0.3, 2), (1.0, 1), (2.5, 3), (-0.6, 1), (-3.0, 4)), repeat=3):
        if th or len(set(tr)) == 3:
            sp.append(dict(parts=[[l, n, 0.0] for l, n in tr], sigma=0.0))
    # the shapes used by the package: unit weights, one fractional weight, large residual df
    for k in range(1, 6):
        for fr in (0.2, 0.77):
            for df in (12, 60, 150):
                sp.append(dict(parts=[[1.0, 1, 0.0]] * k + [[fr, 1, 0.0]], sigma=0.0))
                sp.append(dict(parts=[[1.0, 1, 0.0]] * k + [[1 - fr, 1, 0.0], [fr, 1, 0.0], [-2.0 * k / df, df, 0.0]], sigma=0.0))
    for perm in itertools.permutations((0.2, 0.5, 1.1, 2.0)) if th else list(itertools.permutations((0.2, 0.5, 1.1, 2.0)))[::4]:
        sp.append(dict(parts=[[l, 1, 0.0] for l in perm], sigma=0.0))
        sp.append(dict(parts=[[l * (-1) ** j, 1, 0.0] for j, l in enumerate(perm)], sigma=0.0))
    # four variables with growing weights and very different degrees of freedom, every sign and df assignment
    for w in ((0.1, 0.35, 0.9, 1.3), (0.46, 0.79, 1.19, 1.25), (0.19, 0.26, 0.57, 1.84)):
        for dfs in itertools.product((1, 20), repeat=4) if th else ((1, 8, 20, 1), (3, 20, 20, 1), (1, 20, 1, 1), (1, 1, 20, 1), (20, 1, 20, 1)):
            for sgn in itertools.product((1, -1), repeat=4) if th else ((1, 1, 1, 1), (-1, 1, 1, 1), (1, -1, -1, 1), (1, -1, 1, 1)):
                sp.append(dict(parts=[[a * b, d, 0.0] for a, b, d in zip(w, sgn, dfs)], sigma=0.0, wide=True))
    uniq, seen = [], set()
    for q in sp:
        k = repr(q)
        if k not in seen:
            seen.add(k)
            uniq.append(q)
    chk.explore("distribution", uniq, case, bounds="1-3 variables over weights {.05,.3,1,2.5 and signs}, df {1,2,3,5,8}, non-centrality, normal part; mixtures used for p-values; 4 accuracies, all orders of the variables", min_outcomes=100)
    sp = [dict(parts=[[l, 1, 0.0] for l in ls], sigma=s) for ls in ([1.0], [1.0, -1.0], [0.5, 1.0, 2.0]) for s in (0.0, 1.0)]
    chk.explore("invalid", sp, bad_case, bounds="every position of an invalid parameter", min_outcomes=3)
