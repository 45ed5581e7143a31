"""C16: links, exponential families, deviances and scale/theta derivatives against independent densities, over full grids of families x links x means x responses."""
import numpy as np
import scipy as scp
from scipy.integrate import quad
import vmc
import dist_ref as R

LEVEL = "model_checking"
ASSUMPTIONS = ["Means and scales are taken from finite grids in the interior of the admissible region, responses additionally from its boundary."]

MU_POS = [0.02, 0.3, 1.0, 2.7, 11.0, 240.0]
MU_REAL = [-6.0, -0.4, 0.0, 0.7, 15.0]
MU_UNIT = [0.003, 0.2, 0.5, 0.83, 0.998]


def mk_link(spec):
    import mssm.src.python.exp_fam as E
    return E.LOGb(spec[1]) if spec[0] == "LOGb" else getattr(E, spec[0])()


def link_case(ctx, c):
    L = mk_link(c["link"])
    f, fi = R.link_fns(*c["link"])
    b = c["link"][1] if len(c["link"]) > 1 else 0.0
    mus = {"Logit": MU_UNIT + [1e-6, 1 - 1e-6], "Identity": MU_REAL + MU_POS, "LOG": MU_POS + [1e-8, 1e6], "LOGb": [m - min(0.0, b) for m in MU_POS]}[c["link"][0]]
    for m in mus:
        for shape in ((1, 1), (3, 1)):
            M = np.full(shape, m)
            before = M.copy()
            eta = np.asarray(L.f(M))
            ctx.expect(eta.shape == shape, "shape of link values")
            ctx.close(eta, np.full(shape, f(m)), "link values", rtol=1e-10, atol=1e-12)
            ctx.close(L.fi(np.asarray(L.f(M))), M, "the inverse does not invert the link", rtol=1e-9, atol=1e-12)
            ctx.close(L.fi(eta), np.full(shape, fi(f(m))), "inverse link values", rtol=1e-9, atol=1e-12)
            ctx.close(L.f(L.fi(eta)), eta, "the link does not invert its inverse", rtol=1e-8, atol=1e-9)
            g1 = R.d1(lambda x: f(x[0]), [m], 0)
            hh = 2e-3 * min([abs(m), abs(1 - m)] if c["link"][0] == "Logit" else ([m + c["link"][1]] if c["link"][0] == "LOGb" else [max(abs(m), 1e-9)]))
            g2 = R.d2(lambda x: f(x[0]), [m], 0, 0, h=hh)
            ctx.close(L.dy1(M), np.full(shape, g1), "first derivative of the link", rtol=1e-9, atol=1e-12)
            ctx.close(L.dy2(M), np.full(shape, g2), "second derivative of the link", rtol=1e-6, atol=1e-9 * max(1, abs(g2)))
            ctx.expect(np.array_equal(M, before), "the argument is modified")
        for e in (-30.0, -2.0, 0.0, 1.3, 30.0):
            mu = np.asarray(L.fi(np.array([[e]])))
            ctx.close(mu, [[fi(e)]], "inverse link values", rtol=1e-9, atol=1e-14)
        if c["link"][0] == "Logit":
            for e, w in ((-900.0, 0.0), (-720.0, 0.0), (38.0, 1.0), (720.0, 1.0), (900.0, 1.0)):
                ctx.close(L.fi(np.array([[e]])), [[w]], "inverse link values far out", rtol=0, atol=1e-15)
        ctx.trans(6)
        ctx.outcome(round(float(eta.ravel()[0]), 8))
    ctx.state(len(mus))
    ctx.trace()


def fam(c):
    import mssm.src.python.exp_fam as E
    k = c["fam"]
    L = mk_link(c["link"])
    if k == "Binomial":
        n = c["n"]
        return E.Binomial(link=L, n=np.array(n, dtype=float).reshape(-1, 1) if isinstance(n, list) else n)
    if k == "ScaledT":
        return E.ScaledT(link=L, theta=np.array(c["theta"], dtype=float).reshape(-1, 1), min_df=c["mdf"])
    if k == "Poisson":
        return E.Poisson(link=L)
    return getattr(E, k)(link=L)


def ref_lp(c, y, mu, scale=1.0, n=1, theta=None):
    k = c["fam"]
    if k == "Gaussian":
        return R.l_norm(y, mu, scale)
    if k == "Gamma":
        return R.l_gamma(y, mu, scale)
    if k == "InvGauss":
        return R.l_invgauss(y, mu, scale)
    if k == "Poisson":
        return R.l_pois(y, mu)
    if k == "Binomial":
        return R.l_binom(y, mu, n)
    return R.l_t(y, mu, np.exp(theta[0]), np.exp(theta[1]) + c["mdf"])


def grid(c):
    """(responses, means)"""
    k = c["fam"]
    if k in ("Gaussian", "ScaledT"):
        return [-7.0, -0.4, 0.0, 0.7, 3.0, 20.0], MU_REAL if c["link"][0] == "Identity" else MU_POS
    if k in ("Gamma", "InvGauss"):
        return [0.004, 0.3, 1.0, 2.9, 60.0], MU_POS
    if k == "Poisson":
        return [0, 1, 2, 7, 30], MU_POS
    return None, MU_UNIT


def fam_case(ctx, c):
    f = fam(c)
    k = c["fam"]
    ys, mus = grid(c)
    th = c.get("theta")
    scales = c["scales"]
    for m in mus:
        n = c.get("n", 1)
        ns = n if isinstance(n, list) else None
        if k == "Binomial":
            if ns is None:
                rows = [(j / n, n) for j in range(n + 1)]
            else:
                rows = [((j % (q + 1)) / q, q) for j, q in enumerate(ns)]
        else:
            rows = [(v, 1) for v in ys]
        Y = np.array([r[0] for r in rows], dtype=float).reshape(-1, 1)
        N = np.array([r[1] for r in rows], dtype=float).reshape(-1, 1)
        M = np.full(Y.shape, m)
        kw = [{"scale": s} for s in scales] if k in ("Gaussian", "Gamma", "InvGauss") else ([{"theta": np.array(th, dtype=float).reshape(-1, 1)}, {}] if k == "ScaledT" else [{}])
        for a in kw:
            s = a.get("scale", 1.0)
            lp = np.asarray(f.lp(Y, M, **a))
            want = np.array([np.real(ref_lp(c, r[0], m, s, r[1], th)) for r in rows]).reshape(-1, 1)
            ctx.expect(lp.shape == Y.shape, "shape of the log densities", f"{lp.shape}")
            ctx.close(lp, want, "log density", rtol=1e-8, atol=1e-9, detail=f"mu {m} {a}")
            ctx.close(f.llk(Y, M, **a), want.sum(), "log-likelihood is not the sum of the log densities", rtol=1e-8, atol=1e-8, detail=f"mu {m}")
            # deviance: twice the scaled gap to the saturated model
            sat = np.array([np.real(ref_lp(c, r[0], r[0] if (k != "Poisson" or r[0] > 0) else 1e-300, s, r[1], th)) for r in rows]).reshape(-1, 1)
            if k in ("Gaussian", "Gamma", "InvGauss") and len(scales) and s != scales[0]:
                pass
            D = np.asarray(f.D(Y, M, **({"theta": a["theta"]} if "theta" in a else {})))
            ctx.close(D, 2 * s * (sat - want), "deviance components", rtol=1e-6, atol=1e-7 * max(1, s * np.abs(want).max()), detail=f"mu {m} {a}")
            dv = f.deviance(Y, M, **({"theta": a["theta"]} if "theta" in a else {}))
            ctx.close(float(dv), float((2 * s * (sat - want)).sum()), "deviance", rtol=1e-6, atol=1e-6 * max(1, s * np.abs(want).max()))
            ctx.expect((D >= -1e-9).all(), "negative deviance component", f"{D.ravel()}")
        # mean and variance from the density itself
        V = float(np.asarray(f.V(np.array([[m]] * (len(ns) if ns else 1)))).ravel()[0])
        n0 = ns[0] if ns else n
        for s in scales[:2]:
            if k == "Poisson":
                q = np.arange(0, int(m + 40 * np.sqrt(m) + 60))
                p = np.exp([np.real(R.l_pois(v, m)) for v in q])
                mo = [np.sum(p), np.sum(p * q), np.sum(p * (q - m) ** 2)]
            elif k == "Binomial":
                q = np.arange(n0 + 1) / n0
                p = np.exp([np.real(R.l_binom(v, m, n0)) for v in q])
                mo = [np.sum(p), np.sum(p * q), np.sum(p * (q - m) ** 2)]
            elif k == "ScaledT":
                nu = np.exp(th[1]) + c["mdf"]
                mo = [1.0, m, np.exp(2 * th[0]) * nu / (nu - 2)]
            elif k == "Gaussian":
                mo = [1.0, m, s]
            elif k == "Gamma":
                mo = [1.0, m, s * m * m]
            else:
                mo = [1.0, m, s * m ** 3]
            sc = s if k in ("Gaussian", "Gamma", "InvGauss") else 1.0
            ctx.close(V * sc, mo[2], "the variance function is not the variance of the distribution", rtol=1e-6, atol=1e-10, detail=f"mu {m}")
        # derivative of the variance function
        h = 1e-4 * m if m != 0 else 1e-4
        rep = len(ns) if ns else 1
        num = (np.asarray(f.V(np.full((rep, 1), m + h))) - np.asarray(f.V(np.full((rep, 1), m - h)))) / (2 * h)
        got = np.asarray(f.dVy1(np.full((rep, 1), m)))
        ctx.close(np.broadcast_to(got, num.shape), num, "derivative of the variance function", rtol=1e-5, atol=1e-7 * max(1, abs(V)))
        ctx.trans(len(rows))
        ctx.outcome((k, c["link"][0], round(float(want.sum()), 6)))
    # admissible starting values
    Y0 = Y[:len(ns)] if ns else Y
    mu0 = np.asarray(f.init_mu(Y0))
    if not (k in ("Gaussian", "ScaledT") and c["link"][0] != "Identity"):
        ctx.expect(np.isfinite(np.asarray(f.link.f(mu0))).all() and np.isfinite(np.asarray(f.V(mu0))).all() and (np.asarray(f.V(mu0)) > 0).all(), "starting means are not admissible", f"{mu0.ravel()}")
    ctx.state(len(mus))
    ctx.trace()


def grad_case(ctx, c):
    """Derivatives of the log-likelihood in the coefficients and in log scale."""
    f = fam(c)
    k = c["fam"]
    N = 5
    X = np.column_stack([np.ones(N), vmc.gen(("X", 1), N), np.array([0, 1.0, 0, 0, -1])])
    if c["xpat"] < 7:
        for j in range(3):
            if not (c["xpat"] + 1) >> j & 1:
                X[:, j] = 0
    base = {"Identity": 3.0, "LOG": 0.4, "LOGb": 0.6, "Logit": 0.2}[c["link"][0]]
    if k == "Binomial" and c["link"][0] == "Identity":
        base = 0.5
    coef = np.array([base, 0.15, -0.1]) if c["cf"] == 0 else np.array([base, -0.2, 0.05])
    if c["xpat"] < 7 and not (c["xpat"] + 1) & 1:
        X[:, 0] = 1
    fi = R.link_fns(*c["link"])[1]
    mu = fi(X @ coef)
    n = 4
    if k == "Binomial":
        y = np.array([0, 1, 0.25, 0.5, 0.75])
    elif k == "Poisson":
        y = np.array([0, 1, 2, 5, 3.0])
    else:
        y = mu * np.array([0.4, 1.3, 1.0, 2.2, 0.9]) + (np.array([0.3, -0.2, 0.1, 0.5, -0.4]) if k == "Gaussian" else 0.0)

    def ll(x, s):
        m = fi(X @ x)
        return sum(ref_lp(c, y[i], m[i], s, n) for i in range(N))
    s = c["scale"]
    g = R.grad(lambda x: ll(x, s), coef)
    got = f.dllkdcoef(coef.reshape(-1, 1), y.reshape(-1, 1), scp.sparse.csc_array(X), **({"scale": s} if f.twopar else {}))
    ctx.close(np.asarray(got), g.reshape(-1, 1), "gradient in the coefficients", rtol=1e-7, atol=1e-8 * max(1, np.abs(g).max()))
    a, b = f.dllkdlscale(coef.reshape(-1, 1), y.reshape(-1, 1), scp.sparse.csc_array(X), scale=s), f.d2llkd2lscale(coef.reshape(-1, 1), y.reshape(-1, 1), scp.sparse.csc_array(X), scale=s)
    if k in ("Gaussian", "Gamma", "InvGauss"):
        h = lambda x: ll(coef, np.exp(x[0]))  # noqa: E731
        w1, w2 = R.d1(h, [np.log(s)], 0), R.d2(h, [np.log(s)], 0, 0, h=2e-3)
        ctx.close(a, w1, "derivative in log scale", rtol=1e-4, atol=1e-4)
        ctx.close(b, w2, "second derivative in log scale", rtol=1e-4, atol=1e-4)
    else:
        ctx.expect(a == 0 and b == 0, "scale derivatives of a family without scale", f"{a} {b}")
    ctx.trans(3)
    ctx.state()
    ctx.trace()
    ctx.outcome(np.round(g, 6))


def theta_case(ctx, c):
    f = fam(c)
    th = np.array(c["theta"], dtype=float)
    mdf = c["mdf"]
    other = np.array([[0.9], [1.7]])
    for Y in ([0.3], [-2.0, 0.0, 5.0], [7.0, 7.0, -0.1, 1.0]):
        for m in (0.0, 0.7, -3.0):
            y = np.array(Y)
            M = np.full((len(y), 1), m) + 0.1 * np.arange(len(y)).reshape(-1, 1)
            ll = lambda t: sum(R.l_t(y[i], M[i, 0], np.exp(t[0]), np.exp(t[1]) + mdf) for i in range(len(y)))  # noqa: E731
            for arg, t in ((th.reshape(-1, 1), th), (other, other.ravel())):
                sc = max(1.0, abs(np.real(ll(t))))
                ctx.close(f.gradientLTheta(y.reshape(-1, 1), M, arg), R.grad(ll, t).reshape(-1, 1), "gradient in theta", rtol=1e-6, atol=1e-8 * sc)
                ctx.close(f.hessianLTheta(y.reshape(-1, 1), M, arg), R.hess(ll, t), "Hessian in theta", rtol=1e-5, atol=1e-6 * sc)
                lD = lambda x: -2 * R.l_t(x[1], x[0], np.exp(t[0]), np.exp(t[1]) + mdf)  # noqa: E731
                for a, kw in ((arg, {"theta": arg}),) + (((None, {}),) if arg is not other else ()):
                    w1 = np.array([[R.d1(lD, [M[i, 0], y[i]], 0)] for i in range(len(y))])
                    w2 = np.array([[R.d2(lD, [M[i, 0], y[i]], 0, 0, h=2e-3 * max(1, abs(y[i] - M[i, 0])) * min(1, np.exp(t[0])))] for i in range(len(y))])
                    ctx.close(f.dDdmu(y.reshape(-1, 1), M, **kw), w1, "derivative of the deviance in the mean", rtol=1e-7, atol=1e-10)
                    ctx.close(f.d2Ddmu(y.reshape(-1, 1), M, **kw), w2, "second derivative of the deviance in the mean", rtol=1e-5, atol=1e-7 * max(1, np.exp(-2 * t[0])))
                    phi, nu = np.exp(t[0]), np.exp(t[1]) + mdf
                    ex = quad(lambda z: np.exp(np.real(R.l_t(z, 0.0, 1.0, nu))) * 2 * (nu + 1) * (1 / (nu * (1 + z * z / nu)) - 2 * z * z / (nu * (1 + z * z / nu)) ** 2), -np.inf, np.inf, epsabs=1e-12, epsrel=1e-10)[0] / phi ** 2
                    ctx.close(f.Ed2Ddmu(y.reshape(-1, 1), M, **kw), np.full((len(y), 1), ex), "expected second derivative of the deviance", rtol=1e-6, atol=1e-10)
                    ctx.close(f.V(M, **kw), np.full((len(y), 1), phi ** 2 * nu / (nu - 2)), "variance for given theta", rtol=1e-9)
                    ctx.close(f.lp(y.reshape(-1, 1), M, **kw), np.array([[np.real(R.l_t(y[i], M[i, 0], phi, nu))] for i in range(len(y))]), "log density for given theta", rtol=1e-9)
            ctx.trans(8)
    ctx.state()
    ctx.trace()
    ctx.outcome(tuple(np.round(R.grad(ll, th), 6)))


def resid_case(ctx, c):
    """Residuals of a fitted model: signed roots of the deviance components; Pearson residuals."""
    from mssm.models import GAMM, Formula, lhs, i, f
    import pandas as pd
    F = fam(c)
    N = 40
    x = np.linspace(0, 1, N)
    eta = 0.5 + 0.8 * np.sin(3 * x)
    if c["link"][0] == "Identity":
        eta = eta + 2
    e = vmc.gen(("res", c["fam"]), N)
    mu = R.link_fns(*c["link"])[1](eta)
    k = c["fam"]
    n = c.get("n", 1)
    if k == "Poisson":
        y = np.maximum(0, np.round(mu + np.sqrt(mu) * e)).astype(float)
    elif k == "Binomial":
        nn = np.array(n * (N // len(n)), dtype=float) if isinstance(n, list) else np.full(N, float(n))
        if isinstance(n, list):
            F.n = nn.reshape(-1, 1)
        y = np.clip(np.round(nn * (mu + 0.6 * e)), 0, nn) / nn
    elif k in ("Gamma", "InvGauss"):
        y = mu * np.exp(0.4 * e)
    else:
        y = mu + 0.5 * e
    dat = pd.DataFrame({"y": y, "x": x})
    m = GAMM(Formula(lhs("y"), [i(), f(["x"], nk=5)], data=dat), F)
    m.fit(progress_bar=False)
    pr = np.asarray(m.preds[0])
    M = pr if (k == "Gaussian" and c["link"][0] == "Identity") else R.link_fns(*c["link"])[1](pr)
    Y = y.reshape(-1, 1)
    nv = np.asarray(F.n if k == "Binomial" else 1)
    D = np.asarray(F.D(Y, M))
    rd = np.asarray(m.get_resid("Deviance"))
    ctx.expect(rd.shape == Y.shape, "shape of the deviance residuals")
    ctx.close(np.sum(rd ** 2), F.deviance(Y, M), "squared deviance residuals do not sum to the deviance", rtol=1e-8)
    ctx.close(rd, np.sign(Y - M) * np.sqrt(D), "deviance residuals", rtol=1e-8, atol=1e-9)
    if k != "ScaledT":
        V = {"Gaussian": np.ones_like(M), "Gamma": M ** 2, "InvGauss": M ** 3, "Poisson": M, "Binomial": M * (1 - M) / nv}[k]
        rp = np.asarray(m.get_resid())
        ctx.close(rp, (Y - M) / np.sqrt(V), "Pearson residuals", rtol=1e-5, atol=1e-6)
    ctx.trans(2)
    ctx.state()
    ctx.trace()
    ctx.outcome(np.round(rd[:4], 4))


LINKS = [["Logit"], ["Identity"], ["LOG"], ["LOGb", -0.0001], ["LOGb", -0.5], ["LOGb", 0.3], ["LOGb", 0.0]]


def run(chk):
    th = chk.thorough
    chk.explore("links", [dict(link=L) for L in LINKS], link_case, bounds="every link, means over 12 orders of magnitude", min_outcomes=20)
    sp = []
    for k in ("Gaussian", "Gamma", "InvGauss"):
        for L in (["Identity"], ["LOG"], ["LOGb", -0.0001], ["LOGb", 0.3]):
            sp.append(dict(fam=k, link=L, scales=[1.0, 0.04, 0.6, 5.0]))
    for L in (["LOG"], ["Identity"], ["LOGb", 0.3]):
        sp.append(dict(fam="Poisson", link=L, scales=[1.0]))
    for n in [1, 2, 5, 12, [3, 1, 7, 2, 7, 40], [2, 2], [1, 1, 1]]:
        for L in (["Logit"], ["Identity"], ["LOG"]):
            sp.append(dict(fam="Binomial", link=L, n=n, scales=[1.0]))
    tg = [[a, b] for a in (-1.5, 0.0, 0.5, 1.6) for b in (-3.0, 0.0, 1.2, 4.0, 10.0)]
    for t in tg:
        for mdf in (3, 2.5, 5):
            sp.append(dict(fam="ScaledT", link=["Identity"], theta=t, mdf=mdf, scales=[1.0]))
    chk.explore("families", sp, fam_case, bounds="6 families x their links x 5-6 means x all responses of the grid (all counts for the binomial), 4 scales, 60 settings of the scaled t", min_outcomes=100)
    sp = [dict(fam=k, link=L, scale=s, xpat=xp, cf=cf, n=4) for k in ("Gaussian", "Gamma", "InvGauss", "Poisson") for L in (["Identity"], ["LOG"], ["LOGb", 0.3], ["LOGb", -0.0001]) for s in ((1.0, 0.3, 4.0) if k != "Poisson" else (1.0,)) for xp in range(8) for cf in (0, 1)]
    sp += [dict(fam="Binomial", link=L, scale=1.0, xpat=xp, cf=cf, n=4) for L in (["Logit"], ["Identity"]) for xp in range(8) for cf in (0, 1)]
    chk.explore("coefficient derivatives", sp, grad_case, bounds="families x links x every pattern of zero columns x scales", min_outcomes=50)
    chk.explore("theta derivatives", [dict(fam="ScaledT", link=["Identity"], theta=t, mdf=m) for t in tg[: None if th else 20] for m in (3, 2.5, 5)], theta_case, bounds="60 settings of scale and degrees of freedom, 9 data sets", min_outcomes=20)
    sp = [dict(fam="Gaussian", link=L) for L in (["Identity"], ["LOG"])] + [dict(fam=k, link=["LOG"]) for k in ("Gamma", "InvGauss", "Poisson")] + [dict(fam="Gamma", link=["Identity"])] + [dict(fam="Binomial", link=["Logit"], n=n) for n in (1, 6, [2, 5, 9, 4])] + [dict(fam="ScaledT", link=["Identity"], theta=[-0.5, 1.0], mdf=3)]
    chk.explore("residuals", sp, resid_case, bounds="one fit per family and link", min_outcomes=5)
