"""C26: posterior draws are an affine image of the standard normal draws with the reported mean and covariance.

The sampler is linear in its normal draws, so its law is decided on a basis: for a fixed seed the normals are recovered from an identity
factor, the affine map is solved for from the draws (exact fit required) and its image covariance is compared with the dense posterior
covariance built from the model's Hessian and penalties.
"""
import itertools
import numpy as np
import scipy as scp
from scipy import stats
import vmc
import gam_ref as G
import fits as Q

LEVEL = "model_checking"
ASSUMPTIONS = ["scipy's normal generator is trusted to be standard normal (a coarse moment check on the fixed seeds guards the wiring).",
               "Fits use small data sets; convergence itself is decided by C23."]
T = G.T


def spd(p, key):
    A = vmc.gen(("spd", key, p), p, p + 2)
    return A @ A.T + 0.3 * np.eye(p)


def normals(p, n, seed):
    from mssm.src.python.utils import sample_MVN
    I = scp.sparse.eye_array(p, format="csc")
    return np.asarray(sample_MVN(n, 0, 1, None, None, LI=I, seed=seed))


def decide(ctx, draws, Z, mean, V, what, rtol=1e-7):
    """draws (k x n) must equal mean + A Z with A A' = V for one A."""
    k, n = draws.shape
    ctx.expect(k == len(mean), what + ": number of rows", f"{k} vs {len(mean)}")
    if k != len(mean):
        return None
    D = draws - np.asarray(mean).reshape(-1, 1)
    A = np.linalg.lstsq(Z.T, D.T, rcond=None)[0].T
    sc = 1 + np.max(np.abs(D)) if D.size else 1
    ctx.close(A @ Z, D, what + ": draws are not the mean plus a linear image of the normal draws", rtol=1e-7, atol=1e-8 * sc)
    Vs = np.asarray(V)
    ctx.close(A @ A.T, Vs, what + ": covariance of the draws", rtol=rtol, atol=rtol * max(1e-12, np.max(np.abs(Vs)) if Vs.size else 1))
    return A


# ------------------------------------------------------------------------------------------------------------------ the sampler
def mvn_case(ctx, c):
    from mssm.src.python.utils import sample_MVN
    p, scale, seed = c["p"], c["scale"], c["seed"]
    K = spd(p, c["seed"])
    V = np.linalg.inv(K) * scale
    n = p + 6
    Z = normals(p, n, seed)
    mu = vmc.gen(("mu", p, seed), p) * 3
    perms = list(itertools.permutations(range(p)))
    uses = [None] + [list(u) for r in range(1, p + 1) for u in itertools.permutations(range(p), r)] + [[0, 0]]
    for perm in perms:
        Pm = np.eye(p)[list(perm)]
        L = np.linalg.cholesky(Pm @ K @ Pm.T)
        Lc, Pc = scp.sparse.csc_array(L), scp.sparse.csc_array(Pm)
        LI = scp.sparse.csc_array(np.linalg.inv(L))
        for with_mu in (False, True):
            m = mu if with_mu else 0
            mm = mu if with_mu else np.zeros(p)
            k0 = mm.copy()
            a = sample_MVN(n, m, scale, Pc, Lc, seed=seed)
            decide(ctx, np.asarray(a), Z, mm, V, "draws from the factor")
            b = sample_MVN(n, m, scale, Pc, None, LI=LI, seed=seed)
            decide(ctx, np.asarray(b), Z, mm, V, "draws from the inverse factor")
            ctx.close(a, b, "the two factorisations give different draws for the same seed", rtol=1e-8, atol=1e-9)
            UI = scp.sparse.csc_array(np.linalg.inv(L) @ Pm)
            for u in uses:
                e = np.asarray(sample_MVN(n, m, scale, None, None, LI=UI, use=u, seed=seed))
                f = np.asarray(sample_MVN(n, m, scale, Pc, None, LI=LI, use=u, seed=seed))
                ix = list(range(p)) if u is None else u
                decide(ctx, e, Z, mm[ix], V[np.ix_(ix, ix)], "draws for selected coefficients")
                decide(ctx, f, Z, mm[ix], V[np.ix_(ix, ix)], "draws for selected coefficients (pivoted)")
                ctx.trans(2)
            ctx.expect(np.array_equal(k0, mm), "the mean is modified")
            ctx.trans(2)
            ctx.state(len(uses))
    # a rectangular inverse factor (sub-block of a larger posterior)
    for r in range(1, p + 1):
        for cols in itertools.combinations(range(p), r):
            LIr = scp.sparse.csc_array(np.linalg.inv(np.linalg.cholesky(K))[:, list(cols)])
            e = np.asarray(sample_MVN(n, mu[list(cols)], scale, None, None, LI=LIr, seed=seed))
            decide(ctx, e, Z, mu[list(cols)], V[np.ix_(cols, cols)], "draws from a block of the inverse factor")
            ctx.trans()
    ctx.outcome(round(float(Z[0, 0]), 8))
    ctx.trace()


def normal_case(ctx, c):
    p, n, seed = c["p"], c["n"], c["seed"]
    Z, Z2 = normals(p, n, seed), normals(p, n, seed)
    ctx.expect(np.array_equal(Z, Z2), "the same seed gives different draws")
    ctx.expect(Z.shape == (p, n), "shape")
    for r in range(p):
        ctx.expect(abs(Z[r].mean()) < 6 / np.sqrt(n) and abs(Z[r].var() - 1) < 6 * np.sqrt(2 / n), "underlying draws are not standard normal", f"{Z[r].mean()} {Z[r].var()}")
        ctx.expect(stats.kstest(Z[r], "norm").pvalue > 1e-7, "underlying draws are not standard normal")
        for s in range(r):
            ctx.expect(abs(np.mean(Z[r] * Z[s])) < 6 / np.sqrt(n), "underlying draws are correlated")
    ctx.expect(not np.allclose(Z, normals(p, n, seed + 1)), "different seeds give the same draws")
    a, b = normals(p, 5, None), normals(p, 5, None)
    ctx.expect(not np.allclose(a, b), "draws without a seed repeat")
    ctx.outcome(round(float(Z[0, 0]), 8))
    ctx.state()
    ctx.trans(p * n)
    ctx.trace()


# -------------------------------------------------------------------------------------------------------------------- the models
SP = {
    "lin": [T("i"), T("l", ["fac"])],
    "smooth": [T("i"), T("l", ["fac"]), T("f", ["x"], nk=5), T("ri", "sub")],
    "by": [T("i"), T("f", ["x"], nk=4, by="cond"), T("l", ["cond"])],
    "tensor": [T("i"), T("f", ["x", "z"], nk=3, te=True, basis_kwargs={"deg": 2}), T("rs", ["sub", "x"])],
    "noint": [T("f", ["x"], nk=4, identifiable=False), T("l", ["z"])],
    "fs": [T("i"), T("l", ["x"]), T("fs", ["x"], rf="sub", nk=4)],
    "none": [T("i")],
    "sm1": [T("i"), T("f", ["x"], nk=4)],
}


def build_model(c):
    d = Q.data(salt=c.get("salt", 0), n_per=10)
    k = c["model"]
    s = [SP[x] for x in c["terms"]]
    kw = dict(c.get("fit", {}))
    if k[0] == "GAMM":
        return Q.gamm(k[1], s[0], d, link=k[2], **kw), d
    if k[0] == "GAMMLSS":
        return Q.gammlss(k[1], s, d, **kw), d
    if k[1] == "PropHaz":
        s = [[T("l", ["z"])] + [t for t in s[0] if t[0] in ("f", "ri")]]  # no intercept in a hazard model
    return Q.gsmm(k[1], s, d, **kw), d


def posterior(m):
    """Dense posterior covariance of all coefficients from the log-likelihood Hessian and the penalties."""
    H = -G.dense(m.hessian)
    sc = m.scale
    K = H + Q.pen_matrix(m) / sc
    return np.linalg.inv(K)


def new_data(d):
    """New rows, with a symmetric grid so that columns can sum to zero."""
    k = 7
    out = d.iloc[np.arange(k) * 5 % len(d)].reset_index(drop=True).copy()
    out["x"] = np.linspace(0.1, 0.9, k)
    out["z"] = np.linspace(-3.0, 3.0, k)
    return out


def sub_uses(p, thorough):
    u = [None, [0], [p - 1], list(range(p))[::-1], list(range(0, p, 2)), [p - 1, 0]]
    return u + ([[j] for j in range(p)] if thorough else [])


def model_case(ctx, c):
    m, d = build_model(c)
    V = posterior(m)
    ctx.close(G.dense(m.lvi).T @ G.dense(m.lvi) * m.scale, V, "reported factor of the posterior covariance", rtol=1e-5, atol=1e-6 * np.max(np.abs(V)))
    nfull = len(m.coef)
    cuts = [0]
    for F in m.formulas:
        cuts.append(cuts[-1] + F.n_coef)
    npar = len(m.formulas)
    n = nfull + 5
    for par in range(npar):
        lo, hi = cuts[par], cuts[par + 1]
        co = np.asarray(m.coef).ravel()[lo:hi]
        Vp = V[lo:hi, lo:hi]
        p = hi - lo
        for seed in c["seeds"]:
            Z = normals(nfull, n, seed)
            for use in sub_uses(p, c["deep"]):
                ix = list(range(p)) if use is None else use
                dev = np.asarray(m.sample_post(n, use, deviations=True, seed=seed, par=par))
                dra = np.asarray(m.sample_post(n, use, deviations=False, seed=seed, par=par))
                decide(ctx, dev, Z, np.zeros(len(ix)), Vp[np.ix_(ix, ix)], f"deviations of parameter {par}", rtol=1e-5)
                decide(ctx, dra, Z, co[ix], Vp[np.ix_(ix, ix)], f"draws of parameter {par}", rtol=1e-5)
                ctx.close(dra - dev, np.repeat(co[ix][:, None], n, 1), "draws minus deviations are the estimate", rtol=1e-8, atol=1e-9 * (1 + np.abs(co).max()))
                ctx.expect(np.array_equal(dra, np.asarray(m.sample_post(n, use, deviations=False, seed=seed, par=par))), "the same seed gives different draws")
                ctx.trans(3)
                ctx.state()
        intervals(ctx, c, m, d, par, co, Vp)
    for bad in (npar, npar + 1):
        if c["model"][0] != "GAMM":
            try:
                m.sample_post(3, par=bad)
                ctx.fail("sampling a parameter the model does not have is accepted")
            except ValueError:
                pass
    ctx.outcome([round(float(x), 6) for x in m.coef.ravel()[:3]])
    ctx.trace()


def intervals(ctx, c, m, d, par, co, Vp):
    """Point-wise and whole-function intervals are functions of the same posterior."""
    nd = new_data(d)
    nd2 = nd.copy()
    nd2["x"] = nd["x"].to_numpy()[::-1]
    nd2["z"] = nd["z"].to_numpy()[::-1]
    F = m.formulas[par]
    nt = len(F.terms)
    subsets = [None] + [list(s) for r in range(1, nt + 1) for s in itertools.combinations(range(nt), r)]
    for ut in subsets:
        for alpha in (0.05, 0.2):
            with Q.quiet():
                pr, pm, b = m.predict(ut, nd, alpha=alpha, ci=True, par=par)
                _, pm0, b0 = m.predict(ut, nd, alpha=alpha, ci=False, par=par)
                _, pm2, _ = m.predict(ut, nd2, par=par)
                df, bd = m.predict_diff(nd, nd2, ut, alpha=alpha, par=par)
            X, X2 = G.dense(pm), G.dense(pm2)
            ctx.close(np.asarray(pr).ravel(), X @ co, "prediction", rtol=1e-8, atol=1e-9)
            ctx.expect(b0 is None, "interval returned without being asked for")
            zq = stats.norm.ppf(1 - alpha / 2)
            se = np.sqrt(np.maximum(np.diag(X @ Vp @ X.T), 0))
            D = X - X2
            sed = np.sqrt(np.maximum(np.diag(D @ Vp @ D.T), 0))
            ctx.close(b, zq * se, "point-wise interval", rtol=1e-4, atol=1e-6 * (1 + se.max()))
            ctx.close(np.asarray(df).ravel(), D @ co, "difference", rtol=1e-8, atol=1e-9)
            ctx.close(bd, zq * sed, "point-wise interval of a difference", rtol=1e-4, atol=1e-5 * (1 + sed.max()))
            nps, seed = 40, c["seeds"][0]
            dev = np.asarray(m.sample_post(nps, None, deviations=True, seed=seed, par=par))
            for M, s, which in ((X, se, "pred"), (D, sed, "diff")):
                keep = s > 1e-7 * max(1.0, np.max(np.abs(Vp)) ** 0.5)
                with Q.quiet():
                    if which == "pred":
                        wb = m.predict(ut, nd, alpha=alpha, ci=True, whole_interval=True, n_ps=nps, seed=seed, par=par)[2]
                        wb_ = m.predict(ut, nd, alpha=alpha, ci=True, whole_interval=True, n_ps=nps, seed=seed, par=par)[2]
                    else:
                        wb = m.predict_diff(nd, nd2, ut, alpha=alpha, whole_interval=True, n_ps=nps, seed=seed, par=par)[1]
                        wb_ = m.predict_diff(nd, nd2, ut, alpha=alpha, whole_interval=True, n_ps=nps, seed=seed, par=par)[1]
                ctx.expect(np.array_equal(np.asarray(wb), np.asarray(wb_), equal_nan=True), "whole-function interval differs between runs with the same seed")
                wb = np.asarray(wb)
                # 1-alpha of the drawn functions lie inside, and scaling is common to all points
                if keep.any():
                    q = np.quantile(np.max(np.abs(M[keep] @ dev) / (zq * s[keep])[:, None], axis=0), 1 - alpha)
                    ctx.close(wb[keep], q * zq * s[keep], f"whole-function interval ({which})", rtol=1e-4, atol=1e-7, detail=f"terms {ut}")
                ctx.expect(bool(np.all(np.abs(wb[~keep]) < 1e-4)), f"whole-function interval where nothing is estimated ({which})", f"terms {ut}: {wb}")
                ctx.trans(2)
            ctx.state()


MODELS = [
    dict(model=["GAMM", "Gaussian", None], terms=[["smooth"], ["by"], ["tensor"], ["noint"], ["fs"], ["lin"]]),
    dict(model=["GAMM", "Gaussian", "LOG"], terms=[["smooth"]]),
    dict(model=["GAMM", "Gamma", "LOG"], terms=[["smooth"], ["by"]]),
    dict(model=["GAMM", "InvGauss", "LOG"], terms=[["sm1"]]),
    dict(model=["GAMM", "Poisson", None], terms=[["smooth"], ["lin"]]),
    dict(model=["GAMM", "Binomial", None], terms=[["smooth"]]),
    dict(model=["GAMM", "ScaledT", None], terms=[["sm1"]]),
    dict(model=["GAMMLSS", "GAUMLSS"], terms=[["smooth", "sm1"], ["lin", "none"], ["by", "lin"]]),
    dict(model=["GAMMLSS", "GAMMALS"], terms=[["sm1", "none"]]),
    dict(model=["GAMMLSS", "MULNOMLSS"], terms=[["sm1", "lin"]]),
    dict(model=["GSMM", "wrap:GAUMLSS"], terms=[["sm1", "none"]]),
    dict(model=["GSMM", "PropHaz"], terms=[["smooth"], ["lin"]]),
    dict(model=["GSMM", "MultiGauss"], terms=[["sm1", "lin"], ["lin", "none"]]),
]


def run(chk):
    th = chk.thorough
    chk.explore("sampler", vmc.product(p=[1, 2, 3, 4] if th else [1, 2, 3], scale=[1.0, 0.25, 7.0], seed=[0, 3, 11] if th else [0, 3]), mvn_case,
                bounds="all pivotings, ordered coefficient subsets and column blocks of posteriors of up to 3 (thorough 4) coefficients, both factor forms, with and without mean", min_outcomes=2)
    chk.explore("normals", vmc.product(p=[1, 2, 3], n=[400, 2000], seed=[0, 1, 2, 3] if th else [0, 1]), normal_case, bounds="moment, distribution and repeatability check of the underlying draws for fixed seeds", min_outcomes=2)
    cases = []
    for mdl in MODELS:
        for t in mdl["terms"]:
            for salt in ([0, 1] if th else [0]):
                cases.append(dict(model=mdl["model"], terms=t, salt=salt, seeds=[0, 5] if th else [5], deep=th))
    for t in (["smooth"], ["tensor"]):
        cases.append(dict(model=["GAMM", "Gaussian", None], terms=t, salt=0, seeds=[5], deep=th, fit={"method": "Chol"}))
        cases.append(dict(model=["GAMM", "Gaussian", None], terms=t, salt=0, seeds=[5], deep=th, fit={"rho": 0.4}))
    chk.explore("models", cases, model_case, bounds="every model class and family, every parameter, coefficient selections and every subset of terms for intervals", min_outcomes=8)
