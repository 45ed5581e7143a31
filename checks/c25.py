"""C25: AR(1) residual model against dense generalised least squares, over all divisions of rows into series and all missing patterns."""
import itertools
import numpy as np
import pandas as pd
import vmc
import gam_ref as G
import fits as Q

LEVEL = "model_checking"
ASSUMPTIONS = ["Rows of one series are contiguous (the documented data layout); distance within a series counts the remaining observations.",
               "For non-Gaussian or non-identity models the property is about the working model (documented by the repository)."]
T = G.T


def compositions(n):
    for cuts in itertools.product([0, 1], repeat=n - 1):
        out, k = [], 1
        for c in cuts:
            if c:
                out.append(k)
                k = 1
            else:
                k += 1
        yield out + [k]


def series_of(comp):
    return np.repeat(np.arange(len(comp)), comp)


def frame(comp, salt=0, names="fwd"):
    n = sum(comp)
    ser = series_of(comp)
    lab = [f"s{j:02d}" if names == "fwd" else f"s{97 - 7 * j:02d}" for j in ser]  # labels need not sort in row order
    x = vmc.gen(("ar-x", salt, n), n, lo=0, hi=1)
    return pd.DataFrame(dict(y=vmc.gen(("ar-y", salt, n), n, lo=-2, hi=2) + x, x=x, off=vmc.gen(("ar-o", n), n), s=lab))


def corr(ser, rho):
    """Dense error correlation: rho^distance inside a series, zero between."""
    n = len(ser)
    V = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if ser[a] == ser[b]:
                V[a, b] = rho ** abs(a - b)
    return V


def factor_case(ctx, c):
    from mssm.src.python.utils import computeAr1Chol
    comp = c["comp"]
    n = sum(comp)
    ser = series_of(comp)
    for with_id in (True, False):
        if not with_id and len(comp) > 1:
            continue
        for mask in itertools.product([0, 1], repeat=n):
            keep = np.array(mask) == 0
            if not keep.any():
                continue
            d = frame(comp, names=c["names"])
            d.loc[~keep, "y"] = np.nan
            F = Q.formula("y", [T("i"), T("l", ["x"])], d, series_id="s" if with_id else None)
            for rho in c["rhos"]:
                L, llc = computeAr1Chol(F, rho)
                L = G.dense(L)
                V = corr(ser[keep] if with_id else np.zeros(keep.sum()), rho)
                K = np.linalg.inv(V)
                ctx.close(L @ L.T, K, "error precision", rtol=1e-8, atol=1e-9, detail=f"mask {mask} rho {rho} id {with_id}")
                ctx.close(L.T @ V @ L, np.eye(len(V)), "whitened errors are not independent with unit variance", rtol=1e-8, atol=1e-8)
                ctx.expect(np.allclose(np.tril(L, -1), 0), "factor is not upper triangular")
                ctx.close(llc, 0.5 * np.linalg.slogdet(K)[1], "log-likelihood correction", rtol=1e-8, atol=1e-9, detail=f"mask {mask} rho {rho} id {with_id}")
                ctx.trans(2)
            ctx.state()
    ctx.outcome(comp)
    ctx.trace()


def rank(ser):
    return np.asarray(ser)


def whiten(V):
    """Unique upper-triangular L with L L' = V^-1 and positive diagonal."""
    K = np.linalg.inv(V)
    n = len(V)
    J = np.eye(n)[::-1]
    return J @ np.linalg.cholesky(J @ K @ J) @ J


def check_gaussian(ctx, m, d, keep, V, off, rho, what, tol=1e-6):
    """Everything the fit reports, against dense GLS with the reported smoothing parameters."""
    F = m.formulas[0]
    X = G.dense(m.get_mmat())
    y = d["y"].to_numpy()[keep]
    o = np.zeros(len(d)) if off is None else (np.full(len(d), off) if np.isscalar(off) else np.asarray(off))
    o = o[keep]
    n = len(y)
    S = Q.pen_matrix(m, X.shape[1])
    K = np.linalg.inv(V)
    A = X.T @ K @ X + S
    b = np.linalg.solve(A, X.T @ K @ (y - o))
    r = y - o - X @ b
    edf = np.trace(np.linalg.solve(A, X.T @ K @ X))
    sc = r @ K @ r / (n - edf)
    ctx.close(m.coef.ravel(), b, what + ": coefficients", rtol=tol, atol=tol)
    ctx.close(m.edf, edf, what + ": effective degrees of freedom", rtol=tol, atol=tol)
    ctx.close(m.scale, sc, what + ": scale", rtol=tol, atol=tol)
    ctx.close(m.preds[0].ravel(), X @ b + o, what + ": fitted values", rtol=tol, atol=tol)
    ctx.close(m.get_resid("Pearson").ravel(), r, what + ": residuals", rtol=tol, atol=tol)
    if rho is not None:
        ctx.close(m.get_resid("ar1").ravel(), whiten(V).T @ r, what + ": whitened residuals", rtol=tol, atol=tol)
    ctx.close(G.dense(m.lvi).T @ G.dense(m.lvi) * m.scale, np.linalg.inv(A) * sc, what + ": covariance", rtol=1e-5, atol=1e-7)
    ctx.close(-G.dense(m.hessian), X.T @ K @ X / sc, what + ": negative Hessian", rtol=tol, atol=tol)
    s_ = float(m.scale)
    llk = -0.5 * n * np.log(2 * np.pi * s_) + 0.5 * np.linalg.slogdet(K)[1] - 0.5 * r @ K @ r / s_
    ctx.close(m.get_llk(False), llk, what + ": log-likelihood", rtol=1e-6, atol=1e-6)
    pen = b @ S @ b / s_
    return llk, pen, A, S


def gls_case(ctx, c):
    comp, rho = c["comp"], c["rho"]
    n = sum(comp)
    ser = series_of(comp)
    masks = [m for r in range(c["maxna"] + 1) for m in itertools.combinations(range(n), r)]
    for mask in masks:
        keep = np.ones(n, bool)
        keep[list(mask)] = False
        d = frame(comp, salt=1, names=c["names"])
        d.loc[~keep, "y"] = np.nan
        off = {"none": None, "num": 0.7, "arr": d["off"].to_numpy().copy()}[c["off"]]
        before = d.copy()
        kw = {} if off is None else {"offset": off if np.isscalar(off) else off.reshape(-1, 1).copy()}
        m = Q.gamm("Gaussian", [T("i"), T("l", ["x"])], d, fkw=dict(series_id="s"), rho=rho, **kw)
        V = corr(ser[keep], rho)
        check_gaussian(ctx, m, d, keep, V, off, rho, f"rows {comp} missing {mask}")
        ctx.expect(before.equals(d), "the data are modified by fitting")
        ctx.close(m.formulas[0].y_flat.ravel(), before["y"].to_numpy(), "the response is modified by fitting", rtol=0, atol=0)
        ctx.trans()
        ctx.state()
        ctx.outcome(round(float(m.coef[0, 0]), 8))
    ctx.trace()


SM = {"f": [T("i"), T("f", ["x"], nk=5)], "fr": [T("i"), T("f", ["x"], nk=5), T("ri", "sub")], "by": [T("i"), T("f", ["x"], nk=4, by="cond"), T("l", ["cond"])],
      "irf": [T("i"), T("irf", ["time"], nk=4, basis_kwargs=G.BK)], "rs": [T("i"), T("l", ["x"]), T("rs", ["x"], by="sub")]}


def smooth_case(ctx, c):
    d = Q.data(salt=c["salt"], n_per=8)
    n = len(d)
    pats = {"none": [], "first": [0], "starts": [int(j) for j in np.unique(d["series"].to_numpy(), return_index=True)[1]], "ends": [6, 14, n - 1], "mid": [3, 4, 11],
            "series": list(np.where(d["series"] == "r02")[0]), "firstseries": list(np.where(d["series"] == "r00")[0]), "mix": [0, 1, 6, 7, 8, 22, n - 1]}
    miss = pats[c["na"]]
    keep = np.ones(n, bool)
    keep[miss] = False
    d.loc[~keep, "y"] = np.nan
    rho = c["rho"]
    ser = np.unique(d["series"], return_inverse=True)[1] if c["id"] or c["terms"] == "irf" else np.zeros(n)  # impulse response terms need series
    m = Q.gamm("Gaussian", SM[c["terms"]], d, fkw=dict(series_id="series" if c["id"] else None), rho=rho, method=c["method"])
    llk, pen, A, S = check_gaussian(ctx, m, d, keep, corr(ser[keep], rho), None, rho, f"{c}", tol=2e-5)
    ctx.close(m.get_llk(True), llk - 0.5 * float(np.asarray(m.penalty).ravel()[0]) / m.scale, "penalised log-likelihood", rtol=1e-6, atol=1e-6)
    ctx.state()
    ctx.trans()
    ctx.trace()
    ctx.outcome(round(float(m.coef[0, 0]), 7))


def working_case(ctx, c):
    """Generalised models: the converged estimates solve the AR(1)-whitened working model."""
    d = Q.data(salt=c["salt"], n_per=9)
    n = len(d)
    fam, link = c["fam"]
    lhs = "ypos" if (fam == "Gaussian" and link == "LOG") else Q.LHS[fam]
    miss = {"none": [], "starts": [0, 8, 9], "mix": [0, 5, 17, n - 1]}[c["na"]]
    keep = np.ones(n, bool)
    keep[miss] = False
    d.loc[~keep, lhs] = np.nan
    rho = c["rho"]
    ser = np.unique(d["series"], return_inverse=True)[1] if c["id"] else np.zeros(n)
    m = Q.gamm(fam, SM[c["terms"]], d, link=link, fkw=dict(series_id="series" if c["id"] else None), rho=rho, conv_tol=1e-11,
               **{"none": {}, "num": {"offset": 0.4}, "arr": {"offset": d["off"].to_numpy().reshape(-1, 1)}}[c["off"]])
    X = G.dense(m.get_mmat())
    y = d[lhs].to_numpy()[keep]
    b = m.coef.ravel()
    o = {"none": np.zeros(n), "num": np.full(n, 0.4), "arr": d["off"].to_numpy()}[c["off"]][keep]
    eta = X @ b + o
    ctx.close(m.preds[0].ravel(), eta, "linear predictor", rtol=1e-6, atol=1e-6)
    V = corr(ser[keep], rho)
    L = whiten(V)
    f, fi, d1 = {"LOG": (np.log, np.exp, lambda u: 1 / u), "Logit": (lambda p: np.log(p / (1 - p)), lambda e: 1 / (1 + np.exp(-e)), lambda u: 1 / (u * (1 - u)))}[link or {"Poisson": "LOG", "Binomial": "Logit"}[fam]]
    mu = fi(eta)
    var = {"Gaussian": lambda u: np.ones_like(u), "Gamma": lambda u: u ** 2, "Poisson": lambda u: u, "Binomial": lambda u: u * (1 - u), "InvGauss": lambda u: u ** 3}[fam](mu)
    w = np.sqrt(1 / (d1(mu) ** 2 * var))
    z = eta + d1(mu) * (y - mu)
    if fam == "Gaussian":
        ctx.expect(np.all(np.isfinite(w)), "weights")
    S = Q.pen_matrix(m, X.shape[1])
    Xw, zw = L.T @ (w[:, None] * X), L.T @ (w * (z - o))
    A = Xw.T @ Xw + S
    want = np.linalg.solve(A, Xw.T @ zw)
    ctx.close(b, want, "coefficients do not solve the whitened working model", rtol=1e-3, atol=1e-3 * (1 + np.abs(want).max()))
    r = zw - Xw @ b
    edf = np.trace(np.linalg.solve(A, Xw.T @ Xw))
    ctx.close(m.edf, edf, "effective degrees of freedom", rtol=1e-3, atol=1e-3)
    if fam in ("Gaussian", "Gamma", "InvGauss"):
        ctx.close(m.scale, r @ r / (len(y) - edf), "scale", rtol=1e-3, atol=1e-6)
    ctx.close(m.get_resid("ar1").ravel(), r, "whitened residuals", rtol=2e-3, atol=2e-3 * np.abs(r).max())
    ctx.close(m.get_resid("Pearson").ravel(), w * (z - eta), "working residuals", rtol=2e-3, atol=2e-3 * np.abs(r).max())
    ctx.close(G.dense(m.lvi).T @ G.dense(m.lvi) * m.scale, np.linalg.inv(A) * m.scale, "covariance", rtol=5e-3, atol=5e-3 * np.max(np.abs(np.linalg.inv(A))) * m.scale)
    ctx.close(-G.dense(m.hessian) * m.scale, Xw.T @ Xw, "negative Hessian", rtol=1e-3, atol=1e-3 * np.abs(Xw.T @ Xw).max())
    ctx.state()
    ctx.trans()
    ctx.trace()
    ctx.outcome(round(float(b[0]), 7))


def run(chk):
    th = chk.thorough
    nmax = 7 if th else 6
    cases = [dict(comp=c, names=nm, rhos=[-0.6, 0.3, 0.95] if th else [-0.6, 0.9]) for n in range(1, nmax + 1) for c in compositions(n) for nm in (["fwd", "rev"] if n <= 4 or th else ["rev"])]
    chk.explore("factor", cases, factor_case, bounds=f"all divisions of up to {nmax} rows into series x all missing patterns leaving an observation x signs of rho, with and without series", min_outcomes=8)
    n = 8 if th else 7
    cs = [dict(comp=c, rho=r, off=o, maxna=(2 if th else 1), names="rev") for c in compositions(n) for r in (0.6, -0.4) for o in ("none", "num", "arr") if th or o == "none" or len(c) <= 3]
    chk.explore("gls", cs, gls_case, bounds=f"all divisions of {n} rows x up to {2 if th else 1} missing rows x offsets: everything a Gaussian fit reports", min_outcomes=20)
    chk.explore("penalised", vmc.product(terms=list(SM), na=["none", "first", "starts", "ends", "mid", "series", "firstseries", "mix"], rho=[0.5, -0.3] if th else [0.5], id=[True, False], method=["QR", "Chol"] if th else ["QR"], salt=[0]),
                smooth_case, bounds="penalised Gaussian fits x missing patterns (starts, ends, whole series)", min_outcomes=8)
    chk.explore("working", [dict(fam=f, rho=r, id=i, na=na, terms=t, off=o, salt=0) for f in (["Gamma", "LOG"], ["Poisson", None], ["Binomial", None], ["Gaussian", "LOG"], ["InvGauss", "LOG"]) for r in ((0.4, -0.3) if th else (0.4,)) for i in (True, False)
                            for na in ("none", "starts", "mix") for o in ("none", "num", "arr") for t in (("f", "fr") if th else ("f",))],
                working_case, bounds="generalised models: whitened working model at convergence", min_outcomes=5)
