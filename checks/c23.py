"""C23: fits that report convergence are stationary points of their penalised likelihood, satisfy the identities they report, and do not
depend on how the same model was specified. Every combination of class, family, solver option and term structure of bounded universes is
fitted by the real code and decided by a dense reference that shares nothing with the solvers."""
import itertools
import numpy as np
import vmc
import gam_ref as G
import dist_ref as R
import fits as Q

LEVEL = "model_checking"
ASSUMPTIONS = ["Fits that do not report convergence (info.code != 0) are counted but not judged.",
               "Stationarity is judged by the Newton decrement relative to the penalised deviance / log-likelihood, the scale of the solvers' own convergence tolerance.",
               "Fellner-Schall fixed points are judged for smoothing parameters below 1e4 (beyond that the criterion is flat)."]
T = G.T

TERMS = {
    "lin": [T("i"), T("l", ["fac"]), T("l", ["x"])],
    "sm": [T("i"), T("l", ["fac"]), T("f", ["x"], nk=6)],
    "add": [T("i"), T("f", ["x"], nk=6), T("f", ["z"], nk=5)],
    "by": [T("i"), T("l", ["cond"]), T("f", ["x"], nk=5, by="cond"), T("ri", "sub")],
    "id": [T("i"), T("f", ["x"], nk=5, by="cond", id=1), T("f", ["z"], nk=5, id=3), T("f", ["w"], nk=5, id=3)],
    "ids": [T("i"), T("f", ["x"], nk=5, id=7), T("f", ["z"], nk=5, id=3), T("f", ["w"], nk=5, id=3)],
    "null": [T("i"), T("f", ["x"], nk=6, penalize_null=True), T("ri", "sub")],
    "rp": [T("i"), T("f", ["x"], nk=6, rp=1), T("f", ["z"], nk=5, rp=1, penalize_null=True)],
    "te": [T("i"), T("f", ["x", "z"], nk=4, te=True, basis_kwargs={"deg": 2})],
    "ti": [T("i"), T("f", ["x"], nk=5), T("f", ["z"], nk=5), T("f", ["x", "z"], nk=3, basis_kwargs={"deg": 2})],
    "fs": [T("i"), T("l", ["cond"]), T("fs", ["x"], rf="sub", nk=5)],
    "rs": [T("i"), T("l", ["x"]), T("rs", ["x", "sub"]), T("ri", "sub")],
    "irf": [T("i"), T("irf", ["time"], nk=6, basis_kwargs=G.BK), T("ri", "sub")],
    "cont": [T("i"), T("f", ["x"], nk=5, by_cont="w"), T("l", ["w"])],
    "bin": [T("i"), T("f", ["x"], nk=5), T("f", ["x"], nk=5, binary=["fac", "mid"])],
}
FAMS = [("Gaussian", None), ("Gaussian", "LOG"), ("Gamma", None), ("Gamma", "LOG"), ("InvGauss", None), ("Poisson", None), ("Binomial", None), ("ScaledT", None)]


def offset_of(kind, d):
    return {None: None, "float": 0.3, "arr": d["off"].to_numpy().reshape(-1, 1).copy()}[kind]


def link_of(fam, m):
    return type(m.family.link).__name__


def inv_link(name, eta):
    return {"Identity": lambda e: e, "LOG": np.exp, "Logit": lambda e: 1 / (1 + np.exp(-e)), "Logit2": None}[name](eta)


def dmu(name, eta):
    return {"Identity": lambda e: np.ones_like(e), "LOG": np.exp, "Logit": lambda e: np.exp(-np.abs(e)) / (1 + np.exp(-np.abs(e))) ** 2}[name](eta)


VAR = {"Gaussian": lambda m: np.ones_like(m), "Gamma": lambda m: m**2, "InvGauss": lambda m: m**3, "Poisson": lambda m: m, "Binomial": lambda m: m * (1 - m)}


def loglik(fam, y, mu, scale, theta=None):
    y, mu = np.ravel(y), np.ravel(mu)
    if fam == "Gaussian":
        return sum(float(R.l_norm(a, b, scale)) for a, b in zip(y, mu))
    if fam == "Gamma":
        return sum(float(R.l_gamma(a, b, scale)) for a, b in zip(y, mu))
    if fam == "InvGauss":
        return sum(float(R.l_invgauss(a, b, scale)) for a, b in zip(y, mu))
    if fam == "Poisson":
        return sum(float(R.l_pois(a, b)) for a, b in zip(y, mu))
    if fam == "Binomial":
        return sum(float(R.l_binom(a, b, 1)) for a, b in zip(y, mu))


def unit_dev(fam, y, mu):
    if fam == "Gaussian":
        return (y - mu) ** 2
    if fam == "Gamma":
        return 2 * ((y - mu) / mu - np.log(y / mu))
    if fam == "InvGauss":
        return (y - mu) ** 2 / (mu**2 * y)
    if fam == "Poisson":
        return 2 * ((y * np.log(y / mu) if y > 0 else 0) - (y - mu))
    return 2 * ((y * np.log(y / mu) if y > 0 else 0) + ((1 - y) * np.log((1 - y) / (1 - mu)) if y < 1 else 0))


def t_pieces(m, y, mu):
    """Score, expected and observed information of ScaledT in mu (numerical, from the density)."""
    th = np.ravel(m.family.theta)
    h = 1e-4
    f = lambda k: m.family.lp(y, mu + k * h)  # decided against the density by C16
    l = [np.ravel(f(k)) for k in (-2, -1, 0, 1, 2)]
    g = (l[0] - 8 * l[1] + 8 * l[3] - l[4]) / (12 * h)
    return g


def block_edf(pens, F):
    """Sum of the diagonal of the influence matrix over each penalised block."""
    from mssm.src.python.penalties import split_shared_penalties
    blocks = []
    for p in split_shared_penalties(pens):
        b = (p.start_index, p.S_J.shape[1] * p.rep_sj)
        if b not in blocks:
            blocks.append(b)
    return blocks, [np.sum(np.diag(F)[a:a + n]) for a, n in blocks]


def gamm_identities(ctx, m, fam, d, off, what="", tight=False):
    """Everything a GAMM fit reports, from its coefficients and smoothing parameters."""
    F = m.formulas[0]
    ok = F.NOT_NA_flat
    with Q.quiet():
        X = G.dense(m.get_mmat())
        y = np.ravel(m.get_ys())
    n, p = X.shape
    o = 0.0 if off is None else (off if np.isscalar(off) else np.ravel(off)[ok])
    b = np.ravel(m.coef)
    eta = X @ b + o
    lk = type(m.family.link).__name__
    mu = inv_link(lk, eta)
    gaus = fam == "Gaussian" and lk == "Identity"
    S = Q.pen_matrix(m, p)
    ctx.close(np.ravel(m.preds[0]), eta, what + "linear predictor of the coefficients", rtol=1e-6, atol=1e-6)
    ctx.close(np.ravel(m.mus[0]), mu, what + "fitted means", rtol=1e-6, atol=1e-6)
    scale = float(m.scale)
    drop = m.info.dropped
    keep = np.setdiff1d(np.arange(p), drop if drop is not None else [])
    if drop is not None:
        ctx.expect(np.all(b[drop] == 0), what + "dropped coefficients are not zero")
    if fam == "ScaledT":
        g = t_pieces(m, y.reshape(-1, 1), mu.reshape(-1, 1)) * dmu(lk, eta)
        nu, sig = None, None
    else:
        V = VAR[fam](mu)
        sat = V * dmu(lk, eta) == 0  # the mean is at its boundary: the observation carries no information
        V = np.where(sat, 1.0, V)
        g = np.where(sat, 0.0, (y - mu) / V * dmu(lk, eta))
        ctx.outcome(("saturated", bool(sat.any())))
    dev = float(np.ravel(m.family.deviance(y.reshape(-1, 1), mu.reshape(-1, 1)))[0]) if fam != "Gaussian" else float(np.sum((y - mu) ** 2))
    pen = float(b @ S @ b)
    H = -G.dense(m.hessian) * scale
    A = (H + S)[np.ix_(keep, keep)]
    s = (X.T @ g - S @ b)[keep]
    dec = float(s @ np.linalg.solve(A, s))
    if fam == "ScaledT":
        dec = dec  # scores of a unit-scale density; the penalty is on the same scale
    ctx.expect(dec <= 1e-5 * (1e-3 + dev + abs(pen)), what + "coefficients are not stationary for the penalised likelihood", f"decrement {dec:.3g}, penalised deviance {dev + pen:.5g}")
    ctx.close(float(np.ravel(m.penalty)[0]), pen, what + "penalty", rtol=1e-3 if not gaus else 1e-6, atol=1e-5)
    # Hessian
    if fam != "ScaledT":
        W = np.where(sat, 0.0, dmu(lk, eta) ** 2 / V)
        tol = 1e-9 if gaus else 1e-4
        Xk = X.copy()
        if drop is not None:
            Xk[:, drop] = 0
        want = -(Xk.T * W) @ Xk / scale
        ctx.close(G.dense(m.hessian), want, what + "expected Hessian", rtol=tol, atol=tol * np.abs(want).max())
        if not gaus and m.hessian_obs is not None and drop is None:
            h = 1e-5
            gp = (y - inv_link(lk, eta + h)) / VAR[fam](inv_link(lk, eta + h)) * dmu(lk, eta + h)
            gm = (y - inv_link(lk, eta - h)) / VAR[fam](inv_link(lk, eta - h)) * dmu(lk, eta - h)
            wn = np.where(sat, 0.0, -(gp - gm) / (2 * h))
            want = -(X.T * wn) @ X / scale
            ctx.close(G.dense(m.hessian_obs), want, what + "observed Hessian", rtol=1e-3, atol=1e-3 * np.abs(want).max())
    Vp = np.linalg.inv(A)
    L = G.dense(m.lvi)
    got = (L.T @ L)[np.ix_(keep, keep)]
    tol = 1e-6 if gaus else 2e-3
    ctx.close(got, Vp, what + "covariance", rtol=tol, atol=tol * np.abs(Vp).max())
    if drop is not None:
        ctx.expect(np.all((L.T @ L)[drop] == 0), what + "dropped coefficients have a variance")
    Fm = np.zeros((p, p))
    Fm[np.ix_(keep, keep)] = Vp @ H[np.ix_(keep, keep)]
    edf = np.trace(Fm)
    tol = 1e-6 if gaus else 2e-3
    ctx.close(float(m.edf), edf, what + "total edf", rtol=tol, atol=tol)
    if m.term_edf is not None and drop is None:
        blocks, want = block_edf(m.overall_penalties, Fm)
        ctx.expect(len(want) == len(m.term_edf), what + "number of term-wise edf", f"{len(want)} {len(m.term_edf)}")
        if len(want) == len(m.term_edf):
            ctx.close(np.sort(np.ravel(m.term_edf)), np.sort(want), what + "term-wise edf", rtol=tol, atol=max(tol, 1e-5))
    # scale
    if fam in ("Poisson", "Binomial"):
        ctx.expect(scale == 1, what + "scale of a family with known scale", scale)
    elif fam == "ScaledT":
        ctx.expect(scale == 1, what + "scale of a family with known scale", scale)
    else:
        want = np.sum(((y - mu) ** 2 / V)[~sat]) / (n - sat.sum() - edf)
        ctx.close(scale, want, what + "scale", rtol=1e-6 if gaus else 2e-3)
    # reported log-likelihood
    if fam != "ScaledT":
        with Q.quiet():
            ctx.close(m.get_llk(False), loglik(fam, y, mu, scale), what + "log-likelihood", rtol=1e-6, atol=1e-6)
            ctx.close(m.get_llk(True), loglik(fam, y, mu, scale) - 0.5 * pen / scale, what + "penalised log-likelihood", rtol=1e-4, atol=1e-4)
    with Q.quiet(), np.errstate(all="ignore"):
        ctx.close(np.ravel(m.get_pars()[0]), b, what + "coefficients returned", rtol=0, atol=0)
        if fam != "ScaledT":
            pr = np.where(sat, 0.0, (y - mu) / np.sqrt(V))
            rt = 2e-3 if not gaus else 1e-6
            ctx.close(np.ravel(m.get_resid()), pr, what + "Pearson residuals", rtol=rt, atol=rt)
            dr = np.sign(y - mu) * np.sqrt(np.maximum([unit_dev(fam, a, q) for a, q in zip(y, mu)], 0))
            ctx.close(np.ravel(m.get_resid(type="Deviance")), dr, what + "deviance residuals", rtol=rt, atol=1e-5)
            ctx.close(np.ravel(m.res), pr, what + "working residuals", rtol=2e-3 if not gaus else 1e-6, atol=2e-3 if not gaus else 1e-6)
    # fixed point of the smoothing parameters
    if tight and m.overall_penalties and drop is None:
        fixed_point(ctx, m.overall_penalties, S, Vp, b, scale, what)
    return dec / (1e-3 + dev + abs(pen))


def fixed_point(ctx, pens, S, V, b, scale, what, tol=0.02):
    from scipy.sparse.csgraph import connected_components
    Sm = np.zeros_like(S)
    nc, lab = connected_components(S != 0, directed=False)
    for q in range(nc):  # penalised blocks may differ by many orders of magnitude
        ix = np.ix_(lab == q, lab == q)
        Sm[ix] = np.linalg.pinv(S[ix], rcond=1e-9, hermitian=True)
    for j, p in enumerate(pens):
        Sj = G.dense(p.S_J_emb)
        t1, t2, q = np.trace(Sm @ Sj), np.trace(V @ Sj), float(b @ Sj @ b) / scale
        if getattr(p, "frozen", False) or not 1e-4 < p.lam < 1e4:
            continue
        r = (t1 - t2) / q
        ctx.expect(abs(r - 1) < tol, what + "smoothing parameter is not a fixed point of the Fellner-Schall update", f"penalty {j} lambda {p.lam:.5g} ratio {r:.5g}")


def gamm_case(ctx, c):
    d = Q.data(salt=3, n_per=c.get("n_per", 16))
    off = offset_of(c.get("off"), d)
    fam, link = c["fam"]
    kw = dict(c.get("fit", {}))
    m = Q.gamm(fam, TERMS[c["terms"]], d, link=link, offset=None if off is None else (off if np.isscalar(off) else off.copy()), **kw)
    ctx.state(1)
    ctx.trans(int(m.info.iter))
    ctx.outcome((fam, link, c["terms"], m.info.code))
    if m.info.code != 0:
        ctx.outcome("not converged")
        return
    gamm_identities(ctx, m, fam, d, off, tight=kw.get("conv_tol", 1e-7) <= 1e-9)


# ---- distributional and general models -------------------------------------------------------------------------------------------------
def model_llk(kind, m):
    """Log-likelihood of the model as an analytic function of its coefficient vector, from the densities alone."""
    with Q.quiet():
        Xs = m.get_mmat()
        ys = m.get_ys()
    Xs = [G.dense(X) for X in (Xs if isinstance(Xs, list) else [Xs])]
    if kind == "MultiGauss":
        Y = np.column_stack([np.ravel(v) for v in ys])
    else:
        Y = np.ravel(ys[0]) if isinstance(ys, list) else np.ravel(ys)
    idx = np.cumsum([X.shape[1] for X in Xs])
    if kind == "PropHaz":
        dl = Y
        t = np.asarray(m.family.ut)[np.asarray(m.family.r)]
        ev = np.flatnonzero(dl)
        risk = [t >= t[i] for i in ev]

        def ll(b):
            e = Xs[0] @ b
            w = np.exp(e)
            return np.sum(e[ev]) - sum(np.log(np.sum(w[r])) for r in risk)
        return ll, Xs
    if kind == "MultiGauss":
        P = len(Xs)

        def ll(b):
            sp = np.split(b, idx)
            r = np.column_stack([Y[:, k] - Xs[k] @ sp[k] for k in range(P)])
            A = np.zeros((P, P), dtype=b.dtype)
            A[np.triu_indices(P)] = sp[-1]
            di = np.diag_indices(P)
            A[di] = np.exp(A[di])
            return len(Y) * np.sum(np.log(A[di])) - 0.5 * np.sum((r @ A.T) ** 2)
        return ll, Xs

    def ll(b):
        es = [X @ q for X, q in zip(Xs, np.split(b, idx))]
        if kind == "GAUMLSS":
            return np.sum(R.l_norm(Y, es[0], np.exp(es[1]) ** 2))
        if kind == "GAMMALS":
            return np.sum(R.l_gamma(Y, np.exp(es[0]), np.exp(es[1]) + 0.001))
        t = 1 + sum(np.exp(e) for e in es)
        return sum(np.sum(es[k][Y == k + 1]) for k in range(len(es))) - np.sum(np.log(t))
    return ll, Xs


def cgrad(ll, b):
    g = np.zeros(len(b))
    z = b.astype(complex)
    for i in range(len(b)):
        z[i] += 1e-30j
        g[i] = np.imag(ll(z)) / 1e-30
        z[i] = b[i]
    return g


def chess(ll, b, h=1e-4):
    H = np.zeros((len(b), len(b)))
    for i in range(len(b)):
        a, c = b.copy(), b.copy()
        a[i] += h
        c[i] -= h
        H[i] = (cgrad(ll, a) - cgrad(ll, c)) / (2 * h)
    return (H + H.T) / 2


def expected_hess(kind, m, Xs, b):
    """GAUMLSS and GAMMALS: the documented expected second derivatives in the parameters, carried to the predictors by the chain rule."""
    idx = np.cumsum([X.shape[1] for X in Xs])
    es = [X @ q for X, q in zip(Xs, np.split(b, idx))]
    with Q.quiet():
        y = m.get_ys()
    y = np.ravel(y[0] if isinstance(y, list) else y)
    if kind == "GAUMLSS":
        w = [1 / np.exp(es[1]) ** 2, 3 - (y - es[0]) ** 2 / np.exp(2 * es[1])]
    else:
        from scipy.special import polygamma
        sc = np.exp(es[1]) + 0.001
        a = 1 / sc
        # d2/dscale2 of E[l]: -(trigamma(a) - 1/a) a^4 ; chain rule with exp
        mu, e = np.exp(es[0]), np.exp(es[1])
        d0 = (y - mu) / mu / sc
        d1 = np.imag(R.l_gamma(y, mu, sc + 1e-30j)) / 1e-30
        w = [1 / sc - d0, (polygamma(1, a) - 1 / a) * a**4 * e**2 - d1 * e]
    n = len(b)
    H = np.zeros((n, n))
    s = 0
    for X, q in zip(Xs, w):
        H[s:s + X.shape[1], s:s + X.shape[1]] = -(X.T * q) @ X
        s += X.shape[1]
    return H


def gen_identities(ctx, kind, m, what="", newton=True, repara=True):
    ll, Xs = model_llk(kind, m)
    b = np.ravel(m.coef).astype(float)
    p = len(b)
    S = Q.pen_matrix(m, p)
    pen = float(b @ S @ b)
    drop = m.info.dropped
    # with reparameterisation the coefficients are dropped in the transformed coordinates, without it their own value is zero
    if drop is not None and not repara:
        ctx.expect(np.all(b[drop] == 0), what + "dropped coefficients are not zero")
    l0 = float(np.real(ll(b)))
    idx = np.cumsum([X.shape[1] for X in Xs])
    for k, (X, q) in enumerate(zip(Xs, np.split(b, idx))):
        ctx.close(np.ravel(m.preds[k]), X @ q, what + "linear predictor of the coefficients", rtol=1e-6, atol=1e-6)
        lk = getattr(m.family, "links", None)
        if kind in ("GAUMLSS", "GAMMALS", "MULNOMLSS") and m.mus is not None and lk:
            ctx.close(np.ravel(m.mus[k]), np.ravel(lk[k].fi(X @ q)), what + "parameters from linear predictors", rtol=1e-6, atol=1e-6)
    with Q.quiet():
        ctx.close(float(np.ravel(m.get_llk(False))[0]), l0, what + "log-likelihood", rtol=1e-7, atol=1e-6)
        ctx.close(float(np.ravel(m.get_llk(True))[0]), l0 - 0.5 * pen, what + "penalised log-likelihood", rtol=1e-7, atol=1e-6)
    ctx.close(float(np.ravel(m.penalty)[0]), pen, what + "penalty", rtol=1e-6, atol=1e-6)
    g = cgrad(ll, b) - S @ b
    H = chess(ll, b)
    A = S - H
    w, U = np.linalg.eigh(A)
    q = U.T @ g
    pos = w > 1e-8 * w.max()
    dec = float(np.sum(q[pos] ** 2 / w[pos]))
    ctx.expect(dec <= 1e-4 * (1 + abs(l0) + pen), what + "coefficients are not stationary for the penalised likelihood", f"decrement {dec:.3g}, log-likelihood {l0:.5g}, penalty {pen:.4g}")
    if not newton:
        ctx.expect(m.edf is not None and 0 < m.edf <= p + 1e-6, what + "edf outside of the number of coefficients", str(m.edf))
        if not m.overall_penalties:
            ctx.expect(m.edf == p, what + "edf of an unpenalised model", str(m.edf))
        return dec
    # reported Hessian: exact or documented expected one
    want = expected_hess(kind, m, Xs, b) if kind in ("GAUMLSS", "GAMMALS") else H
    eps = m.info.eps
    got = G.dense(m.hessian)
    if eps:
        want = want - eps * np.eye(p)
        ctx.outcome("perturbed")
    L = G.dense(m.lvi)
    V = L.T @ L
    if drop is None:
        sc = np.abs(want).max()
        ctx.close(got, want, what + "Hessian of the log-likelihood", rtol=2e-3, atol=2e-3 * sc)
        Vp = np.linalg.inv(S - got)
        ctx.close(V, Vp, what + "covariance", rtol=1e-4, atol=1e-4 * np.abs(Vp).max())
        Fm = Vp @ -got
    else:
        # generalised inverse of the right rank for the exact curvature
        A = S - want
        ctx.expect(np.linalg.matrix_rank(L, tol=1e-7 * np.abs(L).max()) == p - len(drop), what + "rank of the covariance of a redundant model")
        ctx.close(V @ A @ V, V, what + "covariance of a redundant model", rtol=1e-2, atol=1e-3 * np.abs(V).max())
        if not repara:
            ctx.expect(np.all(V[drop] == 0), what + "dropped coefficients have a variance")
        Fm = V @ -want
    edf = np.trace(Fm)
    tol = 1e-4 if drop is None else 5e-3
    ctx.close(float(m.edf), edf, what + "total edf", rtol=tol, atol=tol)
    if m.term_edf is not None and drop is None:
        blocks, want = block_edf(m.overall_penalties, Fm)
        ctx.expect(len(want) == len(m.term_edf), what + "number of term-wise edf", f"{len(want)} {len(m.term_edf)}")
        if len(want) == len(m.term_edf):
            ctx.close(np.sort(np.ravel(m.term_edf)), np.sort(want), what + "term-wise edf", rtol=1e-4, atol=1e-4)
    return dec


GEN = {
    "const": [[T("i")], [T("i")]],
    "lin": [[T("i"), T("l", ["fac"]), T("l", ["x"])], [T("i")]],
    "sm": [[T("i"), T("f", ["x"], nk=6)], [T("i")]],
    "sm-sm": [[T("i"), T("f", ["x"], nk=6)], [T("i"), T("f", ["x"], nk=5)]],
    "lin-sm": [[T("i"), T("l", ["x"])], [T("i"), T("f", ["z"], nk=5)]],
    "add-lin": [[T("i"), T("f", ["x"], nk=5), T("f", ["z"], nk=5)], [T("i"), T("l", ["fac"])]],
    "by": [[T("i"), T("l", ["cond"]), T("f", ["x"], nk=5, by="cond")], [T("i")]],
    "id": [[T("i"), T("f", ["x"], nk=5, id=2)], [T("i"), T("f", ["x"], nk=5, id=2)]],
    "ri": [[T("i"), T("f", ["x"], nk=5), T("ri", "sub")], [T("i")]],
    "null": [[T("i"), T("f", ["x"], nk=6, penalize_null=True)], [T("i")]],
    "te": [[T("i"), T("f", ["x", "z"], nk=3, te=True, basis_kwargs={"deg": 2})], [T("i")]],
    "fs": [[T("i"), T("fs", ["x"], rf="sub", nk=4)], [T("i")]],
    "sm-te": [[T("i"), T("f", ["x"], nk=5)], [T("i"), T("l", ["fac"]), T("f", ["x", "z"], nk=3, te=True, basis_kwargs={"deg": 2})]],
    "null-null": [[T("i"), T("f", ["x"], nk=5, penalize_null=True)], [T("i"), T("f", ["x"], nk=5, penalize_null=True)]],
}


def noint(specs):
    return [s for s in specs if s[0] != "i" and not (s[0] == "l" and s[1] in ([["fac"]], [["cond"]]))]


def gen_fit(kind, specs, d, **kw):
    if kind in ("GAUMLSS", "GAMMALS", "MULNOMLSS"):
        return Q.gammlss(kind, specs, d, **kw)
    if kind == "PropHaz":
        return Q.gsmm(kind, [noint(specs[0])], d, **kw)
    return Q.gsmm(kind, specs, d, **kw)


def gen_case(ctx, c):
    d = Q.data(salt=3, n_per=c.get("n_per", 16))
    kind = c["kind"]
    if kind == "PropHaz" and not noint(GEN[c["terms"]][0]):
        return
    m = gen_fit(kind, GEN[c["terms"]], d, **c.get("fit", {}))
    ctx.state(1)
    ctx.trans(int(m.info.iter))
    ctx.outcome((kind, c["terms"], m.info.code))
    if m.info.code != 0:
        ctx.outcome("not converged")
        return
    gen_identities(ctx, kind.split(":")[-1], m, newton=c.get("fit", {}).get("method") != "qEFS", repara=c.get("fit", {}).get("repara", True))


# ---- options and equivalent specifications --------------------------------------------------------------------------------------------
def tight(fam, terms, d, link=None, **kw):
    kw.setdefault("conv_tol", 1e-10)
    return Q.gamm(fam, terms, d, link=link, **kw)


def opt_case(ctx, c):
    """One option of the solver against the default: same model, same fit."""
    d = Q.data(salt=5, n_per=16)
    fam, link = c["fam"]
    off = offset_of(c.get("off"), d)
    cp = lambda: None if off is None else (off if np.isscalar(off) else off.copy())  # noqa: E731
    ref = tight(fam, TERMS[c["terms"]], d, link, offset=cp())
    m = tight(fam, TERMS[c["terms"]], d, link, offset=cp(), **c["fit"])
    ctx.state(2)
    ctx.trans(int(m.info.iter + ref.info.iter))
    ctx.outcome((fam, c["terms"], m.info.code, ref.info.code, tuple(c["fit"])))
    if m.info.code == 0:
        gamm_identities(ctx, m, fam, d, off, tight=c["fit"].get("conv_tol", 0) <= 1e-9)
    if m.info.code != 0 or ref.info.code != 0:
        ctx.outcome("not converged")
        return
    tol = c.get("tol", 2e-3)
    ctx.close(np.ravel(m.mus[0]), np.ravel(ref.mus[0]), "fitted values depend on the option", rtol=tol, atol=tol)
    ctx.close(m.edf, ref.edf, "edf depend on the option", rtol=5 * tol, atol=5 * tol)


def sat_case(ctx, c):
    """Observations whose mean reaches the boundary of its range (weights 0/0) drop out of the working model."""
    d = Q.data(salt=5, n_per=8)
    fam = c["fam"]
    link = "LOG" if fam == "Gaussian" else None
    lhs = Q.LHS[fam] if link is None else "ypos"
    d["big"] = vmc.gen(("big", fam), len(d), lo=-1, hi=1)
    up = (c["sign"] > 0)
    for k, r in enumerate(c["rows"]):
        d.loc[r, "big"] = (150.0 if fam == "Binomial" else 4000.0) * (1 + 0.1 * k) * c["sign"]
    y = d[lhs].to_numpy().copy()
    cut = np.median(d["big"])
    # make the response increase with the covariate, noisily, so that the slope is positive and finite
    if fam == "Binomial":
        y = np.where(np.arange(len(y)) % 3 == 0, y, (d["big"] > cut).astype(float))
        y[c["rows"]] = 1.0 if up else 0.0
    else:
        y = np.where(np.arange(len(y)) % 3 == 0, y, y + 2 * (d["big"] > cut))
        y[c["rows"]] = 0.0
    d[lhs] = y
    terms = {"lin": [T("i"), T("l", ["big"])], "sm": [T("i"), T("l", ["big"]), T("f", ["z"], nk=5)], "ri": [T("i"), T("l", ["big"]), T("ri", "sub")]}[c["terms"]]
    m = Q.gamm(fam, terms, d, link=link, **c["fit"])
    ctx.state(1)
    ctx.outcome((fam, c["terms"], m.info.code))
    if m.info.code != 0:
        return
    with np.errstate(all="ignore"):
        gamm_identities(ctx, m, fam, d, None)


RANK = {  # redundant model, model with the same column space (None: the same penalised fit is not implied)
    "lin2": ([T("i"), T("l", ["x"]), T("l", ["x2"])], [T("i"), T("l", ["x"])]),
    "lin3": ([T("i"), T("l", ["x2"]), T("l", ["fac"]), T("l", ["x"])], [T("i"), T("l", ["x"]), T("l", ["fac"])]),
    "sm-lin": ([T("i"), T("f", ["x"], nk=6), T("l", ["x"])], [T("i"), T("f", ["x"], nk=6)]),
    "lin-sm": ([T("i"), T("l", ["x2"]), T("f", ["x"], nk=6), T("f", ["z"], nk=5)], [T("i"), T("f", ["x"], nk=6), T("f", ["z"], nk=5)]),
    "fac2": ([T("i"), T("l", ["fac"]), T("l", ["fac2"]), T("f", ["x"], nk=5)], [T("i"), T("l", ["fac"]), T("f", ["x"], nk=5)]),
}


def rank_case(ctx, c):
    d = Q.data(salt=3, n_per=16)
    d["x2"] = 2 * d["x"] + 0.5
    d["fac2"] = d["fac"].map({"lo": "C", "hi": "A", "mid": "B"})
    full, red = RANK[c["terms"]]
    kind = c["kind"]
    kw = dict(c["fit"])
    if isinstance(kind, list):
        fam, link = kind
        m = Q.gamm(fam, full, d, link=link, conv_tol=1e-9, **kw)
        r = Q.gamm(fam, red, d, link=link, conv_tol=1e-9)
    else:
        if kind == "PropHaz":
            specs = lambda s: [noint(s)]  # noqa: E731
        else:
            specs = lambda s: [s, [T("i")]]  # noqa: E731
        m = Q.gammlss(kind, specs(full), d, **kw) if kind in ("GAUMLSS", "GAMMALS") else Q.gsmm(kind, specs(full), d, **kw)
        r = Q.gammlss(kind, specs(red), d) if kind in ("GAUMLSS", "GAMMALS") else Q.gsmm(kind, specs(red), d)
    ctx.state(2)
    ctx.trans(int(m.info.iter + r.info.iter))
    ctx.outcome((c["terms"], str(kind), m.info.code, m.info.dropped is not None))
    if m.info.code != 0 or r.info.code != 0:
        ctx.outcome("not converged")
        return
    ctx.expect(m.info.dropped is not None and len(m.info.dropped) == len(m.coef) - len(r.coef), "coefficients dropped from a redundant model", f"{m.info.dropped}")
    if isinstance(kind, list):
        gamm_identities(ctx, m, kind[0], d, None)
    else:
        gen_identities(ctx, kind.split(":")[-1], m, repara=kw["repara"])
    tol = 1e-3 if isinstance(kind, list) else 1e-2
    for a, b in zip(m.preds, r.preds):
        a, b = np.ravel(a), np.ravel(b)
        if kind == "PropHaz":
            a, b = a - a.mean(), b - b.mean()
        ctx.close(a, b, "linear predictors of a redundant model and of the model without redundancy", rtol=tol, atol=tol)
    ctx.close(m.edf, r.edf, "edf of a redundant model and of the model without redundancy", rtol=5 * tol, atol=5 * tol)


def fit_kind(kind, specs, d, **kw):
    if isinstance(kind, list):
        return Q.gamm(kind[0], specs[0], d, link=kind[1], **kw)
    return gen_fit(kind, specs, d, **kw)


def refit(m, **kw):
    with Q.quiet():
        m.fit(progress_bar=False, n_cores=1, restart=True, **kw)
    return m


FROZ = [[T("i"), T("l", ["cond"]), T("f", ["x"], nk=5), T("f", ["z"], nk=5, penalize_null=True)], [T("i")]]


def frozen_case(ctx, c):
    """Smoothing parameters fixed by the user stay untouched, and the fit is the penalised fit at them."""
    d = Q.data(salt=7, n_per=16)
    kind = c["kind"]
    m = fit_kind(kind, FROZ, d)
    vals = []
    for p, fz in zip(m.overall_penalties, c["fix"]):
        if fz is not None:
            p.lam, p.frozen = fz, True
        else:
            p.lam = 1.0
        vals.append(fz)
    refit(m, **c["fit"])
    ctx.state(2)
    ctx.trans(int(m.info.iter))
    ctx.outcome((str(kind), tuple(v is None for v in c["fix"]), m.info.code))
    for j, (p, fz) in enumerate(zip(m.overall_penalties, vals)):
        if fz is not None:
            ctx.expect(p.lam == fz, "a fixed smoothing parameter was changed", f"penalty {j}: {fz} became {p.lam}")
    if m.info.code != 0:
        ctx.outcome("not converged")
        return
    if isinstance(kind, list):
        gamm_identities(ctx, m, kind[0], d, None)
    else:
        gen_identities(ctx, kind.split(":")[-1], m, repara=c["fit"].get("repara", True))


EQ = {  # pairs of specifications of the same model
    "rp": ([T("i"), T("f", ["x"], nk=6, rp=1), T("f", ["z"], nk=5)], [T("i"), T("f", ["x"], nk=6), T("f", ["z"], nk=5)]),
    "rp-by": ([T("i"), T("l", ["cond"]), T("f", ["x"], nk=5, by="cond", rp=1)], [T("i"), T("l", ["cond"]), T("f", ["x"], nk=5, by="cond")]),
    "drop": ([T("i"), T("f", ["x"], nk=6, constraint="DROP")], [T("i"), T("f", ["x"], nk=6)]),
    "diff": ([T("i"), T("f", ["x"], nk=6, constraint="DIFF")], [T("i"), T("f", ["x"], nk=6)]),
    "drop-te": ([T("i"), T("f", ["x", "z"], nk=3, te=True, basis_kwargs={"deg": 2}, constraint="DROP")], [T("i"), T("f", ["x", "z"], nk=3, te=True, basis_kwargs={"deg": 2})]),
    "order": ([T("i"), T("f", ["z"], nk=5), T("l", ["fac"]), T("f", ["x"], nk=6)], [T("i"), T("f", ["x"], nk=6), T("f", ["z"], nk=5), T("l", ["fac"])]),
    "order-ri": ([T("i"), T("ri", "sub"), T("f", ["x"], nk=6)], [T("i"), T("f", ["x"], nk=6), T("ri", "sub")]),
    "byid": ([T("i"), T("f", ["x"], nk=5, id=3), T("f", ["z"], nk=5, id=3)], [T("i"), T("f", ["z"], nk=5, id=9), T("f", ["x"], nk=5, id=9)]),
}
XF = {  # transformations of the data that leave the model unchanged
    "rows": lambda d: d.iloc[np.argsort(vmc.gen("perm", len(d), lo=0, hi=1))].reset_index(drop=True),
    "rev": lambda d: d.iloc[::-1].reset_index(drop=True),
    "scale": lambda d: d.assign(x=3.0 * d["x"] - 1.0, z=0.5 * d["z"] + 2.0),
    "flip": lambda d: d.assign(x=-d["x"]),
    "names": lambda d: d.assign(cond=d["cond"].map({k: "q" + k[::-1] for k in d["cond"].unique()}), fac=d["fac"].map({"lo": "a", "hi": "b", "mid": "c"}), sub=d["sub"].map({"s1": "s4", "s2": "s3", "s3": "s2", "s4": "s1"})),
}
EQT = {
    "sm": [T("i"), T("l", ["fac"]), T("f", ["x"], nk=6), T("f", ["z"], nk=5)],
    "by": [T("i"), T("l", ["cond"]), T("f", ["x"], nk=5, by="cond"), T("ri", "sub")],
    "te": [T("i"), T("f", ["x", "z"], nk=4, te=True, basis_kwargs={"deg": 2})],
    "fs": [T("i"), T("fs", ["x"], rf="sub", nk=5)],
    "null": [T("i"), T("f", ["x"], nk=5, penalize_null=True), T("ri", "sub")],
}


def eq_case(ctx, c):
    d = Q.data(salt=9, n_per=16)
    kind = c["kind"]
    tol = {"conv_tol": 1e-10} if isinstance(kind, list) else {}
    order = np.arange(len(d))
    if "xf" in c:
        d = d.assign(row=np.arange(len(d)))
        d2 = XF[c["xf"]](d)
        order = d2["row"].to_numpy()
        a, b = EQT[c["terms"]], EQT[c["terms"]]
    else:
        d2 = d
        a, b = EQ[c["eq"]]
    m = fit_kind(kind, [a, [T("i")]], d2, **tol)
    r = fit_kind(kind, [b, [T("i")]], d, **tol)
    ctx.state(2)
    ctx.trans(int(m.info.iter + r.info.iter))
    ctx.outcome((str(kind), c.get("xf"), c.get("eq"), m.info.code, r.info.code))
    if m.info.code != 0 or r.info.code != 0:
        ctx.outcome("not converged")
        return
    for k, (u, v) in enumerate(zip(m.preds, r.preds)):
        u, v = np.ravel(u), np.ravel(v)[order]
        tl = 2e-3 if isinstance(kind, list) else 5e-3
        ctx.close(u, v, "equivalent specifications give different linear predictors", rtol=tl, atol=tl)
    ctx.close(m.edf, r.edf, "equivalent specifications give different edf", rtol=1e-2, atol=1e-2)
    if isinstance(kind, list):
        for nm in ("scale",):
            ctx.close(getattr(m, nm), getattr(r, nm), "equivalent specifications give different " + nm, rtol=5e-3)
    if c.get("eq") in ("rp", "rp-by", "diff"):
        return  # the volume element of the coefficients differs: REML scores agree up to a constant only
    with Q.quiet():
        ctx.close(np.ravel(m.get_reml())[0], np.ravel(r.get_reml())[0], "equivalent specifications give different REML scores", rtol=1e-4, atol=5e-2)


def same_class_case(ctx, c):
    """GAMMLSS and the general smooth model wrapping the same family; GAMM and the distributional model of the same family at the same penalties."""
    d = Q.data(salt=11, n_per=16)
    specs = GEN[c["terms"]]
    m = Q.gammlss(c["fam"], specs, d, **c["fit"])
    r = Q.gsmm("wrap:" + c["fam"], specs, d, **c["fit"])
    ctx.state(2)
    ctx.trans(int(m.info.iter + r.info.iter))
    ctx.outcome((c["fam"], c["terms"], m.info.code, r.info.code))
    if m.info.code != 0 or r.info.code != 0:
        return
    for u, v in zip(m.preds, r.preds):
        ctx.close(np.ravel(u), np.ravel(v), "model classes disagree about the same model", rtol=5e-3, atol=5e-3)
    ctx.close(m.edf, r.edf, "model classes disagree about the edf of the same model", rtol=1e-2, atol=1e-2)


def run(chk):
    th = chk.thorough
    diag = lambda i, j, n: th or (i + j) % n == 0  # noqa: E731  quick tier: a Latin-square selection of the full product
    cases = [dict(fam=f, terms=t, fit={"method": me}) for f in FAMS for t in TERMS for me in ("QR", "Chol")]
    chk.explore("gamm", cases, gamm_case, bounds="8 family/link pairs x 14 term structures x 2 solvers", min_outcomes=50)

    opts = [{"method": "Chol"}, {"max_inner": 1}, {"max_inner": 2}, {"control_lambda": 0}, {"control_lambda": 1}, {"extend_lambda": True}, {"exclude_lambda": True},
            {"extend_lambda": True, "control_lambda": 0}, {"method": "Chol", "max_inner": 1, "control_lambda": 1}, {"extend_lambda": True, "extension_method_lam": "nesterov"}, {"check_cond": 0}, {"check_cond": 2, "method": "Chol"}]
    cases = [dict(fam=f, terms=t, fit=o, off=of) for i, f in enumerate(FAMS) for j, t in enumerate(("sm", "by", "te", "fs", "null")) for k, o in enumerate(opts)
             for of in (None, "arr", "float") if diag(i + j, k, 5) and (th or of == (None, "arr", "float")[(i + k) % 3] or of == "arr")]
    chk.explore("options", cases, opt_case, bounds="8 family/link pairs x 5 structures x 12 solver options x offsets" + ("" if th else " (Latin-square selection)"), min_outcomes=50)

    cases = [dict(fam=f, terms=t, rows=r, sign=sg, fit={"method": me, **o}) for f, sg in (("Binomial", 1), ("Binomial", -1), ("Poisson", -1), ("Gaussian", -1)) for t in ("lin", "sm", "ri") for r in ([0], [3, 17], [5, 6, 20])
             for me in ("QR", "Chol") for o in ({}, {"max_inner": 1})]
    chk.explore("saturated", cases, sat_case, bounds="3 families x 3 structures x sets of saturated observations x solvers", min_outcomes=4)

    cases = [dict(kind=list(f), terms=t, fit={"method": "QR", **o}) for f in FAMS for t in RANK for o in ({}, {"max_inner": 1}, {"control_lambda": 1})]
    cases += [dict(kind=k, terms=t, fit={"method": me, "repara": rp}) for i, k in enumerate(("GAUMLSS", "GAMMALS", "PropHaz", "wrap:GAUMLSS")) for t in RANK if (k, t) != ("PropHaz", "fac2")
              for j, me in enumerate(("QR/Chol", "LU/Chol", "Direct/Chol")) for rp in (True, False) if diag(i + j, rp, 2)]
    chk.explore("redundant", cases, rank_case, bounds="11 families x 5 redundant structures x solvers", min_outcomes=10)

    K3 = [["Gaussian", None], ["Gamma", "LOG"], ["Binomial", None], ["Poisson", None], "GAUMLSS", "GAMMALS", "wrap:GAUMLSS", "MultiGauss", "PropHaz"]
    cases = []
    for i, k in enumerate(K3):
        gm = isinstance(k, list)
        oo = [{}, {"extend_lambda": True}, {"control_lambda": 0}, {"control_lambda": 1}] + ([{"method": "Chol"}, {"max_inner": 1}, {"exclude_lambda": True}] if gm else [{"repara": False}, {"method": "Chol"}])
        for j, fx in enumerate(itertools.product([None, 1e-2, 7.5, 1e4] if th else [None, 1e-2, 7.5], repeat=3)):
            if any(v is not None for v in fx):
                cases += [dict(kind=k, fix=list(fx), fit=o) for q, o in enumerate(oo) if (i + j + q) % ((1 if gm else 3) if th else (len(oo) if gm else 9)) == 0]
    chk.explore("fixed", cases, frozen_case, bounds="9 families x subsets and values of three fixed smoothing parameters x solver options" + ("" if th else " (Latin-square selection)"), min_outcomes=20)

    KE = [["Gaussian", None], ["Gamma", "LOG"], ["Binomial", None], ["ScaledT", None], "GAUMLSS", "MultiGauss"]
    cases = [dict(kind=k, eq=e) for k in KE for e in EQ] + [dict(kind=k, xf=x, terms=t) for i, k in enumerate(KE) for j, x in enumerate(XF) for q, t in enumerate(EQT) if isinstance(k, list) or diag(i + j, q, 5)]
    chk.explore("equivalent", cases, eq_case, bounds="6 families x (8 pairs of specifications + 5 transformations x 5 structures)", min_outcomes=20)

    ms = [("QR/Chol", True), ("Chol", False), ("QR/Chol", False), ("Chol", True)]
    cases = [dict(fam=f, terms=t, fit={"method": me, "repara": rp}) for i, f in enumerate(("GAUMLSS", "GAMMALS", "MULNOMLSS")) for j, t in enumerate(GEN) for k, (me, rp) in enumerate(ms) if diag(i + j, k, 4)]
    chk.explore("classes", cases, same_class_case, bounds="3 families x 14 structures x solvers", min_outcomes=10)
    lm = ms + [("LU/Chol", True), ("LU/Chol", False)]
    cases = [dict(kind=k, terms=t, fit={"method": me, "repara": rp}) for i, k in enumerate(("GAUMLSS", "GAMMALS", "MULNOMLSS")) for j, t in enumerate(GEN) for q, (me, rp) in enumerate(lm) if diag(i + j, q, 3)]
    chk.explore("gammlss", cases, gen_case, bounds="3 families x 14 structures x 3 solvers x with/without reparameterisation", min_outcomes=30)
    cases = [dict(kind=k, terms=t, fit={"method": me, "repara": rp}) for i, k in enumerate(("wrap:GAUMLSS", "wrap:GAMMALS", "wrap:MULNOMLSS", "PropHaz", "MultiGauss")) for j, t in enumerate(GEN)
             for q, (me, rp) in enumerate(ms) if diag(i + j, q, 4 if k.startswith("wrap") else 2)]
    chk.explore("gsmm", cases, gen_case, bounds="5 families x 14 structures x 2 solvers x with/without reparameterisation", min_outcomes=30)
    cases = [dict(kind=k, terms=t, fit={"method": "qEFS", **o}) for k in ("wrap:GAUMLSS", "PropHaz", "MultiGauss") for t in (GEN if th else ("lin", "sm")) if k != "PropHaz" or len(noint(GEN[t][0])) > 1 or t == "sm"
             for o in ([{}, {"repara": False}, {"structured_qefs": False}] if th else [{}])]
    chk.explore("quasi-Newton", cases, gen_case, bounds="3 families x structures, qEFS", min_outcomes=3)
