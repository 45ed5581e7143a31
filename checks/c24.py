"""C24: the restricted marginal likelihood, its derivatives, the smoothness-uncertainty corrections, model comparisons and the tests of
single terms, each decided against dense extended-precision references on every case of bounded universes of models, smoothing parameters,
options and scripted random draws."""
import copy
import itertools
import re
import io
import contextlib
import warnings
import numpy as np
import scipy as scp
import vmc
import gam_ref as G
import fits as Q
import reml_ref as RR
import c14
import c23

LEVEL = "model_checking"
ASSUMPTIONS = ["Corrections and tests are judged for fits that report convergence and keep all of their coefficients.",
               "Random draws of smoothing parameters are scripted; whether the estimate itself joins the sample may depend on how close a draw comes to it.",
               "p-values of smooths are judged up to the accuracy of the algorithm for linear combinations of chi-square variables (2e-5) and the rounding of its integer degrees of freedom."]
T = G.T


# ---- A: the score as a function ----------------------------------------------------------------------------------------------------------
def score_case(ctx, c):
    from mssm.src.python.utils import REML
    from mssm.src.python.penalties import embed_shared_penalties, combine_shared_penalties
    d, Fs, Ps, Xs = c14.formulas_of(c)
    extra = c.get("extra", 0)
    if len(Fs) > 1 or extra:
        Ps = embed_shared_penalties(Ps, Fs, extra if extra else None)
    pens = [p for q in Ps for p in q]
    n = sum(F.n_coef for F in Fs) + c.get("extra", 0)
    coef = vmc.gen(("c24coef", n), n, 1, lo=-1, hi=1)
    nH = 0.5 * np.eye(n)
    s = 0
    for X in Xs:
        k = X.shape[1]
        X = G.dense(X)
        X = X[~np.isnan(X).any(axis=1)]
        nH[s:s + k, s:s + k] = X.T @ X + 1e-3 * np.eye(k)
        s += k
    c14.assign(pens, c["lam"])
    one = RR.Pens(pens, n)
    P, lam = one, one.lam
    for scale in c["scales"]:
        want = RR.reml(P, lam, -3.25, nH / scale, coef, scale)
        full = nH / scale + P.total(lam) / scale
        for tied in (False, True):
            use = combine_shared_penalties(copy.deepcopy(pens)) if tied else copy.deepcopy(pens)
            with Q.quiet():
                got = REML(-3.25, scp.sparse.csc_array(nH / scale), coef, scale, use)
            ctx.trans(1)
            ctx.close(float(np.ravel(got)[0]), float(want), "restricted log-likelihood", rtol=1e-6, atol=1e-4, detail=f"scale {scale} tied {tied}")
            if n > 3:  # dropped coefficients leave the curvature
                keep = np.setdiff1d(np.arange(n), [1])
                with Q.quiet():
                    got = REML(-3.25, scp.sparse.csc_array(nH / scale), coef, scale, use, keep)
                want2 = want + RR.logdet(full) / 2 - RR.logdet(full[np.ix_(keep, keep)]) / 2
                ctx.close(float(np.ravel(got)[0]), float(want2), "restricted log-likelihood after dropping", rtol=1e-6, atol=1e-4)
    ctx.outcome((len(pens), n, tuple(c["lam"])))
    ctx.state(1)


# ---- models ------------------------------------------------------------------------------------------------------------------------------
def build_model(c):
    d = Q.data(salt=c.get("salt", 3), n_per=c.get("n_per", 16))
    kind = c["kind"]
    fit = dict(c.get("fit", {}))
    if kind in ("GAUMLSS", "GAMMALS", "MULNOMLSS", "PropHaz", "MultiGauss", "wrap:GAUMLSS"):
        return c23.gen_fit(kind, c23.GEN[c["terms"]] if isinstance(c["terms"], str) else c["terms"], d, **fit), d
    off = c23.offset_of(c.get("off"), d)
    terms = TERMS[c["terms"]] if isinstance(c["terms"], str) else c["terms"]
    fit.setdefault("conv_tol", 1e-9)
    fit.setdefault("max_outer", 200)
    return Q.gamm(kind, terms, d, link=c.get("link"), offset=None if off is None else (off if np.isscalar(off) else off.copy()), **fit), d


TERMS = dict(c23.TERMS)
TERMS["irfs"] = [T("i"), T("irf", ["time"], nk=6, basis_kwargs=G.BK), T("f", ["x"], nk=5), T("ri", "sub")]
TERMS["unpen"] = [T("i"), T("f", ["z"], nk=5, is_penalized=False), T("f", ["x"], nk=5), T("ri", "sub")]
TERMS["one"] = [T("i")]
TERMS["fsx"] = [T("i"), T("fs", ["x"], rf="sub", nk=5), T("f", ["z"], nk=5)]
TERMS["rsby"] = [T("i"), T("f", ["x"], nk=5), T("rs", ["x", "sub"], by="cond"), T("ri", "sub")]


class Dense:
    """Everything the references need about a fitted model."""

    def __init__(self, m):
        self.m = m
        self.b = np.ravel(m.coef).astype(float)
        self.n = len(self.b)
        from mssm.src.python.exp_fam import Family
        self.gam = isinstance(m.family, Family)
        self.scale = float(m.scale) if self.gam and m.family.twopar else 1.0
        self.nH = -G.dense(m.hessian)
        self.P = RR.Pens(m.overall_penalties, self.n)
        self.rho = np.log(self.P.lam)
        L = G.dense(m.lvi)
        self.V0 = L.T @ L * self.scale
        self.edf = float(m.edf)

    def wps(self):
        f, beta = RR.quad_reml(self.P, self.nH, self.b, self.P.lam, self.scale)
        return RR.num_hess(f, self.rho).astype(float), RR.num_jac(beta, self.rho).astype(float)

    def vcc(self, Vpr):
        """Second correction: covariance of d(root of the covariance)/d rho."""
        def root(rho):
            A = np.asarray(self.nH, dtype=RR.LD) * self.scale + self.P.total(np.exp(rho))
            L = RR.chol(A)
            n = len(A)
            Li = np.zeros((n, n), dtype=RR.LD)
            for i in range(n):
                Li[i, i] = 1 / L[i, i]
                if i:
                    Li[i, :i] = -(L[i, :i] @ Li[:i, :i]) / L[i, i]
            return Li.T  # inverse of the upper factor
        d = []
        for k in range(len(self.rho)):
            def g(e, k=k):
                r = self.rho.copy()
                r[k] = r[k] + e
                return root(r)
            h = RR.LD("2e-3")
            d.append(((8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)).astype(float))
        V = np.zeros((self.n, self.n))
        for i, j in itertools.product(range(len(d)), repeat=2):
            V += Vpr[i, j] * d[i] @ d[j].T
        return self.scale * V

    def bounds(self, form_t1, V, nH):
        F = V @ nH
        U = self.V0 @ self.nH
        tot, tot2 = np.trace(F), 2 * self.edf - np.sum(U * U.T)
        e, e2 = np.diag(F).copy(), 2 * np.diag(U) - np.sum(U * U.T, axis=0)
        capped = tot > tot2
        if capped:
            tot, e = tot2, e2.copy()
        if form_t1:
            e2 = e2 + e - np.diag(U)
            tot2 = tot2 + tot - self.edf
        return e, tot, e2, tot2, capped


def judged(ctx, m, what):
    ok = m.info.code == 0 and m.info.dropped is None
    ctx.outcome((what, "judged" if ok else "not judged"))
    return ok


def ar_of(m):
    return getattr(m, "rho", None) is not None


def model_case(ctx, c):
    from mssm.src.python import utils as U
    m, d = build_model(c)
    ctx.state(1)
    if not judged(ctx, m, c["kind"]):
        return
    D = Dense(m)
    with Q.quiet():
        llk = float(np.ravel(m.get_llk(False))[0])
        got = float(np.ravel(m.get_reml())[0])
    ctx.close(got, float(RR.reml(D.P, D.P.lam, llk, D.nH, D.b, D.scale)), "model's restricted log-likelihood", rtol=1e-6, atol=1e-4)
    ctx.trans(1)
    k = len(D.rho)
    with Q.quiet():
        r0 = U.correct_VB(m, n_c=1)
    if k == 0:
        ctx.close(G.dense(r0[0]), D.V0, "covariance without smoothing parameters", rtol=1e-7, atol=1e-10)
        ctx.close(float(r0[5]), D.edf, "edf without smoothing parameters", rtol=1e-4, atol=1e-4)
        ctx.outcome("no penalties")
        return
    Hp, J = D.wps()
    with Q.quiet():
        S = scp.sparse.csc_array(Q.pen_matrix(m, D.n))
        Vp, Vpr, Ri, Rir, H2, dB = U.compute_Vp_WPS(m.lvi, m.hessian, S, m.overall_penalties, m.coef, scale=D.scale, n_c=1)
        est = U.estimateVp(m, n_c=1, grid_type="JJJ1")
    sc = np.abs(Hp).max()
    ctx.close(H2, Hp, "Hessian of the restricted log-likelihood in the log smoothing parameters", rtol=1e-5, atol=1e-5 * max(sc, 1.0))
    ctx.close(dB, J, "derivative of the coefficients in the log smoothing parameters", rtol=1e-5, atol=1e-5 * max(np.abs(J).max(), 1e-3))
    ctx.close(Ri.T @ Ri, Vp, "root of the covariance of the log smoothing parameters", rtol=1e-8, atol=1e-9 * np.abs(Vp).max())
    ctx.close(Rir.T @ Rir, Vpr, "root of the regularised covariance of the log smoothing parameters", rtol=1e-8, atol=1e-9)
    w, E = np.linalg.eigh(-H2)  # decided above
    pos = w > 0
    sure = np.abs(w) > 1e-6 * np.abs(w).max()
    want = (E[:, pos] / (w[pos] + 0.1)) @ E[:, pos].T
    ctx.close(Vpr, want, "regularised covariance of the log smoothing parameters", rtol=1e-6, atol=1e-6)
    if np.all(sure):
        want = (E[:, pos] / w[pos]) @ E[:, pos].T
        ctx.close(Vp, want, "covariance of the log smoothing parameters", rtol=1e-4, atol=1e-6 * np.abs(want).max())
    ctx.outcome(("indefinite", bool(np.any(w < 0))))
    for a, b, what in zip(est, (Vp, Vpr, Ri, Rir, np.log([p.lam for p in m.overall_penalties]).reshape(-1, 1), dB), ("Vp", "Vpr", "Ri", "Rir", "ep", "dB")):
        ctx.close(np.asarray(a), b, "posterior of the log smoothing parameters: " + what, rtol=1e-9, atol=1e-12 * max(1, np.abs(b).max()))
    Vc = dB @ Vp @ dB.T
    Vcc = D.vcc(Vpr)
    for t1, vcc in itertools.product((False, True), (True, False)):
        with Q.quiet():
            V, LV, vp, vpr, e, tot, e2, tot2, ex, mc = U.correct_VB(m, n_c=1, form_t1=t1, compute_Vcc=vcc)
        ctx.trans(1)
        V = G.dense(V) if scp.sparse.issparse(V) else np.asarray(V)
        want = D.V0 + Vc + (Vcc if vcc else 0)
        ctx.close(V, want, "corrected covariance", rtol=1e-5, atol=1e-5 * np.abs(want).max(), detail=f"second correction {vcc}")
        L = G.dense(LV)
        ctx.close(L @ L.T, V, "root of the corrected covariance", rtol=1e-6, atol=1e-7 * np.abs(V).max())
        we, wt, we2, wt2, cap = D.bounds(t1, V, D.nH)
        ctx.close(np.ravel(e), we, "coefficient-wise corrected edf", rtol=1e-6, atol=1e-6)
        ctx.close(float(tot), wt, "corrected edf", rtol=1e-6, atol=1e-5)
        ctx.close(np.ravel(e2), we2, "coefficient-wise bias corrected edf", rtol=1e-6, atol=1e-5)
        ctx.close(float(tot2), wt2, "bias corrected edf", rtol=1e-6, atol=1e-5)
        ctx.expect(ex is None and mc is None, "analytic correction reports Monte-Carlo results")
        ctx.outcome(("capped", bool(cap)))
    if c.get("fidiff"):
        with Q.quiet():
            est = U.estimateVp(m, n_c=1, grid_type="JJJ1", Vp_fidiff=True)
        want = (E[:, pos] / (w[pos] + 0.1)) @ E[:, pos].T
        # the PQL and the finite difference curvature agree for Gaussian models up to the profiled scale
        if c["kind"] != "Gaussian":
            f = lambda r: float(cand(c, m, d, D, r)["reml"])
            Hn = fd_hess(f, np.asarray(D.rho, dtype=float))
            wn, En = np.linalg.eigh(-Hn)
            want = (En[:, wn > 0] / (wn[wn > 0] + 0.1)) @ En[:, wn > 0].T
            ctx.close(np.asarray(est[1]), want, "finite difference covariance of the log smoothing parameters", rtol=5e-2, atol=5e-2 * np.abs(want).max())
            ctx.outcome("finite differences")


def fd_hess(f, x, h=0.05):
    n = len(x)
    H = np.zeros((n, n))
    f0 = f(x)
    at = lambda *s: f(x + h * sum(q * np.eye(n)[i] for i, q in s))
    for i in range(n):
        H[i, i] = (-at((i, 2)) + 16 * at((i, 1)) - 30 * f0 + 16 * at((i, -1)) - at((i, -2))) / (12 * h * h)
        for j in range(i):
            H[i, j] = H[j, i] = (at((i, 1), (j, 1)) - at((i, 1), (j, -1)) - at((i, -1), (j, 1)) + at((i, -1), (j, -1))) / (4 * h * h)
    return H


# ---- B: candidates -----------------------------------------------------------------------------------------------------------------------
def cand(c, m, d, D, rho):
    """Dense fit of the model at fixed smoothing parameters: restricted log-likelihood, coefficients, covariance, scale, edf, llk."""
    S = np.asarray(D.P.total(np.exp(np.asarray(rho, dtype=RR.LD))), dtype=float)
    lam = np.exp(np.asarray(rho, dtype=RR.LD))
    kind = c["kind"]
    if not D.gam:
        kk = kind.replace("wrap:", "")
        ll, Xs = c23.model_llk(kk, m)
        b = D.b.copy()
        for it in range(60):
            g = c23.cgrad(ll, b) - S @ b
            H = c23.chess(ll, b)
            w, E = np.linalg.eigh(S - H)
            w = np.maximum(np.abs(w), 1e-8 * np.abs(w).max())
            st = E @ ((E.T @ g) / w)
            f0 = float(np.real(ll(b))) - b @ S @ b / 2
            t = 1.0
            while t > 1e-8:
                q = b + t * st
                with np.errstate(all="ignore"):
                    f1 = float(np.real(ll(q))) - q @ S @ q / 2
                if np.isfinite(f1) and f1 >= f0 - 1e-13 * abs(f0):
                    break
                t /= 2
            b = b + t * st
            if g @ st < 1e-13 * (1 + abs(f0)):
                break
        nH = -(c23.expected_hess(kk, m, Xs, b) if kk in ("GAUMLSS", "GAMMALS") else c23.chess(ll, b))
        llk = float(np.real(ll(b)))
        V = np.linalg.inv(nH + S)
        return dict(reml=RR.reml(D.P, lam, llk, nH, b), coef=b, V=V, scale=1.0, edf=np.trace(V @ nH), llk=llk, nH=nH)
    with Q.quiet():
        X = G.dense(m.get_mmat())
        y = np.ravel(m.get_ys())
    off = c23.offset_of(c.get("off"), d)
    o = 0.0 if off is None else (off if np.isscalar(off) else np.ravel(off)[m.formulas[0].NOT_NA_flat])
    lk = type(m.family.link).__name__
    b = D.b.copy()

    def obj(b):
        mu = c23.inv_link(lk, X @ b + o)
        with np.errstate(all="ignore"):
            v = sum(c23.unit_dev(kind, a, q) for a, q in zip(y, mu)) + b @ S @ b
        return v if np.isfinite(v) else np.inf
    f0 = obj(b)
    for it in range(200):
        eta = X @ b + o
        mu = c23.inv_link(lk, eta)
        v = c23.VAR[kind](mu)
        W = c23.dmu(lk, eta) ** 2 / v
        g = X.T @ ((y - mu) / v * c23.dmu(lk, eta)) - S @ b
        st = np.linalg.solve((X.T * W) @ X + S, g)
        t = 1.0
        while t > 1e-8:
            f1 = obj(b + t * st)
            if f1 <= f0 + 1e-13 * abs(f0):
                break
            t /= 2
        b = b + t * st
        f0 = f1
        if g @ st < 1e-13 * (1 + abs(f0)):
            break
    eta = X @ b + o
    mu = c23.inv_link(lk, eta)
    v = c23.VAR[kind](mu)
    A = (X.T * (c23.dmu(lk, eta) ** 2 / v)) @ X
    Vi = np.linalg.inv(A + S)
    edf = np.trace(Vi @ A)
    scale = float(np.sum((y - mu) ** 2 / v) / (len(y) - edf)) if m.family.twopar else 1.0
    llk = c23.loglik(kind, y, mu, scale)
    return dict(reml=RR.reml(D.P, lam, llk, A / scale, b, scale), coef=b, V=Vi * scale, scale=scale, edf=edf, llk=llk, nH=A / scale)


def code_cand(m, D, rho, method="Chol", origNH=None):
    """The code's candidate at the given smoothing parameters."""
    from mssm.src.python import utils as U
    pens = copy.deepcopy(m.overall_penalties)
    for p, r in zip(pens, rho):
        p.lam = float(np.exp(r))
    with Q.quiet():
        if D.gam:
            reml, Li, _, _, coef, scale, edf, llk = U.compute_reml_candidate_GAMM(m.family, m.get_ys(), m.get_mmat(), pens, 1, m.offset, method=method, compute_inv=True, origNH=origNH)
            L = G.dense(Li)
            V = L.T @ L * scale
        else:
            # same iteration limits as the corrections
            reml, V, LV, coef, edf, llk = U.compute_REML_candidate_GSMM(m.family, m.get_ys(), m.get_mmat(), pens, copy.deepcopy(m.coef), len(m.coef), m.coef_split_idx, method=method, n_c=1, origNH=origNH)
            V, scale = G.dense(V), 1.0
    return dict(reml=float(np.ravel(reml)[0]), coef=np.ravel(coef), V=np.asarray(V), scale=float(scale), edf=float(edf), llk=float(np.ravel(llk)[0]), coefc=np.asarray(coef).reshape(-1, 1))


def cand_case(ctx, c):
    m, d = build_model(c)
    if not judged(ctx, m, c["kind"]):
        return
    D = Dense(m)
    if len(D.rho) == 0 and D.gam is False and c.get("shift"):
        return
    theta = copy.deepcopy(getattr(m.family, "theta", None))
    lams = [p.lam for p in m.overall_penalties]
    for sh in c["shifts"]:
        rho = np.asarray(D.rho, dtype=float) + np.array([sh[k % len(sh)] for k in range(len(D.rho))])
        if np.any(rho > np.log(1e9 if D.gam else 2e7)) or np.any(rho < np.log(1e-8)):
            continue
        got = code_cand(m, D, rho, c.get("method", "Chol"))
        want = cand(c, m, d, D, rho)
        ctx.trans(1)
        rt = 1e-6 if c["kind"] == "Gaussian" and not c.get("link") else 1e-4
        ctx.close(got["reml"], float(want["reml"]), "restricted log-likelihood of a candidate", rtol=rt, atol=max(rt, 3e-4), detail=str(sh))
        ctx.close(got["llk"], want["llk"], "log-likelihood of a candidate", rtol=rt, atol=1e-3, detail=str(sh))
        ctx.close(got["scale"], want["scale"], "scale of a candidate", rtol=20 * rt, detail=str(sh))
        ctx.close(got["edf"], want["edf"], "edf of a candidate", rtol=20 * rt, atol=20 * rt, detail=str(sh))
        sd = np.sqrt(np.abs(np.diag(want["V"])))
        ctx.close(got["coef"] / sd, want["coef"] / sd, "coefficients of a candidate (in standard errors)", rtol=0, atol=1e-4 if rt < 1e-5 else 3e-2, detail=str(sh))
        ctx.close(got["V"] / np.outer(sd, sd), want["V"] / np.outer(sd, sd), "covariance of a candidate", rtol=0, atol=1e-4 if rt < 1e-5 else 2e-2, detail=str(sh))
        # edf against the model's own curvature
        orig = D.scale if (c["kind"] == "Gaussian" and not c.get("link")) else -1 * m.hessian
        o = code_cand(m, D, rho, c.get("method", "Chol"), origNH=orig)
        e = np.trace(want["V"] @ D.nH)
        ctx.close(o["edf"], e, "edf of a candidate with the model's curvature", rtol=20 * rt, atol=20 * rt, detail=str(sh))
        ctx.outcome((c["kind"], bool(got["reml"] < -1e300)))
    ctx.expect(theta is None or np.array_equal(theta, m.family.theta), "evaluating a candidate changed the family of the model")
    ctx.expect(lams == [p.lam for p in m.overall_penalties], "evaluating a candidate changed the smoothing parameters of the model")
    ctx.state(1)


# ---- E: Monte-Carlo corrections over scripted draws ----------------------------------------------------------------------------------------
@contextlib.contextmanager
def scripted_t(us, log):
    """Every multivariate-t draw is loc + root(shape) u for the scripted u."""
    gen, fro = scp.stats._multivariate.multivariate_t_gen, scp.stats._multivariate.multivariate_t_frozen
    old = gen.rvs, fro.rvs

    def draw(loc, shape, df, size):
        loc = np.ravel(np.asarray(loc, dtype=float))
        shape = np.atleast_2d(np.asarray(shape, dtype=float))
        w, E = np.linalg.eigh(shape)
        R = E @ np.diag(np.sqrt(np.maximum(w, 0))) @ E.T
        n = int(np.prod(size))
        out = np.array([loc + R @ np.array([us[k % len(us)][j % len(us[k % len(us)])] for j in range(len(loc))]) for k in range(n)])
        log.append((loc, shape, df, out))
        return np.squeeze(out)  # as scipy does
    gen.rvs = lambda self, loc=None, shape=1, df=1, size=1, random_state=None: draw(loc, shape, df, size)
    fro.rvs = lambda self, size=1, random_state=None: draw(self.loc, self.shape, self.df, size)
    try:
        yield
    finally:
        gen.rvs, fro.rvs = old


def make_prior(name, D):
    from mssm.src.python import utils as U
    if name is None:
        return None, lambda r: np.zeros(len(r))
    if name == "unif":
        a, b = float(np.min(D.rho)) - 3, float(np.max(D.rho)) + 1.5
        return U.MVUniformRhoPrior(a, b), lambda r: np.where(np.all((r >= a) & (r <= b), axis=1), -r.shape[1] * np.log(b - a), -np.inf)
    lo = np.maximum(np.asarray(D.rho, dtype=float) - 1.2, np.log(1e-7))
    hi = np.minimum(np.asarray(D.rho, dtype=float) + 1.2, np.log(1e7))
    return (U.CenteredUniformRhoPriors(np.asarray(D.rho, dtype=float), c=1.2),
            lambda r: np.where(np.all((r >= lo) & (r <= hi), axis=1), -np.sum(np.log(hi - lo)), -np.inf))


def mvt_logpdf(x, loc, shape, df):
    from scipy.special import gammaln
    p = len(loc)
    w, E = np.linalg.eigh(shape)
    keep = w > w.max() * 1e-10
    z = ((x - loc) @ E[:, keep]) / np.sqrt(w[keep])
    k = int(keep.sum())
    return gammaln((df + k) / 2) - gammaln(df / 2) - k / 2 * np.log(df * np.pi) - np.sum(np.log(w[keep])) / 2 - (df + k) / 2 * np.log1p(np.sum(z * z, axis=1) / df)


def recomputed(c, m, d, D, mean):
    """Negative Hessian of the log-likelihood at the mean coefficients."""
    if not D.gam:
        kk = c["kind"].replace("wrap:", "")
        ll, Xs = c23.model_llk(kk, m)
        return -(c23.expected_hess(kk, m, Xs, mean) if kk in ("GAUMLSS", "GAMMALS") else c23.chess(ll, mean))
    with Q.quiet():
        X = G.dense(m.get_mmat())
        y = np.ravel(m.get_ys())
    off = c23.offset_of(c.get("off"), d)
    o = 0.0 if off is None else (off if np.isscalar(off) else np.ravel(off)[m.formulas[0].NOT_NA_flat])
    lk = type(m.family.link).__name__
    eta = X @ mean + o
    mu = c23.inv_link(lk, eta)
    v = c23.VAR[c["kind"]](mu)
    A = (X.T * (c23.dmu(lk, eta) ** 2 / v)) @ X
    S = Q.pen_matrix(m, D.n)
    edf = np.trace(np.linalg.solve(A + S, A))
    scale = float(np.sum((y - mu) ** 2 / v) / (len(y) - edf)) if m.family.twopar else 1.0
    return A / scale


def mc_ref(c, m, d, D, grid, o, ep, Vpr, J, Vp, Vlb, cands):
    """(V, nH, weights, mean, expected edf, margin of the lower bound) for a set of candidates."""
    w = np.array([q["reml"] for q in cands])
    if not o["weights"]:
        w = np.zeros(len(w))
    elif o["prior"] is not None:
        lp = make_prior(o["prior"], D)[1](grid)
        w = w + lp - mvt_logpdf(grid, ep, Vpr, o["df"])
    w = np.exp(w - w.max())
    w = w / w.sum()
    mean = sum(a * q["coef"] for a, q in zip(w, cands))
    Vc = J @ Vp @ J.T
    nH = recomputed(c, m, d, D, mean) if (o["recompute"] and not o["only"]) else D.nH
    if o["only"]:
        ex = max(D.edf, sum(a * np.trace(q["V"] @ D.nH) for a, q in zip(w, cands)))
        between = np.trace(Vc @ D.nH)
        if o["grid"] == "JJJ3":
            M = sum(a * np.outer(q["coef"], q["coef"]) for a, q in zip(w, cands)) - np.outer(mean, mean)
            between = max(between, np.trace(M @ D.nH))
        return dict(ex=ex + between)
    E = sum(a * q["V"] for a, q in zip(w, cands))
    if o["grid"] == "JJJ2":
        mar = np.trace(E @ nH) - D.edf
        if mar < 0:
            E, nH = D.V0, D.nH
        V = E + Vc
    else:
        V = E + sum(a * np.outer(q["coef"], q["coef"]) for a, q in zip(w, cands)) - np.outer(mean, mean)
        mar = np.trace(V @ nH) - np.trace(Vlb @ D.nH)
        if mar < 0:
            V, nH = Vlb, D.nH
    return dict(V=V, nH=nH, w=w, mean=mean if o["recompute"] else None, mar=mar)


MODELS = {}


def mc_case(ctx, c):
    from mssm.src.python import utils as U
    m, d = build_model(c)
    if not judged(ctx, m, c["kind"]) or not m.overall_penalties:
        return
    D = Dense(m)
    ctx.state(1)
    with Q.quiet():
        S = scp.sparse.csc_array(Q.pen_matrix(m, D.n))
        Vp, Vpr, Ri, Rir, H2, dB = U.compute_Vp_WPS(m.lvi, m.hessian, S, m.overall_penalties, m.coef, scale=D.scale, n_c=1)
        Vlb = np.asarray(U.correct_VB(m, n_c=1)[0])  # both decided on their own
    if scp.sparse.issparse(Vlb):
        Vlb = G.dense(Vlb)
    cache = {}

    def cd(r):
        key = tuple(np.round(r, 12))
        if key not in cache:
            cache[key] = code_cand(m, D, r)
        return cache[key]
    est = np.array([np.log(p.lam) for p in m.overall_penalties])
    ep = np.clip(est, np.log(c.get("a", 1e-7)), np.log(c.get("b", 1e7)))
    for o in c["opts"]:
        o = dict(dict(grid="JJJ2", weights=True, prior=None, recompute=False, only=False, t1=False, n_c=1, df=40), **o)
        log = []
        prior = make_prior(o["prior"], D)[0]
        with scripted_t(o["us"], log), Q.quiet():
            got = U.correct_VB(m, nR=len(o["us"]), grid_type=o["grid"], n_c=o["n_c"], form_t1=o["t1"], only_expected_edf=o["only"], use_importance_weights=o["weights"],
                               prior=prior, recompute_H=o["recompute"], df=o["df"], a=c.get("a", 1e-7), b=c.get("b", 1e7), seed=1)
        ctx.trans(1)
        if not log:
            ctx.outcome("draws not scripted")
            continue
        loc, shape, df, out = log[-1]
        ctx.close(loc, ep, "location of the proposal", rtol=1e-9, atol=1e-12)
        ctx.close(shape, Vpr, "shape of the proposal", rtol=1e-9, atol=1e-12)
        ctx.expect(df == o["df"], "degrees of freedom of the proposal", str(df))
        det = str({k: v for k, v in o.items()})
        alts = []
        for inc in (True, False):
            grid = np.vstack([est, out]) if inc else out
            alts.append(mc_ref(c, m, d, D, grid, o, ep, Vpr, dB, Vp, Vlb, [cd(r) for r in grid]))
        tol = 1e-5 if c["kind"] == "Gaussian" and not c.get("link") else 2e-3
        if o["only"]:
            ex = float(np.ravel(got[8])[0])
            ctx.expect(min(abs(ex - q["ex"]) for q in alts) < tol * (1 + abs(ex)), "expected edf over draws of the smoothing parameters", f"{ex} {[q['ex'] for q in alts]} {det}")
            ctx.expect(got[0] is None and got[5] is None, "only the expected edf was requested")
            ctx.outcome(("only", o["grid"], o["n_c"]))
            continue
        V = G.dense(got[0]) if scp.sparse.issparse(got[0]) else np.asarray(got[0])
        sv = np.abs(V).max()
        best = min(alts, key=lambda q: np.abs(V - q["V"]).max() / sv + (np.abs(np.ravel(got[9]) - q["mean"]).max() if o["recompute"] and got[9] is not None else 0))
        if any(abs(q["mar"]) < 1e-3 for q in alts):
            ctx.outcome("at the lower bound")
            continue
        ctx.close(V, best["V"], "corrected covariance over draws of the smoothing parameters", rtol=tol, atol=tol * np.abs(V).max(), detail=det)
        we, wt, we2, wt2, cap = D.bounds(o["t1"], best["V"], best["nH"])
        ctx.close(float(got[5]), wt, "corrected edf over draws of the smoothing parameters", rtol=5 * tol, atol=5 * tol, detail=det)
        ctx.close(float(got[7]), wt2, "bias corrected edf over draws of the smoothing parameters", rtol=5 * tol, atol=5 * tol, detail=det)
        ctx.close(np.ravel(got[4]), we, "coefficient-wise corrected edf over draws", rtol=5 * tol, atol=5 * tol, detail=det)
        if o["recompute"]:
            ctx.close(np.ravel(got[9]), best["mean"], "mean coefficients over draws", rtol=tol, atol=tol, detail=det)
        else:
            ctx.expect(got[9] is None, "mean coefficients without recomputing the Hessian")
        ctx.outcome((o["grid"], bool(best["mar"] < 0), bool(cap), o["prior"], o["n_c"]))


# ---- F: comparisons ------------------------------------------------------------------------------------------------------------------------
def compare_case(ctx, c):
    from mssm.src.python import utils as U
    from mssm.src.python.compare import compare_CDL
    ms = []
    for t in c["pair"]:
        m, d = build_model(dict(c, terms=t))
        if m.info.code != 0 or m.info.dropped is not None:
            ctx.outcome("not judged")
            return
        ms.append(m)
    ctx.state(1)
    fam = ms[0].family
    D = [Dense(m) for m in ms]
    two = D[0].gam and fam.twopar
    extra = [(1 if two else 0) + (len(m.family.theta) if getattr(m.family, "est_theta", False) else 0) for m in ms]
    with Q.quiet():
        llk = [float(np.ravel(m.get_llk(False))[0]) for m in ms]
        cor = {t1: [U.correct_VB(m, n_c=1, form_t1=t1) for m in ms] for t1 in (False, True)}
    n = ms[0].get_mmat()
    n = (n[0] if isinstance(n, list) else n).shape[0]
    for cv, t1, glrt in itertools.product((True, False), (None, False, True), (False, True)):
        if glrt and D[0].n < D[1].n:
            try:
                with Q.quiet():
                    compare_CDL(ms[0], ms[1], correct_V=cv, correct_t1=t1, perform_GLRT=True)
                ctx.fail("test of a model with fewer coefficients was not rejected")
            except ValueError:
                ctx.outcome("rejected")
            continue
        with Q.quiet():
            r = compare_CDL(ms[0], ms[1], correct_V=cv, correct_t1=t1, perform_GLRT=glrt, alpha=c.get("alpha", 0.05), grid="JJJ1")
        ctx.trans(1)
        teff = glrt if t1 is None else t1
        base, test = [], []
        for k in range(2):
            U0 = D[k].V0 @ D[k].nH
            e1 = 2 * D[k].edf - np.sum(U0 * U0.T)
            if cv:
                base.append(float(cor[teff][k][5]) + extra[k])
                test.append(float(cor[True][k][7]) + extra[k] if teff else base[-1])
            else:
                base.append(D[k].edf + extra[k])
                test.append(e1 + extra[k] if teff else base[-1])
        det = f"correct_V {cv} correct_t1 {t1} GLRT {glrt}"
        for k in range(2):
            ctx.close(float(r[f"aic{k + 1}"]), -2 * llk[k] + 2 * base[k], "AIC", rtol=1e-7, atol=1e-4, detail=det)
            ctx.close(float(r[f"DOF{k + 1}"]), test[k], "degrees of freedom", rtol=1e-6, atol=1e-4, detail=det)
            if teff:
                ctx.close(float(r[f"DOF{k + 1}2"]), base[k], "degrees of freedom of the AIC", rtol=1e-6, atol=1e-4, detail=det)
        ctx.close(float(r["aic_diff"]), float(r["aic1"]) - float(r["aic2"]), "AIC difference", rtol=1e-9, atol=1e-9)
        ctx.close(float(r["test_stat"]), 2 * (llk[0] - llk[1]), "test statistic", rtol=1e-7, atol=1e-7)
        ctx.close(float(r["Res. DOF"]), float(r["DOF1"]) - float(r["DOF2"]), "difference in degrees of freedom", rtol=1e-9, atol=1e-9)
        st, dd = 2 * (llk[0] - llk[1]), float(r["DOF1"]) - float(r["DOF2"])
        if llk[0] < llk[1] and dd < 0:
            st = -st
        if not glrt or st < 0:
            ctx.expect(np.isnan(r["p"]) and np.isnan(r["H1"]), "p-value without a test", det)
            ctx.outcome("no test")
        else:
            df = abs(dd)
            if two:
                want = float(scp.special.betainc((n - max(r["DOF1"], r["DOF2"])) / 2, df / 2, 1 / (1 + df * (st / df) / (n - max(r["DOF1"], r["DOF2"])))))
            else:
                want = float(scp.special.gammaincc(df / 2, st / 2))
            ctx.close(float(r["p"]), want, "p-value of the test", rtol=1e-5, atol=1e-8, detail=det)
            ctx.expect(bool(r["H1"]) == bool(r["p"] <= c.get("alpha", 0.05)), "decision of the test", det)
            ctx.outcome(("test", bool(r["H1"]), bool(two)))
        if not glrt:
            with Q.quiet():
                q = compare_CDL(ms[1], ms[0], correct_V=cv, correct_t1=t1, perform_GLRT=False, grid="JJJ1", bfgs_options={"maxcor": 12})
            for k in ("test_stat", "aic_diff", "Res. DOF"):
                ctx.close(float(q[k]), -float(r[k]), "antisymmetry of " + k, rtol=1e-9, atol=1e-9, detail=det)


def reject_case(ctx, c):
    from mssm.src.python.compare import compare_CDL
    a, d = build_model(dict(kind=c["a"], terms=c["ta"], link=c.get("la")))
    b, d = build_model(dict(kind=c["b"], terms=c["tb"], link=c.get("lb")))
    ctx.state(1)
    try:
        with Q.quiet():
            compare_CDL(a, b, grid="JJJ1")
        same = type(a.family) == type(b.family)
        ctx.expect(same, "models of different families were compared", f"{c}")
        ctx.outcome("compared")
    except ValueError:
        ctx.expect(type(a.family) != type(b.family), "models of one family were not compared")
        ctx.outcome("rejected")


# ---- G: tests of single terms --------------------------------------------------------------------------------------------------------------
GL = np.polynomial.legendre.leggauss(60)


def tail(x, k, v1, v2):
    """P(chi2(k-1) + v1 chi2(1) + v2 chi2(1) > x): the last two in polar coordinates, the first integrated numerically."""
    x = np.atleast_1d(np.asarray(x, dtype=float))
    th = (np.arange(400) + 0.5) * np.pi / 2 / 400
    g = v1 * np.cos(th) ** 2 + v2 * np.sin(th) ** 2
    if k == 1:
        return np.mean(np.exp(-x[:, None] / (2 * g)), axis=1)
    q = (k - 1) / 2
    s, w = (GL[0] + 1) / 2, GL[1] / 2
    out = []
    for X in x:
        if X <= 0:
            out.append(1.0)
            continue
        t = X * s**2  # density of chi2(k-1) times the Jacobian of the substitution
        f = np.exp((q - 1) * np.log(t) - t / 2 - q * np.log(2) - scp.special.gammaln(q)) * 2 * X * s * w
        out.append(scp.special.gammaincc(q, X / 2) + np.mean(np.exp(-(X - t)[None, :] / (2 * g[:, None])) @ f))
    return np.array(out)


def upper(T, k, v, r, two, rs):
    """Accepted p-values (one per reading of the residual degrees of freedom) of the rank r statistic."""
    if v == 0:
        return [float(scp.special.betainc(rs / 2, k / 2, rs / (rs + T)))] if two else [float(scp.special.gammaincc(k / 2, T / 2))]
    v1 = (v + 1 + np.sqrt(1 - v * v)) / 2
    v2 = v + 1 - v1
    if not two:
        return [float(tail(T, k, v1, v2)[0])]
    u, w = (GL[0] + 1) / 2, GL[1] / 2
    return [float(w @ tail(T * 2 * scp.special.gammaincinv(b / 2, u) / a, k, v1, v2)) for a, b in ((rs, rs), (rs, np.floor(rs)), (np.round(rs),) * 2)]


def smooth_blocks(form):
    """(term index, label level, first column, columns, tested) of every listed smooth and random effect in order."""
    from mssm.src.python.terms import fs, rs
    terms = form.get_terms()
    at = sum(int(form.coef_per_term[t]) for t in [*form.get_linear_term_idx(), *form.get_ir_smooth_term_idx()])
    out = []
    for t in [*form.get_smooth_term_idx(), *form.get_random_term_idx()]:
        by = getattr(terms[t], "by", None)
        lv = 1
        if by is not None and (isinstance(terms[t], rs) or terms[t].id is None):
            lv = len(form.get_factor_levels()[by])
        n = int(form.coef_per_term[t]) // lv
        for l in range(lv):
            out.append((t, l, at, n, t in form.get_smooth_term_idx() and not isinstance(terms[t], fs)))
            at += n
    return out


def capture(fn, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn(*a, **k)
    return buf.getvalue().splitlines()


def stars(p):
    return " ***" if p < 0.001 else " **" if p < 0.01 else " *" if p < 0.05 else " ." if p < 0.1 else ""


NUM = r"(-?[0-9.]+(?:e[-+]?[0-9]+)?|nan|inf)"


def tests_case(ctx, c):
    from mssm.src.python import utils as U
    m, d = build_model(c)
    ctx.state(1)
    if not judged(ctx, m, c["kind"]):
        return
    if c.get("refit"):
        with Q.quiet():
            U.compute_bias_corrected_edf(m)
        before = m.edf1
        c23.refit(m, **c["refit"])
        if not judged(ctx, m, "refit"):
            return
    D = Dense(m)
    F = D.V0 @ D.nH
    FF = F @ F
    with Q.quiet():
        U.compute_bias_corrected_edf(m)
    blocks, _ = c23.block_edf(m.overall_penalties, F)
    e1 = [2 * np.sum(np.diag(F)[a:a + n]) - np.sum(np.diag(FF)[a:a + n]) for a, n in blocks]
    ctx.close(np.ravel(m.term_edf1), e1, "bias corrected term-wise edf", rtol=1e-5, atol=1e-5)
    un = D.n - sum(n for _, n in blocks)
    ctx.close(float(m.edf1), un + sum(e1), "bias corrected edf", rtol=1e-5, atol=1e-5)
    code1 = {a: float(v) for (a, _), v in zip(blocks, m.term_edf1)}
    code0 = {a: float(v) for (a, _), v in zip(blocks, m.term_edf)} if blocks else {}
    two = D.gam and m.family.twopar
    Xs = m.get_mmat()
    Xs = [G.dense(X) for X in (Xs if isinstance(Xs, list) else [Xs])]
    at = 0
    for par, form in enumerate(m.formulas):
        X = Xs[par] if par < len(Xs) else None
        rs_df = X.shape[0] - D.edf
        bl = smooth_blocks(form)
        for use1, force in c["opts"]:
            with Q.quiet():
                ps, Ts = U.approx_smooth_p_values(m, par=par, edf1=use1, force_approx=force)
            ctx.trans(1)
            tested = [q for q in bl if q[4]]
            if not ctx.expect(len(ps) == len(Ts) == len(tested), "number of tested smooths", f"{len(ps)} {len(tested)}"):
                continue
            for (t, l, s, n, _), p, Tr in zip(tested, ps, Ts):
                r = min((code1 if use1 else code0).get(at + s, n), n)
                det = f"{c['terms']} par {par} term {t} level {l} edf1 {use1} approx {force} r {r:.4f}"
                ctx.expect(0 <= p <= 1, "p-value outside of [0, 1]", f"{p} {det}")
                k = int(r)
                if k == 0:
                    ctx.expect(p == 1 and Tr == -1, "fully penalised smooth", det)
                    ctx.outcome("fully penalised")
                    continue
                v = r - k
                R = np.linalg.qr(X[:, s:s + n], mode="r")
                V = D.V0[at + s:at + s + n, at + s:at + s + n]
                w, E = np.linalg.eigh(R @ V @ R.T)
                w, E = w[::-1], E[:, ::-1]
                z = E.T @ (R @ D.b[at + s:at + s + n])
                cor = np.sqrt(v * (1 - v) / 2)
                head = np.sum(z[:k - 1] ** 2 / w[:k - 1])
                a = z[k - 1] / np.sqrt(w[k - 1])
                b = z[k] / np.sqrt(w[k]) if k < n else 0.0
                Tt = [head + a * a + v * b * b + sg * 2 * cor * a * b for sg in (1, -1)]
                ctx.close(float(Tr), max(Tt) / (r if two else 1), "test statistic of a smooth", rtol=2e-4, atol=1e-5, detail=det)
                if force and v > 0:
                    if two:
                        want = [np.mean([scp.special.betainc(rs_df / 2, r / 2, 1 / (1 + q / rs_df)) for q in Tt])]
                    else:
                        want = [np.mean([scp.special.gammaincc(r / 2, q / 2) for q in Tt])]
                else:
                    want = np.mean([upper(q, k, v, r, two, rs_df) for q in Tt], axis=0)
                ctx.expect(min(want) - 1e-4 <= p <= max(want) + 1e-4, "p-value of a smooth", f"{p} {want} {det}")
                ctx.outcome((bool(v == 0), bool(p < 0.05), k == 1, force))
        # tables
        fitted = {a: float(v) for a, v in code0.items()}
        with Q.quiet():
            ps, Ts = U.approx_smooth_p_values(m, par=par)
        for cut, wp in itertools.product((0.2, 2.5), (False, True)):
            lines = capture(U.print_smooth_terms, m, par=par, pen_cutoff=cut, **(dict(ps=ps, Trs=Ts) if wp else {}))
            rows = [q for q in lines if "edf:" in q]
            if not ctx.expect(len(rows) == len(bl), "rows of the table of smooths", f"{len(rows)} {len(bl)}"):
                continue
            q = 0
            names = form.get_term_names()
            cut_n = 0
            for row, (t, l, s, n, tst) in zip(rows, bl):
                e = fitted.get(at + s, n)
                g = re.search("edf: " + NUM, row)
                ctx.expect(row.startswith(names[t]) and g and abs(float(g.group(1)) - e) < 6e-4, "edf in the table of smooths", f"{row} want {names[t]} {e}")
                tail = row[g.end():] if g else ""
                if t in form.get_smooth_term_idx():
                    lo = round(e, 3) < cut
                    cut_n += lo
                    ctx.expect(tail.startswith(" *") == lo or (wp and abs(e - cut) < 1e-3), "marker of penalised smooths", row)
                if wp and tst:
                    g = re.search(": " + NUM + r" P\((?:F > f|Chi\^2 > chi\^2)\) = " + NUM + "(.*)$", tail)
                    ctx.expect(g is not None and abs(float(g.group(1)) - Ts[q]) < 6e-4 and abs(float(g.group(2)) - ps[q]) < 6e-6 + 1e-3 * ps[q] and g.group(3) == stars(ps[q]), "test in the table of smooths", f"{row} {Ts[q]} {ps[q]}")
                    q += 1
                ctx.outcome("row")
        at += form.n_coef
    # parametric terms
    at = 0
    for par, form in enumerate(m.formulas):
        nl = int(sum(form.coef_per_term[t] for t in form.get_linear_term_idx()))
        if nl:
            rows = [q for q in capture(U.print_parametric_terms, m, par=par) if "P(|" in q]
            ctx.expect(len(rows) == nl, "rows of the table of parametric terms", f"{len(rows)} {nl}")
            for j, row in enumerate(rows):
                b, se = D.b[at + j], np.sqrt(D.V0[at + j, at + j])
                t = b / se
                dof = Xs[par].shape[0] - form.n_coef
                want = float(scp.special.betainc(dof / 2, 0.5, dof / (dof + t * t))) if two else float(scp.special.erfc(abs(t) / np.sqrt(2)))
                g = re.match(re.escape(form.coef_names[j]) + ": " + NUM + r", ([tz]): " + NUM + r",(?: DoF\.: ([0-9]+),)? P\(.*\): " + NUM + "(.*)$", row)
                if not ctx.expect(g is not None, "row of the table of parametric terms", row):
                    continue
                ctx.expect(abs(float(g.group(1)) - b) < 6e-4 and abs(float(g.group(3)) - t) < 6e-4 + 1e-6 * abs(t), "estimate in the table of parametric terms", f"{row} want {b} {t}")
                ctx.expect((g.group(2) == "t") == two and (not two or int(g.group(4)) == dof), "reference distribution of a parametric test", f"{row} {dof}")
                p = float(g.group(5))
                ctx.expect(abs(p - want) < 6e-6 + 1e-3 * want + 1e-13, "p-value of a parametric term", f"{row} want {want}")
                ctx.expect(g.group(6) in {stars(q) for q in (p, want)}, "marker of a parametric term", row)
                ctx.outcome(("t" if two else "z", bool(want < 0.05)))
        at += form.n_coef


def large_case(ctx, c):
    """More rows than the test uses."""
    import pandas as pd
    from mssm.src.python import utils as U
    n = c["n"]
    x = vmc.gen(("c24large", n), n, lo=0, hi=1)
    d = pd.DataFrame({"x": x, "y": np.sin(4 * x) * 0.02 + vmc.gen(("c24e", n), n, lo=-1, hi=1)})
    m = Q.gamm("Gaussian", [T("i"), T("f", ["x"], nk=5)], d)
    ctx.state(1)
    with Q.quiet():
        a = U.approx_smooth_p_values(m)
        b = U.approx_smooth_p_values(m, n_sel=2 * n)
    ctx.close(float(a[1][0]), float(b[1][0]), "test statistic from a subset of the rows", rtol=0.05)
    ctx.expect(abs(a[0][0] - b[0][0]) < 0.05 and 0 <= a[0][0] <= 1, "p-value from a subset of the rows", f"{a} {b}")
    ctx.outcome("large")


def run(chk):
    th = chk.thorough
    lams = c14.LAMS + [[1e5, 1e-3]]
    pool = [s for s in G.U_SM + G.U_TP + G.U_RE + G.U_FS + G.U_IR if s[2].get("is_penalized", True)]
    sp = [dict(forms=[[G.T("i"), s]], lam=lam, na="none", scales=[1.0, 0.02, 30.0]) for s in pool for lam in (lams if th else lams[::2])]
    small = [s for s in G.CORE if s[0] not in ("i", "l")] + [G.T("f", ["x"], nk=5, id=3), G.T("f", ["z"], nk=5, id=3), G.T("ri", "sub", id=3)]
    for k, (a, b) in enumerate(itertools.permutations(small, 2)):
        if not th and k % 3:
            continue
        sp.append(dict(forms=[[G.T("i"), a], [G.T("i"), G.T("l", ["x"]), b]], lam=lams[3], na="none", scales=[1.0]))
        sp.append(dict(forms=[[a], [G.T("i")], [G.T("i"), b]], lam=lams[4], na="none", scales=[1.0], extra=2))
    for t in ([G.T("i")], [G.T("i"), G.T("l", ["fac"])]):
        sp.append(dict(forms=[t], lam=[1.0], na="none", scales=[1.0, 0.3]))
        sp.append(dict(forms=[t, t], lam=[1.0], na="none", scales=[1.0]))
    chk.explore("score", sp, score_case, bounds=f"{len(pool)} penalised term forms, ordered pairs of {len(small)} forms in two and three formulas, no penalties, {len(lams)} smoothing-parameter patterns, scales, tied and separate, with and without a dropped coefficient", min_outcomes=60)
    gam = [("Gaussian", None), ("Gamma", "LOG"), ("Poisson", None), ("Binomial", None)] + ([("Gaussian", "LOG"), ("Gamma", None), ("InvGauss", None)] if th else [])
    gt = [t for t in TERMS if t != "lin"]
    sp = [dict(kind=f, link=l, terms=t, off=o) for (f, l) in gam for t in gt + ["lin"] for o in (None, "arr") if o is None or t in ("add", "by", "lin")]
    sp += [dict(kind="Gaussian", terms=t, fit=dict(rho=r)) for t in ("sm", "by") for r in (0.4, -0.3)]
    sp += [dict(kind="Poisson", terms=t, fidiff=True) for t in (["sm", "add"] if th else ["sm"])]
    gen = ["GAUMLSS", "GAMMALS", "PropHaz"] + (["MULNOMLSS", "MultiGauss", "wrap:GAUMLSS"] if th else [])
    sp += [dict(kind=g, terms=t) for g in gen for t in c23.GEN if not (g == "PropHaz" and t == "const")]
    chk.explore("models", sp, model_case, bounds=f"{len(gam)} family/link pairs x {len(gt) + 1} term structures x offsets, auto-correlated Gaussian models, {len(gen)} general models x {len(c23.GEN)} structures; corrections with and without second term and bias correction", min_outcomes=8)
    sh = [(0.0,), (1.5, -1.0), (-2.0, 2.0)] + ([(3.0,), (-3.0,), (0.0, 4.0)] if th else [])
    ct = ["sm", "add", "by", "id", "null", "te", "rs", "lin"] if not th else gt + ["lin"]
    sp = [dict(kind=f, link=l, terms=t, off=o, shifts=sh) for (f, l) in gam for t in ct for o in (None, "arr") if o is None or t in ("add", "lin")]
    sp += [dict(kind="Gaussian", terms=t, shifts=sh, method="QR") for t in ("add", "by")]
    sp += [dict(kind=g, terms=t, shifts=sh) for g in gen for t in (c23.GEN if th else ("sm-sm", "add-lin", "by", "id", "null")) if not (g == "PropHaz" and t in ("const", "lin"))]
    chk.explore("candidates", sp, cand_case, bounds=f"{len(gam)} family/link pairs x {len(ct)} structures, {len(gen)} general models, {len(sh)} displacements of the smoothing parameters", min_outcomes=6)
    u2 = [[(0.0,), (1.0,)], [(1.0, -1.0), (-1.0, 1.0)], [(0.7,)], [(1.0,), (-1.0,), (0.4, -0.8)], [(2.0, -2.0), (0.0,)]]
    opts = []
    for grid, us in itertools.product(("JJJ2", "JJJ3"), u2 if th else u2[:4]):
        for wt, pr in ((True, None), (True, "unif"), (True, "cent"), (False, None)):
            for rec, only in ((False, False), (True, False), (False, True)):
                opts.append(dict(grid=grid, us=us, weights=wt, prior=pr, recompute=rec, only=only, t1=len(us) == 2, df=[40, 8][len(us) % 2]))
    par = [dict(o, n_c=2) for k, o in enumerate(opts) if k % (3 if th else 7) == 0]
    mk = [dict(kind="Gaussian", terms="add"), dict(kind="Gaussian", terms="null", off="arr"), dict(kind="Poisson", terms="add", off="arr"), dict(kind="Gamma", link="LOG", terms="sm"), dict(kind="GAUMLSS", terms="sm-sm"), dict(kind="Gaussian", terms="sm", b=0.5)]
    if th:
        mk += [dict(kind="Binomial", terms="by"), dict(kind="GAMMALS", terms="add-lin"), dict(kind="PropHaz", terms="add-lin"), dict(kind="Gaussian", terms="te"), dict(kind="Poisson", terms="id")]
    step = 12
    sp = [dict(q, opts=(opts + par)[i::step]) for q in mk for i in range(step)]
    chk.explore("draws", sp, mc_case, bounds=f"{len(mk)} models x {len(opts)} combinations of strategy, scripted draws, weights, prior, recomputed Hessian and expected edf, {len(par)} of them on worker processes", min_outcomes=12)
    pairs = [("add", "sm"), ("sm", "lin"), ("lin", "sm"), ("by", "lin"), ("add", "one"), ("lin", "one"), ("add", "null")]
    sp = [dict(kind=f, link=l, pair=p, off=o, alpha=al) for (f, l) in gam + [("ScaledT", None)] for p in pairs for o, al in ((None, 0.05), ("arr", 0.3)) if o is None or p == pairs[0]]
    sp += [dict(kind=g, pair=p) for g in gen for p in (("sm-sm", "sm"), ("add-lin", "lin"), ("lin", "const"), ("sm", "lin")) if not (g == "PropHaz" and p[1] == "const")]
    chk.explore("comparisons", sp, compare_case, bounds=f"{len(gam) + 1} family/link pairs x {len(pairs)} ordered pairs of models, {len(gen)} general models; 12 combinations of correction and test", min_outcomes=6)
    sp = [dict(a=a, la=la, ta="sm", b=b, lb=lb, tb="lin") for (a, la), (b, lb) in itertools.product([("Gaussian", None), ("Gaussian", "LOG"), ("Poisson", None), ("Gamma", "LOG")], repeat=2)]
    sp += [dict(a="GAUMLSS", ta="sm", b="GAMMALS", tb="sm"), dict(a="Gaussian", ta="sm", b="GAUMLSS", tb="sm"), dict(a="GAUMLSS", ta="sm", b="GAUMLSS", tb="lin")]
    chk.explore("rejections", sp, reject_case, bounds="every ordered pair of four families and links, distributional models", min_outcomes=2)
    o1 = [(True, False), (False, False), (True, True)]
    sp = [dict(kind=f, link=l, terms=t, opts=o1) for (f, l) in gam for t in gt]
    sp += [dict(kind="Gaussian", terms=t, opts=o1, refit=dict(max_outer=1)) for t in ("sm", "add")]
    sp += [dict(kind=g, terms=t, opts=o1) for g in gen for t in c23.GEN if not (g == "PropHaz" and t == "const")]
    if not th:
        sp += [dict(kind=g, terms=t, opts=o1) for g in ("MULNOMLSS", "MultiGauss") for t in ("const", "sm", "add-lin")]
    chk.explore("tests", sp, tests_case, bounds=f"{len(gam)} family/link pairs x {len(gt)} structures, {len(gen)} general models x {len(c23.GEN)} structures; bias corrected or plain edf, exact and approximate distributions; tables of smooth and parametric terms", min_outcomes=8)
    chk.explore("many rows", [dict(n=100020)], large_case, bounds="more rows than the default subset", min_outcomes=1)
