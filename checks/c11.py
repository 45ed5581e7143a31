"""C11: a fit to data with missing values equals the fit to the data without the affected rows, over all missing patterns of bounded data."""
import itertools
import numpy as np
import pandas as pd
import vmc
import gam_ref as G
import fits as Q

LEVEL = "model_checking"
ASSUMPTIONS = ["Covariate ranges and level sets are those of all rows (they place knots and dummy codes), so patterns are bounded to those leaving them unchanged.",
               "For general smooth models (GSMM) the rows of different formulas need not correspond, so only missing responses shared by all formulas are in scope there."]
T = G.T


def same(ctx, m, r, what, tol=1e-6, recentred=False):
    """Two fitted models must be the same model (recentred: smooths may be centred over different rows, so only compare functions)."""
    ctx.expect(len(m.coef) == len(r.coef), what + ": number of coefficients")
    if len(m.coef) != len(r.coef):
        return
    sc = 1 + np.max(np.abs(r.coef))
    if not recentred:
        ctx.close(m.coef, r.coef, what + ": coefficients", rtol=tol, atol=tol * sc)
    ctx.close(m.scale, r.scale, what + ": scale", rtol=tol, atol=tol)
    ctx.close(m.edf, r.edf, what + ": edf", rtol=tol, atol=tol)
    ctx.close([p.lam for p in m.overall_penalties], [p.lam for p in r.overall_penalties], what + ": smoothing parameters", rtol=max(tol, 1e-4))
    V, W = G.dense(m.lvi), G.dense(r.lvi)
    if recentred:
        cut = m.formulas[0].n_coef
        A, B = G.dense(m.get_mmat(par=0)), G.dense(r.get_mmat(par=0))
        P, R = A @ (V.T @ V)[:cut, :cut] @ A.T, B @ (W.T @ W)[:cut, :cut] @ B.T
        ctx.close(P, R, what + ": covariance of the fitted values", rtol=1e-4, atol=tol * (1 + np.abs(R).max()))
    else:
        ctx.close(V.T @ V, W.T @ W, what + ": covariance", rtol=1e-4, atol=tol * (1 + np.abs(W.T @ W).max()))
    if not recentred:
        ctx.close(G.dense(m.hessian), G.dense(r.hessian), what + ": Hessian", rtol=1e-4, atol=tol * (1 + np.abs(G.dense(r.hessian)).max()))
    for a, b in zip(m.preds, r.preds):
        ctx.expect(a.shape == b.shape, what + ": fitted values are not aligned with the remaining observations", f"{a.shape} {b.shape}")
        if a.shape == b.shape:
            ctx.close(a, b, what + ": fitted values", rtol=tol, atol=tol * 10)
    with Q.quiet():
        ctx.close(m.get_llk(True), r.get_llk(True), what + ": log-likelihood", rtol=1e-6, atol=1e-6)
        if not hasattr(m.family, "extra_coef"):
            a, b = m.get_resid(), r.get_resid()
            ctx.expect(np.shape(a) == np.shape(b), what + ": residuals are not aligned with the remaining observations", f"{np.shape(a)} {np.shape(b)}")
            if np.shape(a) == np.shape(b):
                ctx.close(a, b, what + ": residuals", rtol=1e-5, atol=1e-5)
        ys, rs = m.get_ys(), r.get_ys()
        for a, b in zip(ys if isinstance(ys, list) else [ys], rs if isinstance(rs, list) else [rs]):
            if a is None:
                ctx.expect(b is None, what + ": responses")
            else:
                ctx.close(a, b, what + ": responses used", rtol=0, atol=0)


def pat_frame(n, fam, salt):
    x = vmc.gen(("na-x", salt, n), n, lo=0.1, hi=1)
    u = Q.unif(("na-u", salt, n), n)
    e = 0.4 + 0.8 * x
    y = {"Gaussian": e + u - 0.5, "Gamma": np.exp(e) * (0.3 + u), "Poisson": np.floor(np.exp(e) * (0.4 + 1.4 * u)), "Binomial": (np.arange(n) % 2 == 0).astype(float)}[fam]
    return pd.DataFrame(dict(y=y, x=x, g=np.array(["q", "p"] * n, dtype=object)[:n], off=vmc.gen(("na-o", n), n) * 0.3, s=np.repeat(["b", "a"], [n // 2, n - n // 2])))


def pattern_case(ctx, c):
    """Every subset of rows with a missing value in one column."""
    from mssm.models import GAMM
    n, col, fam = c["n"], c["col"], c["fam"]
    full = pat_frame(n, fam, 0)
    first = c["first"]
    for rest in itertools.product([0, 1], repeat=n - len(first)):
        mask = list(first) + list(rest)
        keep = np.array(mask) == 0
        if keep.sum() < c["left"] or keep.all() or len(set(full["g"][keep])) < 2:
            continue
        d = full.copy()
        d.loc[~keep, col] = np.nan
        red = full[keep].reset_index(drop=True)
        before = d.copy()
        mods = []
        for dd, k in ((d, None), (red, keep)):
            F = Q.formula("y", [T("i"), T("l", ["x"]), T("l", ["g"])], dd, codebook={"g": {"p": 0, "q": 1}}, series_id="s" if c["id"] else None)
            m = GAMM(F, Q.gamm_family(fam))
            o = {}
            if c["off"]:
                o["offset"] = (full["off"].to_numpy() if k is None else full["off"].to_numpy()[k]).reshape(-1, 1)
            with Q.quiet():
                m.fit(progress_bar=False, n_cores=1, **o)
            mods.append(m)
        same(ctx, mods[0], mods[1], f"missing {col} {mask}")
        ctx.close(G.dense(mods[0].get_mmat()), G.dense(mods[1].get_mmat()), "model matrix", rtol=0, atol=1e-12)
        ctx.expect(before.equals(d), "the data are modified")
        if c["id"]:
            F = mods[0].formulas[0]
            for k, lev in enumerate(["b", "a"]):
                idx = (d["s"] == lev).to_numpy()
                ctx.expect(np.array_equal(np.asarray(F.NOT_NA[k]), keep[idx]), "missing rows of a series", f"{mask}")
                ctx.expect(np.array_equal(np.asarray(F.y[k]).ravel(), d["y"].to_numpy()[idx], equal_nan=True), "rows of a series")
        ctx.state()
        ctx.trans(2)
        ctx.outcome(mask)
    ctx.trace()


PATS = {"one": [7], "ends": [0, -1], "few": [1, 2, 9, 17, 30], "start": [0, 1, 2]}


def term_case(ctx, c):
    """Every kind of term: constraints, penalties and fits only use remaining rows; convolutions keep every row's time course."""
    specs = c["specs"]
    full = Q.data(salt=3, n_per=9)
    # extremes sit in rows no pattern touches, so ranges stay
    n = len(full)
    for v, (lo, hi) in dict(x=(0.0, 1.0), z=(-4.0, 9.0), w=(0.2, 2.0)).items():
        full.loc[40, v], full.loc[41, v] = lo, hi
    miss = [j % n for j in PATS[c["pat"]]]
    keep = np.ones(n, bool)
    keep[miss] = False
    d = full.copy()
    d.loc[~keep, "y"] = np.nan
    red = full[keep].reset_index(drop=True)
    cb = {v: {k: j for j, k in enumerate(sorted(set(full[v])))} for v in ("fac", "cond", "sub", "grp", "subcond")}
    used = {v for v in cb if v in repr(specs)}
    cb = {v: cb[v] for v in cb if v in used}
    irf = any(s[0] == "irf" for s in specs)
    from mssm.models import GAMM

    def fit(dd):
        m = GAMM(Q.formula("y", specs, dd, codebook=None), Q.gamm_family("Gaussian"))
        with Q.quiet():
            m.fit(progress_bar=False, n_cores=1)
        return m
    m = fit(d)
    if irf:
        r = fit(full)
        ctx.close(G.dense(m.get_mmat()), G.dense(r.get_mmat())[keep], "model matrix rows of the remaining observations", rtol=1e-9, atol=1e-10)
        ctx.expect(len(m.preds[0]) == keep.sum() and len(m.get_resid()) == keep.sum(), "fitted values/residuals are not aligned")
        X, y = G.dense(m.get_mmat()), full["y"].to_numpy()[keep]
        S = Q.pen_matrix(m)
        ctx.close(m.coef.ravel(), np.linalg.lstsq(X.T @ X + S, X.T @ y, rcond=None)[0], "coefficients", rtol=1e-4, atol=1e-4)
    else:
        r = fit(red)
        ctx.close(G.dense(m.get_mmat()), G.dense(r.get_mmat()), "model matrix", rtol=1e-8, atol=1e-9)
        for p, q in zip(m.overall_penalties, r.overall_penalties):
            ctx.close(G.dense(p.S_J_emb), G.dense(q.S_J_emb), "penalty", rtol=1e-7, atol=1e-8)
            ctx.expect(p.rank == q.rank, "penalty rank")
        same(ctx, m, r, "fit", tol=1e-5)
    ctx.state()
    ctx.trans(2)
    ctx.trace()
    ctx.outcome(m.coef.shape[0])


def multi_case(ctx, c):
    """Several formulas: an observation missing anything used by any formula is excluded everywhere."""
    d = Q.data(salt=1, n_per=8)
    d.loc[40, "x"], d.loc[41, "x"] = 0.0, 1.0
    rows = [2, 11, 30]
    lhs = Q.LHS[c["fam"].split(":")[-1]]
    for r, a in zip(rows, c["assign"]):
        for v in a.split("+"):
            if v != "-":
                d.loc[r, lhs if v == "y" else v] = np.nan
    keep = ~d[[lhs, "x", "z"]].isna().any(axis=1)
    red = d[keep].reset_index(drop=True)
    s = [[T("i"), T("l", ["x"])], [T("i"), T("l", ["z"])]]
    if c["sm"]:
        s = [[T("i"), T("f", ["x"], nk=4)], [T("i"), T("l", ["z"])]]
    fit = (lambda dd: Q.gammlss(c["fam"], s, dd)) if ":" not in c["fam"] and c["fam"] not in ("MultiGauss",) else (lambda dd: Q.gsmm(c["fam"], s, dd))
    m, r = fit(d), fit(red)
    same(ctx, m, r, f"missing {c['assign']}", tol=1e-5, recentred=c["sm"])
    for par in (0, 1) if not c["sm"] else (1,):
        ctx.close(G.dense(m.get_mmat(par=par)), G.dense(r.get_mmat(par=par)), "model matrix", rtol=1e-9, atol=1e-10)
    ctx.state()
    ctx.trans(2)
    ctx.trace()
    ctx.outcome(c["assign"])


def getter_case(ctx, c):
    """Unfiltered getters return every row, filtered ones the remaining rows in order."""
    from mssm.models import GSMM, GAMM
    from mssm.src.python.exp_fam import MultiGauss, Identity
    d = Q.data(salt=2, n_per=6)
    n = len(d)
    keep = np.ones(n, bool)
    keep[c["miss"]] = False
    d.loc[~keep, ["y", "y2"]] = np.nan
    specs = c["specs"]
    F = [Q.formula("y", specs, d), Q.formula("y2", specs, d)]
    m = GSMM(F, MultiGauss(2, [Identity(), Identity()]))
    with Q.quiet():
        for f in F:
            G_ = GAMM(f, Q.gamm_family("Gaussian"))
            G_.fit(progress_bar=False, n_cores=1)
    for par in (0, 1):
        X1, X0 = G.dense(m.get_mmat(par=par, drop_NA=True)), G.dense(m.get_mmat(par=par, drop_NA=False))
        ctx.expect(X0.shape[0] == n and X1.shape[0] == keep.sum(), "rows of the model matrix")
        ctx.close(X0[keep], X1, "rows of the model matrix", rtol=1e-12, atol=1e-12)
        y1, y0 = m.get_ys(par=par, drop_NA=True), m.get_ys(par=par, drop_NA=False)
        ctx.expect(np.array_equal(y0.ravel(), d[["y", "y2"][par]].to_numpy(), equal_nan=True), "unfiltered response")
        ctx.expect(np.array_equal(y1.ravel(), d[["y", "y2"][par]].to_numpy()[keep]), "filtered response")
        ctx.trans(4)
    ctx.state()
    ctx.trace()
    ctx.outcome(c["miss"])


def run(chk):
    th = chk.thorough
    n = 9 if th else 8
    firsts = list(itertools.product([0, 1], repeat=2))
    cases = [dict(n=n, col=col, fam=fam, left=5, first=list(f), id=i, off=o) for col in ("y", "x", "g") for fam in (("Gaussian", "Gamma", "Poisson", "Binomial") if th else ("Gaussian", "Gamma")) for f in firsts
             for i, o in (((False, False), (True, True)) if th or fam == "Gaussian" else ((False, True),))]
    chk.explore("patterns", cases, pattern_case, bounds=f"every missing pattern of {n} rows leaving at least 5, per column, family, series and offset", min_outcomes=50)
    uni = [s for s in G.UNI if s[0] != "i"]
    tc = [dict(specs=[T("i"), s], pat=p) for s in uni for p in (PATS if th else ["few", "ends"])]
    tc = [c for c in tc if G.legal(c["specs"])]
    tc += [dict(specs=[T("i")] + s, pat=p) for s in G.NEST[:6] for p in (PATS if th else ["few"])]
    chk.explore("terms", tc, term_case, bounds="every term type of the universe x missing patterns (single row, ends, scattered, start)", min_outcomes=5)
    opts = ["-", "y", "x", "z"] + (["x+z", "y+x"] if th else [])
    mc = [dict(fam="GAUMLSS", assign=list(a), sm=False) for a in itertools.product(opts, repeat=3) if set(a) != {"-"}]
    mc += [dict(fam=f, assign=list(a), sm=s) for f, s in (("GAMMALS", False), ("MULNOMLSS", False), ("GAUMLSS", True)) for a in (["x", "z", "-"], ["y", "x", "z"], ["z", "-", "y"])]
    mc += [dict(fam=f, assign=list(a), sm=False) for f in ("wrap:GAUMLSS",) for a in itertools.product(["-", "y"], repeat=3) if set(a) != {"-"}]
    chk.explore("formulas", mc, multi_case, bounds="every assignment of a missing variable to three rows of a two-parameter model", min_outcomes=20)
    gs = [dict(miss=list(ms), specs=s) for ms in ([], [0], [5, 6], [0, 35], [3, 11, 17, 20]) for s in ([T("i"), T("l", ["x"])], [T("i"), T("f", ["x"], nk=4)], [T("i"), T("irf", ["time"], nk=4, basis_kwargs=G.BK)])]
    chk.explore("getters", gs, getter_case, bounds="filtered and unfiltered getters", min_outcomes=3)
