"""C09: predictions on new rows reuse the training-time encoding (every formula of a bounded grammar x every row selection of a bounded set)."""
import itertools
import numpy as np
import pandas as pd
import scipy as scp
import vmc
import gam_ref as G
import c07

LEVEL = "model_checking"
ASSUMPTIONS = ["New rows hold factor levels seen in training and covariates inside the training range.",
               "Coefficients, covariance root and scale are assigned to the model object directly (any fit produces some such triple)."]


def model(specs_list, d, cb, sid, kind):
    """A model object with known coefficients / covariance root (no fitting involved)."""
    from mssm.models import GAMM, GAMMLSS, GSMM
    from mssm.src.python.exp_fam import Gaussian, GAUMLSS, Identity, LOG, LOGb
    Fs, mats = [], []
    for s in specs_list:
        F, P, X = G.build_formula(s, d, codebook=cb, series_id=sid, onsets=G.ONS)
        Fs.append(F)
        mats.append(X)
    if kind == "gamm":
        m = GAMM(Fs[0], Gaussian())
    else:
        m = GAMMLSS(Fs, GAUMLSS([Identity(), LOGb(-0.001)]))
        m.coef_split_idx = [F.n_coef for F in Fs[:-1]]
        m.coef_split_idx = list(np.cumsum(m.coef_split_idx))
    n = sum(F.n_coef for F in Fs)
    m.coef = vmc.gen(("coef", n, kind), n, lo=-1, hi=1).reshape(-1, 1)
    A = np.tril(vmc.gen(("lvi", n), n, n, lo=-0.5, hi=0.5)) + np.eye(n)
    m.lvi = scp.sparse.csc_array(A)
    m.scale = 1.7 if kind == "gamm" else 1
    return m, Fs, mats, A.T @ A * m.scale


def new_rows(d, ok, sel, ir):
    """(data frame, row source or None for rows that do not occur in training)."""
    idx = np.flatnonzero(ok)
    if sel == "all":
        return d.iloc[idx].reset_index(drop=True)
    if sel == "full":
        return d
    if sel == "rev":
        return d.iloc[idx[::-1]].reset_index(drop=True)
    if sel == "first":
        return d.iloc[idx[:1]].reset_index(drop=True)
    if sel == "dup":
        return d.iloc[np.concatenate([idx[-3:], idx[:5], idx[-3:]])]        # index labels not reset
    if sel.startswith("lvl:"):
        _, v, lv = sel.split(":")
        return d.iloc[[j for j in idx if d[v].iloc[j] == lv]].reset_index(drop=True)
    # rows that never occurred: covariates moved, factor levels rotated, columns in another order, extra column
    e = d.iloc[idx].reset_index(drop=True).copy()
    for v in ("x", "z", "w"):
        lo, hi = np.nanmin(d[v]), np.nanmax(d[v])
        e[v] = lo + (hi - lo) * np.array([((j * 0.61803398875 + 0.1) % 1.0) for j in range(len(e))])
    e["n"] = np.roll(e["n"].values, 3)
    for v in ("fac", "cond", "sub", "grp", "subcond"):
        e[v] = np.roll(e[v].values, 1)
    e = e[e.columns[::-1]].copy()
    e.insert(0, "unused", 1.0)
    return e.iloc[:17] if sel == "new17" else e


def case(ctx, c):
    specs = c["terms"]
    lists = [specs] if c["kind"] == "gamm" else [c["other"], specs]
    par = len(lists) - 1
    d, cb = c07.setup(c)
    ir = any(s[0] == "irf" for s in specs + c.get("other", []))
    sid = "series" if ir else None
    m, Fs, mats, V = model(lists, d, cb, sid, c["kind"])
    off = 0
    for par in range(len(lists)):
        specs = lists[par]
        F, X = Fs[par], mats[par]
        n = F.n_coef
        env = G.Env(d, G.variables_of(specs), codebook=cb, series_id=sid, onsets=G.ONS)
        r = G.check_matrix(ctx, specs, X, env, F, drop_ok=G.overlapping(specs))
        if r is None:
            return
        order, out, _ = r
        coef, Vp = m.coef[off:off + n, 0], V[off:off + n, off:off + n]
        off += n
        sels = ["all", "full"] if ir else ["all", "rev", "first", "dup", "new", "new17", "lvl:fac:hi", "lvl:cond:b", "lvl:sub:s3"] + (["lvl:fac:lo", "lvl:fac:mid", "lvl:cond:a", "lvl:sub:s4"] if c.get("deep") else [])
        kw = {} if c["kind"] == "gamm" else {"par": par}
        want_rows = {}
        for sel in sels:
            if sel == "full" and c["na"] != "none":
                continue
            if ir and c["na"] != "none":
                continue
            nd = new_rows(d, env.ok, sel, ir)
            nd = nd.drop(columns=["y"]) if sel in ("new", "rev") and "y" in nd else nd
            e2 = G.Env(nd.reset_index(drop=True), [], codebook=cb, series_id=sid, onsets=G.ONS, train=d)
            _, t2 = G.ref_terms(specs, e2)
            want = np.zeros((len(nd), n))
            for j in order:
                ci, width, Ms, t, dropped = out[j]
                tt = t2[j]
                k = ci
                for b, mk in enumerate(tt.masks):
                    w = Ms[b].shape[1]
                    want[:, k:k + w] = (tt.base @ Ms[b]) * mk[:, None]
                    k += w
            want_rows[sel] = want
            sc = max(1.0, np.abs(want).max())
            before = nd.copy()
            pred, pm, b = m.predict(None, nd, ci=True, **kw)
            ctx.expect(nd.equals(before), "predict changed the caller's data", sel)
            pm = G.dense(pm)
            ctx.close(pm, want, f"prediction matrix ({sel})", rtol=1e-6, atol=2e-7 * sc, detail=f"terms {specs}")
            ctx.close(np.ravel(pred), want @ coef, f"predicted values ({sel})", rtol=1e-6, atol=1e-6 * sc)
            se = np.sqrt(np.einsum("ij,jk,ik->i", want, Vp, want))
            ctx.close(np.ravel(b), 1.959963984540054 * se, f"interval half-widths ({sel})", rtol=1e-5, atol=1e-6 * sc)
            if sel == "all":
                ctx.close(pm, X, "training rows are not reproduced", rtol=1e-9, atol=1e-10 * sc)
            ctx.state(len(nd))
        # restriction to terms: every subset
        if "all" not in want_rows:
            continue
        sel = "rev" if "rev" in want_rows else "all"
        want = want_rows[sel]
        nd = new_rows(d, env.ok, sel, ir)
        sc = max(1.0, np.abs(want).max())
        for L in range(len(specs) + 1):
            for use in itertools.combinations(range(len(specs)), L):
                w2 = np.zeros_like(want)
                for j in use:
                    ci, width = out[j][:2]
                    w2[:, ci:ci + width] = want[:, ci:ci + width]
                p2, pm2, b2 = m.predict(list(use), nd, ci=True, alpha=0.2, **kw)
                ctx.close(G.dense(pm2), w2, "prediction restricted to terms", rtol=1e-6, atol=2e-7 * sc, detail=f"terms {specs} use {use}")
                ctx.close(np.ravel(p2), w2 @ coef, "restricted prediction", rtol=1e-6, atol=1e-6 * sc)
                ctx.close(np.ravel(b2), 1.2815515655446004 * np.sqrt(np.maximum(0, np.einsum("ij,jk,ik->i", w2, Vp, w2))), "restricted interval", rtol=1e-5, atol=1e-6 * sc)
                w3 = np.zeros_like(X)
                for j in use:
                    ci, width = out[j][:2]
                    w3[:, ci:ci + width] = X[:, ci:ci + width]
                mm = m.get_mmat(use_terms=list(use), **kw)
                if mm is not None:
                    ctx.close(G.dense(mm), w3, "model matrix restricted to terms", rtol=1e-9, atol=1e-9, detail=f"use {use}")
                ctx.trans()
        # difference of two prediction sets
        if not ir:
            a, b_ = new_rows(d, env.ok, "all", ir), new_rows(d, env.ok, "new", ir)
            for use in [None] + [[j] for j in range(len(specs))]:
                W = want_rows["all"] - want_rows["new"]
                if use is not None:
                    keep = np.zeros(n, bool)
                    for j in use:
                        keep[out[j][0]:out[j][0] + out[j][1]] = True
                    W = W * keep
                df, bb = m.predict_diff(a, b_, use, **kw)
                sc = max(1.0, np.abs(W).max())
                ctx.close(np.ravel(df), W @ coef, "predicted difference", rtol=1e-6, atol=1e-6 * sc)
                ctx.close(np.ravel(bb), 1.959963984540054 * np.sqrt(np.maximum(0, np.einsum("ij,jk,ik->i", W, Vp, W))), "interval of the difference", rtol=1e-5, atol=1e-6 * sc)
        ctx.outcome(np.round(want_rows["all"].sum(axis=0), 6))


def run(chk):
    sp = []
    for s in G.UNI:
        for na, cb in itertools.product(("none", "mix"), (None, "rev", "rot")):
            sp.append(dict(terms=[s], na=na, cb=cb, kind="gamm", deep=True))
            sp.append(dict(terms=[G.T("i"), s] if s[0] != "i" else [s], na=na, cb=cb, kind="gamm"))
    for a, b in itertools.combinations(G.UNI if chk.thorough else G.CORE + G.U_FS[3:], 2):
        if G.legal([a, b]):
            sp.append(dict(terms=[a, b], na="none", cb="rot", kind="gamm"))
            sp.append(dict(terms=[b, a], na="mix", cb=None, kind="gamm")) if G.legal([b, a]) else None
    for tr in itertools.combinations(G.CORE, 3):
        sp.append(dict(terms=list(tr), na="none", cb=None, kind="gamm"))
        if chk.thorough:
            sp.append(dict(terms=list(reversed(tr)), na="mix", cb="rot", kind="gamm"))
    for a, b in itertools.product(G.CORE, G.CORE):
        sp.append(dict(terms=[G.T("i"), a] if a[0] != "i" else [a], other=[b], na="none", cb=None, kind="lss"))
    for ns in G.NEST:
        sp.append(dict(terms=[G.T("i")] + ns, na="none", cb=None, kind="gamm"))
    chk.explore("predictions", sp, case, bounds=f"single terms and intercept pairs over {len(G.UNI)} forms, pairs/triples over {len(G.CORE)} core forms, two-formula models; 9-13 row selections, all term subsets", min_outcomes=200)
