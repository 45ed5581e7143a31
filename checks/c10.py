"""C10: reading data from files, chunking and worker processes do not change what is encoded, built or estimated.

The files, the worker pool and the cache directory are the environment: all cuts of bounded data into files, all worker counts and
(for bounded task counts) all orders in which a pool may execute its tasks are enumerated on the real code. The pool is replaced by a
controlled one that pickles every task and result as a process boundary would; a separate exploration uses real processes."""
import itertools
import multiprocessing
import os
import pickle
import shutil
import tempfile
import contextlib
import numpy as np
import pandas as pd
import vmc
import gam_ref as G
import fits as Q

LEVEL = "model_checking"
ASSUMPTIONS = ["Every file holds all columns with the types of the first file (documented requirement of reading types from one file).",
               "File-based fits support Gaussian/identity models without impulse response terms, re-parameterised or non-QR constrained smooths (they raise otherwise).",
               "A pool's tasks interact only through files: tasks are atomic in the controlled pool, executed in every order."]
T = G.T


# ------------------------------------------------------------------------------------------------------------ controlled pool
class Async:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True


class Pool:
    """Sequential stand-in for multiprocessing.Pool: tasks run in the scheduled order, arguments and results cross a pickle boundary."""
    order = "fwd"
    tasks = 0
    peak = 0

    def __init__(self, processes=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    terminate = join = close

    def _run(self, fn, argl):
        argl = list(argl)
        n = len(argl)
        Pool.tasks += n
        Pool.peak = max(Pool.peak, n)
        o = Pool.order
        if o == "fwd":
            order = list(range(n))
        elif o == "rev":
            order = list(range(n))[::-1]
        else:  # permutation number o of the tasks, extended cyclically to larger task counts
            perm = list(o)
            order = [j for j in perm if j < n] + [j for j in range(n) if j not in perm]
        out = [None] * n
        for j in order:
            f, args = pickle.loads(pickle.dumps((fn, tuple(argl[j]))))
            out[j] = pickle.loads(pickle.dumps(f(*args)))
        return out

    def starmap(self, fn, it, chunksize=None):
        return self._run(fn, it)

    def map(self, fn, it, chunksize=None):
        return self._run(fn, [(x,) for x in it])

    def imap(self, fn, it, chunksize=None):
        return iter(self.map(fn, it))

    imap_unordered = imap

    def apply(self, fn, args=(), kwds=None):
        return fn(*args, **(kwds or {}))

    def starmap_async(self, fn, it, *a, **k):
        return Async(self.starmap(fn, it))

    def map_async(self, fn, it, *a, **k):
        return Async(self.map(fn, it))

    def apply_async(self, fn, args=(), kwds=None, *a, **k):
        return Async(self.apply(fn, args, kwds))


@contextlib.contextmanager
def pool(order):
    """order None: real processes."""
    if order is None:
        yield
        return
    old = multiprocessing.Pool
    Pool.order, Pool.tasks, Pool.peak = order, 0, 0
    multiprocessing.Pool = Pool
    try:
        yield
    finally:
        multiprocessing.Pool = old


# --------------------------------------------------------------------------------------------------------------- environment
@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="c10_")
    os.chdir(tmp)
    try:
        yield tmp
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def write(d, cuts, tmp, naming="distinct", sep=","):
    paths = []
    edges = [0, *cuts, len(d)]
    for j, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
        if naming == "distinct":
            p = os.path.join(tmp, f"part_{j}.csv")
        elif naming == "dirs":
            os.makedirs(os.path.join(tmp, f"run{j}"), exist_ok=True)
            p = os.path.join(tmp, f"run{j}", "data.csv")
        else:  # one name is a prefix of another one, several dots
            p = os.path.join(tmp, "p" + ".csv" * j + ".csv")
        d.iloc[a:b].to_csv(p, index=False, sep=sep)
        paths.append(p)
    return paths


def frame(n=36, na="none", order="mixed", digits=False):
    x = np.round(vmc.gen(("fx", n), n, lo=0, hi=1), 4)
    z = np.round(vmc.gen(("fz", n), n, lo=-4, hi=9), 4)
    w = np.round(vmc.gen(("fw", n), n, lo=0.2, hi=2), 4)
    fac = np.array([["mid", "hi", "lo"][(j * 5 + j // 3) % 3] for j in range(n)], dtype=object)
    sub = np.array([["s4", "s1", "s3", "s2"][(j * 3 + j // 7) % 4] for j in range(n)], dtype=object)
    cond = np.array([["b", "a"][(j // 6) % 2] for j in range(n)], dtype=object)
    if digits:
        sub = np.array([{"s1": "1", "s2": "2", "s3": "10", "s4": "4"}[v] for v in sub], dtype=object)
    e = np.round(vmc.gen(("fe", n), n, lo=-1, hi=1), 4)
    y = np.round(0.5 + np.sin(4 * x) + 0.1 * z + 0.4 * (fac == "hi") - 0.3 * (sub == sub[0]) + 0.6 * e, 4)
    d = pd.DataFrame(dict(y=y, x=x, z=z, w=w, n=np.array([(7 * j) % 5 - 1 for j in range(n)], dtype="int64"), fac=fac, sub=sub, cond=cond))
    d["subcond"] = np.array([f"{a}.{b}" for a, b in zip(sub, cond)], dtype=object)
    if order == "facdesc":  # the first file holds the last levels only
        d = d.sort_values("fac", ascending=False, kind="stable").reset_index(drop=True)
    elif order == "x":
        d = d.sort_values("x", kind="stable").reset_index(drop=True)
    d["series"] = np.array([f"r{j // 6}" for j in range(n)], dtype=object)
    if na in ("y", "mix"):
        d.loc[[0, 3, n // 2, n - 1], "y"] = np.nan
    if na in ("x", "mix"):
        d.loc[[1, n // 3], "x"] = np.nan
    if na in ("fac", "mix"):
        d.loc[[2, n // 4], "fac"] = np.nan
    if na == "file":
        d.loc[:8, "y"] = np.nan
    return d


MODELS = {
    "lin": [T("i"), T("l", ["fac"]), T("l", ["x"])],
    "facx": [T("i"), T("l", ["fac", "x"]), T("l", ["n"])],
    "sm": [T("i"), T("f", ["x"], nk=5)],
    "by": [T("i"), T("l", ["fac"]), T("f", ["x"], nk=4, by="fac")],
    "byid": [T("i"), T("f", ["z"], nk=4, by="cond", id=1), T("f", ["x"], nk=5, penalize_null=True)],
    "cont": [T("i"), T("f", ["x"], nk=5, by_cont="w"), T("ri", "sub")],
    "bin": [T("i"), T("f", ["x"], nk=5), T("f", ["x"], nk=4, binary=["fac", "mid"])],
    "tp": [T("i"), T("f", ["x"], nk=4), T("f", ["z"], nk=4), T("f", ["x", "z"], nk=3, rp=0, basis_kwargs={"deg": 2})],
    "te": [T("i"), T("f", ["x", "z"], nk=3, te=True, rp=0, basis_kwargs={"deg": 2})],
    "fs": [T("i"), T("l", ["fac"]), T("fs", ["x"], rf="sub", nk=4)],
    "fssub": [T("i"), T("l", ["cond"]), T("fs", ["x"], rf="subcond", nk=4, by_subgroup=["cond", "a"])],
    "ri": [T("i"), T("f", ["z"], nk=4), T("ri", "sub"), T("rs", ["x"], by="fac") if False else T("rs", ["fac", "x"])],
    "rs": [T("i"), T("rs", ["sub", "x"], by="cond"), T("ri", "sub")],
}
KEYS = ("factor_codings", "coding_factors", "var_to_cov", "var_types", "var_mins", "var_maxs", "coef_names", "n_coef", "unpenalized_coef")


def plain(v):
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items()}
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    return v


def specs_of(name):
    return MODELS[name] if isinstance(name, str) else name


def memory(name, d, nested=False, **kw):
    return Q.formula("y", specs_of(name), d, find_nested=nested, **kw)


def filed(name, paths, nc, keep, sep, digits, nested=False, **kw):
    from mssm.src.python.formula import Formula, lhs as LHS
    fk = {"header": 0, "index_col": False}
    if sep != ",":
        fk["sep"] = sep
    if digits:
        fk["dtype"] = {"sub": object}
    with Q.quiet():
        return Formula(LHS("y"), [G.make_term(s) for s in specs_of(name)], None, print_warn=False, keep_cov=keep, find_nested=nested, file_paths=paths, file_loading_nc=nc, file_loading_kwargs=fk, **kw)


def same_formula(ctx, F, M, keep):
    for k in KEYS:
        if hasattr(M, k):
            a, b = plain(getattr(F, k)), plain(getattr(M, k))
            if k in ("var_mins", "var_maxs"):
                ctx.expect(a.keys() == b.keys() and all((a[v] is None) == (b[v] is None) and (a[v] is None or abs(a[v] - b[v]) < 1e-12) for v in a), "files: " + k, f"{a} {b}")
            else:
                ctx.expect(a == b, "files: " + k, f"{a} {b}"[:400])
    fl, ml = F.get_factor_levels(), M.get_factor_levels()
    ctx.expect(fl.keys() == ml.keys() and all(list(fl[k]) == list(ml[k]) for k in fl), "files: factor levels", f"{fl} {ml}")
    for a, b in zip(F.terms, M.terms):
        Za, Zb = getattr(a, "Z", None), getattr(b, "Z", None)
        if Zb is None:
            continue
        ctx.expect(Za is not None and len(Za) == len(Zb), "files: number of constraints")
        for p, q in zip(Za or [], Zb):
            if isinstance(q.Z, np.ndarray):
                ctx.close(p.Z, q.Z, "files: constraint of a smooth", rtol=1e-8, atol=1e-8)
    if keep:
        ctx.expect(np.array_equal(np.ravel(F.NOT_NA_flat), np.ravel(M.NOT_NA_flat)), "files: observations used", f"{np.where(~np.ravel(F.NOT_NA_flat))[0]} {np.where(~np.ravel(M.NOT_NA_flat))[0]}")
        ctx.expect(F.cov_flat.shape == M.cov_flat.shape, "files: shape of the encoded covariates")
        ok = np.ravel(M.NOT_NA_flat)
        if F.cov_flat.shape == M.cov_flat.shape:
            ctx.close(F.cov_flat[ok], M.cov_flat[ok], "files: encoded covariates", rtol=0, atol=1e-12)
        for q in ("sid", "y", "cov", "NOT_NA"):
            u, v = getattr(F, q), getattr(M, q)
            ctx.expect((u is None) == (v is None) and (v is None or len(u) == len(v)), "files: split by series: " + q)
            if v is not None and u is not None and len(u) == len(v) and q in ("sid", "NOT_NA"):
                ctx.expect(all(np.array_equal(i, j) for i, j in zip(u, v)), "files: split by series: " + q)
        ctx.close(np.ravel(F.y_flat)[ok], np.ravel(M.y_flat)[ok], "files: encoded responses", rtol=0, atol=1e-12)


def same_fit(ctx, m, r, what, newdat=None, tol=1e-6):
    ctx.expect(len(m.coef) == len(r.coef), what + ": number of coefficients")
    if len(m.coef) != len(r.coef):
        return
    sc = 1 + np.max(np.abs(r.coef))
    ctx.close(np.ravel(m.coef), np.ravel(r.coef), what + ": coefficients", rtol=tol, atol=tol * sc)
    ctx.close(m.scale, r.scale, what + ": scale", rtol=tol, atol=tol)
    ctx.close(m.edf, r.edf, what + ": edf", rtol=tol, atol=tol)
    if r.term_edf is not None:
        ctx.close(np.ravel(m.term_edf), np.ravel(r.term_edf), what + ": term-wise edf", rtol=tol, atol=tol)
    ctx.close(m.penalty, r.penalty, what + ": penalty", rtol=1e-4, atol=tol * 10)
    pa, pb = [p.lam for p in m.overall_penalties], [p.lam for p in r.overall_penalties]
    ctx.expect(len(pa) == len(pb), what + ": number of penalties")
    if len(pa) == len(pb):
        # beyond 1e5 the criterion is flat in the smoothing parameter
        ctx.close([min(v, 1e5) for v in pa], [min(v, 1e5) for v in pb], what + ": smoothing parameters", rtol=1e-3)
    for a, b in zip(m.preds, r.preds):
        ctx.expect(np.size(a) == np.size(b), what + ": number of fitted values", f"{np.shape(a)} {np.shape(b)}")
        if np.size(a) == np.size(b):
            ctx.close(np.ravel(a), np.ravel(b), what + ": fitted values", rtol=tol, atol=tol * 10)
    if getattr(m, "res", None) is not None and getattr(r, "res", None) is not None:
        ctx.expect(np.size(m.res) == np.size(r.res), what + ": number of residuals")
        if np.size(m.res) == np.size(r.res):
            ctx.close(np.ravel(m.res), np.ravel(r.res), what + ": residuals", rtol=tol, atol=tol * 10)
    V, W = G.dense(m.lvi), G.dense(r.lvi)
    ctx.close(V.T @ V, W.T @ W, what + ": covariance", rtol=1e-3, atol=tol * (1 + np.abs(W.T @ W).max()))
    ctx.close(G.dense(m.hessian), G.dense(r.hessian), what + ": Hessian", rtol=1e-4, atol=tol * (1 + np.abs(G.dense(r.hessian)).max()))
    if newdat is not None:
        with Q.quiet():
            a, b = m.predict(None, newdat, ci=True), r.predict(None, newdat, ci=True)
        ctx.close(np.ravel(a[0]), np.ravel(b[0]), what + ": predictions", rtol=tol, atol=tol * 10)
        ctx.close(np.ravel(a[2]), np.ravel(b[2]), what + ": intervals", rtol=1e-3, atol=tol * 10)


def fit(F, cores, **kw):
    from mssm.models import GAMM
    from mssm.src.python.exp_fam import Gaussian
    m = GAMM(F, Gaussian())
    with Q.quiet():
        m.fit(progress_bar=False, n_cores=cores, method="Chol", **kw)
    return m


_ref = {}


def reference(name, n, na, order, digits, d, nested=False, series=None):
    key = (str(name), n, na, order, digits, nested, series)
    if key not in _ref:
        M = memory(name, d, nested, series_id=series)
        P = memory(name, d, nested, series_id=series)
        _ref[key] = (P, fit(M, 1))
    return _ref[key]


def one(ctx, c):
    """One configuration: encode and (optionally) fit."""
    from mssm.src.python import gamm_solvers as S
    n = c.get("n", 36)
    d = frame(n, c["na"], c["order"], c.get("digits", False))
    with pool(c.get("sched", "fwd")), scratch() as tmp:
        M, r = reference(c["model"], n, c["na"], c["order"], c.get("digits", False), d, c.get("nested", False), c.get("series"))
        paths = write(d, c["cuts"], tmp, c.get("naming", "distinct"), c.get("sep", ","))
        F = filed(c["model"], paths, c["nc"], c["keep"], c.get("sep", ","), c.get("digits", False), c.get("nested", False), series_id=c.get("series"))
        same_formula(ctx, F, M, c["keep"])
        ctx.outcome((c["keep"], F.n_coef))
        ctx.state(1)
        if c.get("fit", True):
            old = S.SHOULD_CACHE
            S.SHOULD_CACHE = c.get("cache", False)
            try:
                m = fit(F, c["cores"])
            finally:
                S.SHOULD_CACHE = old
            nd = frame(12, "none", "mixed", c.get("digits", False))
            for v in ("x", "z", "w"):
                nd[v] = nd[v].clip(d[v].min(), d[v].max())
            lv = set(d["sub"])
            same_fit(ctx, m, r, "files", nd)
            ctx.expect(not os.path.exists(".db"), "the cache directory was left behind")
            ctx.trans(len(c["cuts"]) + 1)
        ctx.trace(Pool.tasks)


def chunked(ctx, c):
    """In memory, but the model matrix is built in row sets by file_loading_nc workers."""
    d = Q.data(salt=1, n_per=6)
    if c["na"]:
        d.loc[[0, 4, 7, len(d) - 1], "y"] = np.nan
        d.loc[[5, 11], "x"] = np.nan
    specs = [T("i")] + [s for s in ([c["term"]] if isinstance(c["term"][0], str) else c["term"]) if s != T("i")]
    with pool(c["sched"]):
        r = Q.gamm("Gaussian", specs, d, fkw=dict(find_nested=False), method="Chol", max_outer=4)
        m = Q.gamm("Gaussian", specs, d, fkw=dict(find_nested=False, file_loading_nc=c["nc"]), method="Chol", max_outer=4)
    same_fit(ctx, m, r, "row sets", tol=1e-6)
    ctx.outcome(len(m.coef))
    ctx.state(1)
    ctx.trans(c["nc"])


def cores(ctx, c):
    """The number of worker processes of a fit."""
    d = Q.data(salt=2, n_per=16)
    sm = [T("i"), T("f", ["x"], nk=5), T("f", ["z"], nk=4, by="fac"), T("ri", "sub")]
    kind, fam, kw = c["fit"]
    with pool(c["sched"]):
        def go(nc):
            from unittest import mock
            fkw = {}
            if kind == "gamm":
                from mssm.models import GAMM
                m = GAMM(Q.formula(Q.LHS[fam], sm, d, **fkw), Q.gamm_family(fam))
            elif kind == "gammlss":
                from mssm.models import GAMMLSS
                m = GAMMLSS([Q.formula(Q.LHS[fam], s, d) for s in [sm, [T("i"), T("l", ["x"])]]], Q.lss_family(fam))
            else:
                from mssm.models import GSMM
                from mssm.src.python.utils import GAMLSSGSMMFamily
                m = GSMM([Q.formula(Q.LHS[fam], s, d) for s in [sm, [T("i"), T("l", ["x"])]]], GAMLSSGSMMFamily(2, Q.lss_family(fam)))
            with Q.quiet():
                m.fit(progress_bar=False, n_cores=nc, **kw)
            return m
        m, r = go(c["nc"]), go(1)
    same_fit(ctx, m, r, "worker count", tol=1e-7)
    ctx.outcome((kind, fam))
    ctx.state(1)
    ctx.trans(c["nc"])


def run(chk):
    th = chk.thorough
    n = 36
    base = dict(na="none", order="mixed", nc=1, cores=2, sched="fwd", keep=False)
    # every model x storage x missing pattern x level order
    cases = []
    for model, keep, na, order in itertools.product(MODELS, (False, True), ("none", "y", "x", "fac", "mix"), ("mixed", "facdesc") if th else ("facdesc",)):
        if na != "none" and model in ("lin", "facx", "byid", "te") and not th:
            continue
        cases.append(dict(base, model=model, keep=keep, na=na, order=order, cuts=[11, 25], cores=2 + (len(cases) % 2), nc=1 + len(cases) % 2))
    chk.explore("models", cases, one, bounds="13 term structures x keep/stream x 5 missing patterns x level order, 36 rows in 3 files", min_outcomes=10)
    # all cuts into two files, and a grid of cuts into three / four files
    cuts = [[a] for a in range(1, n)]
    cuts += [[a, b] for a in range(1, n, 1 if th else 7) for b in range(a + 1, n, 1 if th else 6)]
    cuts += [[], [1, 2, 3], [33, 34, 35], [9, 18, 27], list(range(4, 36, 4)), [1, 35]]
    cases = [dict(base, model=m, cuts=c, keep=k, order=o, fit=(len(c) != 1 or c[0] % 4 == 1 or th)) for m in ("by", "fs") for c in cuts for k, o in (((False, "facdesc"), (True, "x")) if not th else itertools.product((False, True), ("facdesc", "x", "mixed")))]
    chk.explore("cuts", cases, one, bounds="every cut of 36 rows into 2 files, grid of cuts into 1/3/4/9 files", min_outcomes=2)
    # environment of the files
    cases = []
    for naming, sep, dig, cache, keep, cr in itertools.product(("distinct", "dirs", "prefix"), (",", ";"), (False, True), (False, True), (False, True), (1, 2, 3)):
        cases.append(dict(base, model="cont" if dig else "by", naming=naming, sep=sep, digits=dig, cache=cache, keep=keep, cores=cr, nc=cr, cuts=[12, 24], order="facdesc"))
    chk.explore("environment", cases, one, bounds="file naming x separator/dtype options x caching x storage x 1-3 workers", min_outcomes=2)
    cases = [dict(base, model=m, keep=True, na=na, nested=ne, series=s, cuts=cu, nc=2) for m in ("tp", "by", "fs") for na in ("none", "mix") for ne in (False, True) for s in (None, "series") for cu in ([8, 20], [6, 12, 30])]
    chk.explore("nested and series", cases, one, bounds="kept covariates with nesting checks and series splits", min_outcomes=2)
    # every order in which the pool may run its tasks (they share the cache directory)
    cases = []
    for perm in itertools.permutations(range(4 if th else 3)):
        for cache, keep in itertools.product((False, True), (False, True)):
            cases.append(dict(base, model="by", sched=list(perm), cache=cache, keep=keep, cores=len(perm), nc=len(perm), cuts=[9, 20], order="facdesc", na="mix"))
    cases += [dict(base, model="sm", sched="fwd", keep=k, cuts=c, cores=cr, na=na, n=nn) for k in (False, True) for nn, c in ((14, [1]), (14, [13]), (14, [1, 2]), (20, [9]), (20, [5, 9])) for cr in (1, 2, 3, 9) for na in ("none", "file") if not (na == "file" and nn == 14)]
    chk.explore("schedules", cases, one, bounds="all task orders for 3 (4) tasks; 1-row files; files without usable rows; more workers than rows", min_outcomes=2)
    # in-memory row sets
    terms = [t for t in G.UNI if t != T("i")] + [G.CORE[:8], G.CORE[8:]]
    cases = [dict(term=t, nc=k, na=na, sched="fwd") for t in terms for k in ((2, 3, 5) if th else (3,)) for na in ((False, True) if th else (True,))]
    chk.explore("row-sets", cases, chunked, bounds="every term type x missing rows x number of row sets", min_outcomes=10)
    kinds = [("gamm", "Gaussian", {}), ("gamm", "Gaussian", {"method": "Chol"}), ("gamm", "Gaussian", {"method": "LU/Chol"}), ("gamm", "Gamma", {}), ("gamm", "Binomial", {"method": "Chol", "max_inner": 1}),
             ("gammlss", "GAUMLSS", {"method": "Chol"}), ("gammlss", "GAUMLSS", {"method": "QR/Chol"}), ("gsmm", "GAUMLSS", {"method": "QR/Chol"})]
    cases = [dict(fit=k, nc=c, sched="fwd") for k in kinds for c in ((2, 3, 4) if th else (2, 4))]
    chk.explore("workers", cases, cores, bounds="8 solver configurations x 2-4 workers", min_outcomes=4)
    # conformance of the controlled pool: real processes
    cases = [dict(base, model="by", sched=None, keep=k, cuts=[12, 24], cores=cr, nc=2, cache=ca, order="facdesc", na="y") for k in (False, True) for cr in (1, 3) for ca in (False, True)]
    chk.explore("real processes", cases, one, bounds="real multiprocessing pools", min_outcomes=1)
    cases = [dict(term=t, nc=3, na=True, sched=None) for t in (G.CORE[:8], T("f", ["x"], nk=5, by="fac"))]
    chk.explore("real row sets", cases, chunked, bounds="real multiprocessing pools", min_outcomes=1)
    cases = [dict(fit=kinds[0], nc=2, sched=None), dict(fit=kinds[5], nc=2, sched=None)]
    chk.explore("real workers", cases, cores, bounds="real multiprocessing pools", min_outcomes=1)
