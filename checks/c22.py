"""C22: the No-U-Turn sampler.

transitions -- mcmc.cpp is compiled with scripted uniform/exponential draws; *every* outcome of the draws (directions, replacements inside and
               between sub-trees) up to the tree depth is run through the real code and through the sampler written down on explicit trajectories
chains      -- the unmodified extension over several transitions with the Mersenne twister reproduced: adaptation, splitting into calls
step size   -- the initial step-size search
target      -- the density, gradient, metric and momentum sampler which sample_mssm hands to the sampler against the posterior written down from the
               densities and the model's penalties
driver      -- sample_mssm around a recording stand-in for the extension: every schedule of calls, what is passed on and where samples are stored
"""
import copy
import ctypes
import glob
import importlib.machinery
import importlib.util
import itertools
import os

import numpy as np
import scipy as scp

import build
import c23
import c24
import c26
import dist_ref as R
import fits as Q
import gam_ref as G
import nuts_ref as N
import reml_ref as RR
import vmc

LEVEL = "model_checking"
ASSUMPTIONS = ["models whose fit does not report convergence or drops coefficients are not judged"]
EXT = {}


def stubbed():
    if "stub" not in EXT:
        d = build.ensure_stubbed("mcmc", ["src/mssm/src/cpp/mcmc.cpp"], os.path.join(build.VERIF, "lib", "stub_nuts.h"), "stub-mcmc")
        path = glob.glob(os.path.join(d, "mcmc*.so"))[0]
        spec = importlib.util.spec_from_file_location("vstub.mcmc", path, loader=importlib.machinery.ExtensionFileLoader("vstub.mcmc", path))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        EXT["stub"] = (mod, ctypes.CDLL(path))
    return EXT["stub"]


# ---------------------------------------------------------------------------------------------------------------------------- targets
def target(name, dim):
    s = np.array([1.0, 0.6, 2.5])[:dim]
    A = np.eye(dim)
    if dim > 1:
        A[0, 1] = A[1, 0] = 0.55
    Pm = np.linalg.inv(A * np.outer(s, s))
    gauss = (lambda q: -0.5 * float(q @ Pm @ q)), (lambda q: -(Pm @ q))
    if name == "gauss":
        return gauss
    if name == "quartic":
        return (lambda q: float(-np.sum(q ** 4) / 4 - 0.3 * np.sum(q[:-1] * q[1:])),
                lambda q: -q ** 3 - 0.3 * (np.r_[q[1:], 0.0] + np.r_[0.0, q[:-1]]) * (1 if dim > 1 else 0))
    if name in ("wall", "nan", "nangrad"):  # beyond a plane the density is zero / not a number
        bad = -np.inf if name == "wall" else np.nan
        lim = 1.1
        return (lambda q: bad if q[0] > lim else gauss[0](q)), (lambda q: np.full(dim, np.nan) if name == "nangrad" and q[0] > lim else gauss[1](q))
    if name == "cliff":  # drops by far more than the divergence threshold
        return (lambda q: gauss[0](q) - 5e4 * max(0.0, float(q[0]) - 0.8) ** 2), (lambda q: gauss[1](q) - np.r_[1e5 * max(0.0, float(q[0]) - 0.8), np.zeros(dim - 1)])
    if name == "flat":
        return (lambda q: -0.01 * float(q @ q)), (lambda q: -0.02 * q)
    raise KeyError(name)


def metric(name, dim):
    if name == "unit":
        return np.eye(dim)
    D = np.diag(np.array([1.3, 0.4, 4.0])[:dim])
    if name == "diag" or dim == 1:
        return D
    C = np.eye(dim)
    C[0, 1] = C[1, 0] = 0.45
    return np.sqrt(D) @ C @ np.sqrt(D)


def csc(Minv):
    M = scp.sparse.csc_array(Minv)
    return M.shape[0], M.shape[1], M.nnz, M.data, M.indptr.astype(np.int64), M.indices.astype(np.int64)


def start(c):
    dim = c["dim"]
    q = vmc.gen(["q", c["start"], dim], dim, lo=-0.8, hi=0.8)
    return np.asarray(q, dtype=float)


def momenta(c, n, Minv):
    L = np.linalg.cholesky(np.linalg.inv(Minv))
    return [L @ np.asarray(vmc.gen(["r", c["mom"], k, c["dim"]], c["dim"], lo=-1.6, hi=1.6), dtype=float) for k in range(n)]


PAR = dict(mu=np.log(10 * 0.3), delta=0.6, kappa=0.75, gamma=0.05, t0=10)


def advance(mod, seed, m, Madapt, steps, L, q, Minv, eps, epsbar, Hbar, par, max_j, llk, grad, rs):
    it = iter(rs)
    col = lambda v: np.asarray(v, dtype=float).reshape(-1, 1)
    return mod.advance_chain(seed, m, Madapt, steps, L, col(q), *csc(Minv), eps, epsbar, Hbar, par["mu"], par["delta"], par["kappa"], par["gamma"], par["t0"], max_j,
                             lambda s: float(llk(np.ravel(s))), lambda s: col(grad(np.ravel(s))), lambda sd: col(next(it)))


def ref_chain(c, q, L, rs, es, Minv, llk, grad, src, eager, m, Madapt, eps, epsbar, Hbar, max_j, par):
    out, info = [], []
    for r, e in zip(rs, es):
        e = e() if callable(e) else e
        q, L, stat, inf = N.transition(q, L, r, e, Minv, eps, max_j, llk, grad, src, eager)
        m += 1
        eps, epsbar, Hbar = N.adapt(m, Madapt, stat, eps, epsbar, Hbar, **par)
        out.append((q, L))
        info.append(inf)
    return out, (eps, epsbar, Hbar), info


def agree(got, want):
    llks, states, eps, epsbar, Hbar = got
    out, ada, _ = want
    a = np.r_[np.ravel(llks), np.ravel(np.asarray(states).T), eps, epsbar, Hbar]
    b = np.r_[[L for _, L in out], np.concatenate([q for q, _ in out]), list(ada)]
    return np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=False)


def show(got, want):
    return f"got {[np.round(np.ravel(x), 6).tolist() for x in got]}, reference {[(np.round(q, 6).tolist(), round(float(L), 6)) for q, L in want[0]]} {np.round(want[1], 6).tolist()}"


def transitions(ctx, c):
    mod, lib = stubbed()
    Minv = metric(c["metric"], c["dim"])
    llk, grad = target(c["target"], c["dim"])
    q = start(c)
    L = llk(q)
    rs = momenta(c, len(c["e"]), Minv)
    ad = c.get("adapt", [0, 50])
    run = lambda t, eager: ref_chain(c, q, L, rs, c["e"], Minv, llk, grad, t, eager, ad[0], ad[1], c["eps"], 0.7, 0.1, c["max_j"], PAR)
    n = 0
    seen = set()
    for t, want in N.outcomes(lambda t: run(t, True)):
        n += 1
        if n > 60000:
            raise RuntimeError("more outcomes than the bound")
        ctx.trans(1)

        def code(values):
            u, e = (ctypes.c_double * max(len(values), 1))(*values), (ctypes.c_double * len(c["e"]))(*c["e"])
            lib.nuts_set(u, len(values), e, len(c["e"]))
            return advance(mod, 1, ad[0], ad[1], len(c["e"]), L, q, Minv, c["eps"], 0.7, 0.1, PAR, c["max_j"], llk, grad, rs)
        got = code(t.values)
        ok = agree(got, want)
        if not ok:
            try:  # an implementation that does not draw where nothing is decided
                w2 = run(N.Source(t.values), False)
                ok = agree(got, w2)
            except IndexError:
                pass
        if not ctx.expect(ok, "a transition selects another state than the No-U-Turn sampler", f"draws {np.round(t.values, 4).tolist()}: {show(got, want) if not ok else ''} {want[2]}"):
            break
        for inf in want[2]:
            seen.add((inf["j"], inf["cur"], inf["turned"]))
    ctx.state(n)
    ctx.trace(n)
    for s in seen:
        ctx.outcome(s)


def chains(ctx, c):
    import mcmc
    Minv = metric(c["metric"], c["dim"])
    llk, grad = target(c["target"], c["dim"])
    q = start(c)
    L = llk(q)
    S = sum(c["split"])
    rs = momenta(c, S, Minv)
    eps, epsbar, Hbar, m = c["eps"], 1.0, 0.0, c["m0"]
    w = dict(eps=eps, epsbar=epsbar, Hbar=Hbar, q=q, L=L)
    at = 0
    for b, steps in enumerate(c["split"]):
        seed = c["seed"] + b
        got = advance(mcmc, seed, m, c["Madapt"], steps, w["L"], w["q"], Minv, w["eps"], w["epsbar"], w["Hbar"], PAR, c["max_j"], llk, grad, rs[at:at + steps])
        src = N.Mersenne(seed)
        # the seed of each momentum is a word of the same generator, then the slice, then the tree
        es = [lambda: (src.word(), src.expo())[1]] * steps
        for eager in (True, False):
            src.__init__(seed)
            want = ref_chain(c, w["q"], w["L"], rs[at:at + steps], es, Minv, llk, grad, src, eager, m, c["Madapt"], w["eps"], w["epsbar"], w["Hbar"], c["max_j"], PAR)
            if agree(got, want):
                ctx.expect(True, "several transitions")
                break
        else:
            ctx.fail("several transitions differ from the No-U-Turn sampler", f"call {b}: {show(got, want)}")
            return
        ctx.trans(steps)
        ctx.outcome((want[2][-1]["j"], m < c["Madapt"]))
        m += steps
        at += steps
        w = dict(eps=got[2], epsbar=got[3], Hbar=got[4], q=np.asarray(got[1])[:, -1], L=float(np.ravel(got[0])[-1]))
    ctx.state(1)
    ctx.trace(S)


def step_size(ctx, c):
    import mcmc
    Minv = metric(c["metric"], c["dim"]) * c["scale"]
    llk, grad = target(c["target"], c["dim"])
    q = start(c)
    r = momenta(c, 1, Minv)[0]
    col = lambda v: np.asarray(v, dtype=float).reshape(-1, 1)
    calls = []
    got = mcmc.find_reasonable_epsilon(col(q), col(grad(q)), *csc(Minv), llk(q), lambda s: float(llk(np.ravel(s))), lambda s: col(grad(np.ravel(s))),
                                       lambda sd: (calls.append(sd), col(r))[1], c["seed"])
    want, n = N.reasonable(q, llk(q), r, Minv, llk, grad)
    ctx.close(got, want, "initial step size", rtol=1e-12)
    ctx.expect(len(calls) == 1, "momentum drawn more than once", str(len(calls)))
    ctx.trans(n + 1)
    ctx.state(1)
    ctx.outcome((want > 0.1) - (want < 0.1))


# ------------------------------------------------------------------------------------------------------------------ the sampled density
c23.GEN.setdefault("mixnull", [[G.T("i"), G.T("f", ["z"], nk=5)], [G.T("i"), G.T("f", ["x"], nk=5, penalize_null=True), G.T("f", ["z"], nk=5)]])


class Got(Exception):
    pass


class Stand:
    """Replaces the extension's functions while sample_mssm runs."""

    def __init__(self, eps, adv=None):
        self.fns = dict(find_reasonable_epsilon=eps, advance_chain=adv)

    def __enter__(self):
        import mcmc
        import mssm.src.python.mcmc as M
        self.old = []
        for k, f in self.fns.items():
            for o in (mcmc, M):
                if f is not None and hasattr(o, k):
                    self.old.append((o, k, getattr(o, k)))
                    setattr(o, k, f)
        return M

    def __exit__(self, *a):
        for o, k, f in self.old:
            setattr(o, k, f)


def capture(m, **kw):
    """What sample_mssm hands to the step-size search for the first chain."""
    box = {}

    def eps(omega, g, rows, cols, nnz, data, indptr, indices, cL, llk, grad, rs, seed):
        box.update(omega=np.array(omega, dtype=float), g=np.array(g, dtype=float), cL=cL, llk=llk, grad=grad, rs=rs,
                   Minv=G.dense(scp.sparse.csc_array((np.array(data), np.array(indices), np.array(indptr)), shape=(rows, cols))))
        raise Got
    with Stand(eps) as M, Q.quiet():
        try:
            M.sample_mssm(m, n_iter=4, M_adapt=4, parallelize_chains=False, progress_bar=False, auto_converge=False, **kw)
        except Got:
            pass
    return box


def gam_loglik(kind, m, off):
    """coefficients (+ log scale or theta) -> log-likelihood of a GAMM."""
    with Q.quiet():
        X, y = G.dense(m.get_mmat()), np.ravel(m.get_ys())
    p = X.shape[1]
    o = 0.0 if off is None else (off if np.isscalar(off) else np.ravel(off)[np.ravel(m.formulas[0].NOT_NA_flat)])
    fi = R.link_fns(type(m.family.link).__name__)[1]
    form = m.formulas[0]

    def white(r):
        """The AR(1) errors' innovations, series by series."""
        if m.rho is None:
            return r
        st = np.zeros(len(form.y_flat), dtype=bool)
        st[0 if form.series_id is None else form.sid] = True
        st = np.cumsum(st)[form.NOT_NA_flat]
        first = np.r_[True, st[1:] != st[:-1]]
        return np.where(first, r, (r - m.rho * np.r_[0, r[:-1]]) / np.sqrt(1 - m.rho ** 2))

    def ll(b):
        mu = fi(X @ b[:p] + o)
        e = b[p:] if kind != "ScaledT" or m.family.est_theta else np.ravel(m.family.theta)
        if kind == "Gaussian":
            return np.sum(R.l_norm(white(y - mu), 0.0, np.exp(e[0])))
        if kind == "Gamma":
            return np.sum(R.l_gamma(y, mu, np.exp(e[0])))
        if kind == "InvGauss":
            return np.sum(R.l_invgauss(y, mu, np.exp(e[0])))
        if kind == "Poisson":
            return np.sum(y * np.log(mu) - mu)
        if kind == "Binomial":
            return np.sum(np.log(np.where(y > 0, mu, 1 - mu)))
        return np.sum(R.l_t(y, mu, np.exp(e[0]), np.exp(e[1]) + m.family.min_df))
    return ll


def proper(m, c, specs, d, lam0, phi, n):
    """Precision of the vague priors: linear terms, unpenalised smooths, extra parameters, null spaces of penalised smooths."""
    from mssm.models import build_penalties
    S = np.zeros((n, n))
    at = 0
    for spec, form in zip(specs, m.formulas):
        sp2 = []
        add = []
        for t, s in enumerate(spec):
            idx = np.asarray(form.coef_idx_per_term[t]) + at
            s2 = s
            if s[0] in ("i", "l") or (s[0] == "f" and not s[2].get("is_penalized", True)):
                S[idx, idx] += lam0
            elif s[0] == "f" and not s[2].get("penalize_null", False):
                s2 = [s[0], s[1], dict(s[2], penalize_null=True)]
                add.append(t)
            sp2.append(s2)
        if add:
            f2 = Q.formula(form.get_lhs().variable, sp2, d)
            with Q.quiet():
                for p in build_penalties(f2):
                    if "NULL" in str(p.type).upper() and p.term in add:
                        S[at:at + form.n_coef, at:at + form.n_coef] += lam0 * G.dense(p.S_J_emb)
        at += form.n_coef
    S[range(at, n), range(at, n)] += phi
    return S


class NormalPrior:
    def __init__(self, mean, sd):
        self.mean, self.sd = mean, sd

    def logpdf(self, rho):
        return -0.5 * np.sum(((rho - self.mean) / self.sd) ** 2, axis=1)

    def dlpdrho(self, rho):
        return -(rho - self.mean) / self.sd ** 2

    def make_valid(self, rho):
        return rho


def prior_of(name, rho0):
    from mssm.src.python.utils import CenteredUniformRhoPriors, MVUniformRhoPrior, RhoPrior
    k = len(rho0)
    if name is None:
        return None, lambda r: 0.0, lambda r: np.zeros(k)
    if name == "normal":
        class P(NormalPrior, RhoPrior):
            pass
        mean, sd = rho0 * 0.5 + np.arange(k), 1.5 + np.arange(k)
        return P(mean, sd), lambda r: -0.5 * np.sum(((r - mean) / sd) ** 2), lambda r: -(r - mean) / sd ** 2
    if name == "centered":
        p = CenteredUniformRhoPriors(rho0, a=-1e3, b=1e3, c=0.75)
        lo, hi = rho0 - 0.75, rho0 + 0.75
    else:
        a, b = name
        p = MVUniformRhoPrior(a, b)
        lo, hi = np.full(k, a), np.full(k, b)
    return p, (lambda r: 0.0 if np.all((r >= lo) & (r <= hi)) else -np.inf), lambda r: np.zeros(k)


def fixed_t(c):
    from mssm.models import GAMM
    from mssm.src.python.exp_fam import ScaledT
    d = Q.data(salt=c.get("salt", 3), n_per=c.get("n_per", 16))
    m = GAMM(Q.formula(Q.LHS["ScaledT"], c24.TERMS[c["terms"]], d), ScaledT(theta=np.array(c["theta"], dtype=float).reshape(-1, 1)))
    with Q.quiet():
        m.fit(progress_bar=False, n_cores=1)
    return m, d


def target_case(ctx, c):
    fixed = c.get("theta")
    m, d = fixed_t(c) if fixed is not None else c24.build_model(c)
    kind = c["kind"]
    gam = kind in ("Gaussian", "Gamma", "InvGauss", "Poisson", "Binomial", "ScaledT")
    specs = [c24.TERMS[c["terms"]]] if gam else c23.GEN[c["terms"]]
    if kind == "PropHaz":
        specs = [c23.noint(specs[0])]
    if m.info.dropped is not None and len(m.info.dropped):
        ctx.outcome("dropped")
        return
    o = dict(c.get("opt", {}))
    lam0, phi, mp = o.get("lambda_0", 1e-4), o.get("phi_theta_lambda_0"), o.get("make_proper", True)
    sr = o.get("sample_rho", False)
    two = gam and m.family.twopar
    nx = 1 if two else (2 if kind == "ScaledT" and fixed is None else 0)
    nb = len(np.ravel(m.coef))
    n = nb + nx
    if phi is None or not gam:
        phi = lam0
    P = RR.Pens(m.overall_penalties, nb)
    sc = float(m.scale) if two else 1.0
    lam = np.asarray(P.lam, dtype=float) / sc
    if sr and not len(lam):
        return
    rho0 = np.log(lam)
    pr, lp, dlp = prior_of(c.get("prior"), rho0)
    if pr is not None:
        o["rho_prior"] = pr
    box = capture(m, n_chains=c.get("n_chains", 1), seed=c.get("seed", 0), **o)
    ctx.expect("llk" in box, "the sampler was never asked for a step size")
    if "llk" not in box:
        return
    ll = gam_loglik(kind, m, c23.offset_of(c.get("off"), d)) if gam else c23.model_llk(kind.replace("wrap:", ""), m)[0]
    S0 = proper(m, c, specs, d, lam0, phi, n) if mp else np.zeros((n, n))

    def full(l):
        S = np.zeros((n, n))
        S[:nb, :nb] = np.asarray(P.total(l), dtype=float)
        return S + S0

    def joint(w):
        b, r = w[:n], w[n:]
        S = full(np.exp(r) if sr else lam)
        v = float(np.real(ll(b))) - 0.5 * b @ S @ b
        if sr:
            v += 0.5 * float(P.logdet(np.exp(r))) + lp(r)
        return v

    def grad(w):
        b, r = w[:n], w[n:]
        g = c23.cgrad(ll, b) - full(np.exp(r) if sr else lam) @ b
        if sr:
            U = np.asarray(P.U, dtype=float)
            iS = U @ np.linalg.inv(U.T @ np.asarray(P.total(np.exp(r)), dtype=float) @ U) @ U.T
            gr = [0.5 * e * (np.sum(iS * np.asarray(s, dtype=float)) - b[:nb] @ np.asarray(s, dtype=float) @ b[:nb]) for e, s in zip(np.exp(r), P.S)]
            g = np.r_[g, np.array(gr) + dlp(r)]
        return g
    th0 = np.r_[np.ravel(m.coef), [np.log(sc)] if two else (np.ravel(m.family.theta) if nx else [])]
    N_ = n + (len(lam) if sr else 0)
    w0 = np.ravel(box["omega"])
    ctx.expect(len(w0) == N_, "length of the sampled vector", f"{len(w0)} vs {N_}")
    if len(w0) != N_:
        return
    ctx.close(box["cL"], box["llk"](w0.reshape(-1, 1)), "log joint the chain starts from", rtol=1e-9)
    ctx.close(np.ravel(box["g"]), np.ravel(box["grad"](w0.reshape(-1, 1))), "gradient the step-size search starts from", rtol=1e-9)
    ctx.expect(np.isfinite(box["cL"]), "the chain starts where the log joint is not finite", f"{box['cL']} at {w0[n:]}")
    mode = np.r_[th0, rho0] if sr else th0
    V = box["Minv"]
    sd = np.sqrt(np.diag(V)) if len(V) == N_ else np.ones(N_)
    pts = [mode] + [mode + 0.4 * sd * np.asarray(vmc.gen(["pt", k, N_], N_), dtype=float) for k in range(c.get("pts", 3))]
    if sr:
        for p in pts:
            p[n:] = np.clip(p[n:], -14, 14)
        if c.get("prior") == "centered" or isinstance(c.get("prior"), (list, tuple)):
            q = mode.copy()
            q[-1] += 25.0
            pts.append(q)
    vals = [(float(np.asarray(box["llk"](p.reshape(-1, 1)))), joint(p)) for p in pts]
    base = next((v for v in vals if np.isfinite(v[1])), vals[0])
    for p, (a, b) in zip(pts, vals):
        ctx.trans(1)
        if not np.isfinite(b):
            ctx.expect(not np.isfinite(a) and a < 0, "density outside the prior's support", f"{a}")
            ctx.outcome("outside")
            continue
        ctx.close(a - base[0], b - base[1], "log joint (up to a constant)", rtol=1e-6, atol=1e-6 * (1 + abs(b)))
        g, gw = np.ravel(box["grad"](p.reshape(-1, 1))), grad(p)
        ctx.close(g, gw, "gradient of the log joint", rtol=1e-5, atol=1e-6 * (1 + np.max(np.abs(gw))))
        ctx.outcome(("in", kind))
    ctx.close(V, V.T, "inverse metric is symmetric", rtol=1e-9, atol=1e-12)
    e = np.linalg.eigvalsh((V + V.T) / 2)
    ctx.expect(e[0] > 0, "inverse metric is not positive definite", f"{e[0]}")
    if e[0] > 0 and e[-1] / e[0] < 1e11:
        k = N_ + 4
        D = np.column_stack([np.ravel(box["rs"](s)) for s in range(k)])
        Z = np.column_stack([np.ravel(c26.normals(N_, 1, s)) for s in range(k)])
        A = np.linalg.lstsq(Z.T, D.T, rcond=None)[0].T
        ctx.close(A @ Z, D, "momentum draws are a linear image of the normal draws", rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(D))))
        W = A.T @ V @ A  # = A' V A, the identity for A A' = inv(V)
        ctx.close(W, np.eye(N_), "momenta do not have the metric as covariance", rtol=1e-5, atol=1e-5)
    ctx.state(1)
    ctx.trace(len(pts))


# ---------------------------------------------------------------------------------------------------------------------- the driver
def one_step(q, L, eps, epsbar, Hbar, m, Madapt, mu, tune, max_j, tr):
    """Stand-in for a transition: depends on everything it is handed and on the iteration, not on how iterations are grouped into calls."""
    q = 0.8 * q + 0.3 * np.sin(q + 1.7 * eps + 0.37 * m + 0.11 * max_j + 0.9 * Hbar + 0.3 * epsbar + 0.01 * L + 0.05 * mu + tune + tr + np.arange(len(q)))
    L = float(np.cos(np.sum(q) + 0.1 * L))
    if m < Madapt:
        eps = 0.5 * eps + 0.1 + 0.05 * float(np.sin(q[0]))
        Hbar = 0.8 * Hbar + 0.1 * float(np.cos(q[-1]))
        epsbar = 0.7 * epsbar + 0.2 * eps
    else:
        eps = epsbar
    return q, L, eps, epsbar, Hbar


def tuned(delta, kappa, gamma, t0):
    return 0.1 * delta + 0.23 * kappa + 0.31 * gamma + 0.017 * t0


def stand_adv(log=None, script=None):
    def adv(seed, m, Madapt, steps, cL, omega, rows, cols, nnz, data, indptr, indices, eps, epsbar, Hbar, mu, delta, kappa, gamma, t0, max_j, llk, grad, rs):
        q, L = np.ravel(np.array(omega, dtype=float)), float(cL)
        tr = 1e-3 * float(np.trace(G.dense(scp.sparse.csc_array((np.array(data), np.array(indices), np.array(indptr)), shape=(rows, cols)))))
        S, Ls = np.zeros((len(q), steps)), np.zeros(steps)
        for k in range(steps):
            q, L, eps, epsbar, Hbar = one_step(q, L, eps, epsbar, Hbar, m + k + 1, Madapt, mu, tuned(delta, kappa, gamma, t0), max_j, tr)
            if script is not None:
                q, L = script(q, L, m + k + 1 - Madapt)
            S[:, k], Ls[k] = q, L
        if log is not None:
            log.append((seed, m, steps))
        return Ls, S, eps, epsbar, Hbar
    return adv


def drive(m, c, par, log=None, script=None, cb=None, **kw):
    starts = []

    def eps(omega, g, rows, cols, nnz, data, indptr, indices, cL, llk, grad, rs, seed):
        tr = 1e-3 * float(np.trace(G.dense(scp.sparse.csc_array((np.array(data), np.array(indices), np.array(indptr)), shape=(rows, cols)))))
        e = 0.2 + 0.1 * abs(float(np.sin(np.sum(omega))))
        starts.append((np.ravel(np.array(omega, dtype=float)), float(cL), e, tr))
        return e
    with Stand(eps, stand_adv(log, script)) as M, Q.quiet():
        r = M.sample_mssm(m, n_iter=c["n_iter"], n_steps=c["n_steps"], M_adapt=c["M_adapt"], n_chains=c["n_chains"], max_j=7, max_j_adapt=4, delta=0.7, kappa=0.8, gamma=0.06, t0=12,
                          parallelize_chains=par, progress_bar=False, callback=cb, seed=c.get("seed", 0), **c["opt"], **kw)
    return r, starts


def expected(c, starts, n_iter, script=None):
    """Each chain on its own: adaptation, the mean adapted step size, then the stored samples."""
    A, tn = c["M_adapt"], tuned(0.7, 0.8, 0.06, 12)
    st = []
    for q, L, e, tr in starts:
        z = (q, L, e, 1.0, 0.0)
        for k in range(A):
            z = one_step(*z, k + 1, A, np.log(10 * e), tn, 4, tr)
            if script is not None:
                z = (*script(z[0], z[1], k + 1 - A), *z[2:])
        st.append(z)
    eb = float(np.mean([z[3] for z in st]))
    out = []
    for z, (_, _, e, tr) in zip(st, starts):
        if A:
            z = (z[0], z[1], eb, eb, z[4])
        row = []
        for k in range(n_iter):
            z = one_step(*z, A + k + 1, A, np.log(10 * e), tn, 7, tr)
            if script is not None:
                z = (*script(z[0], z[1], k + 1), *z[2:])
            row.append(np.r_[z[0], z[1]])
        out.append(row)
    return np.array(out)  # chains x iterations x (states, log joint)


def parts(m, opt):
    nb = len(np.ravel(m.coef))
    from mssm.src.python.exp_fam import ExtendedFamily, Family
    two = isinstance(m.family, Family) and m.family.twopar
    nt = len(m.family.theta) if isinstance(m.family, ExtendedFamily) else 0
    nr = len(m.overall_penalties) if opt.get("sample_rho") else 0
    return nb, int(two), nt, nr


def same(ctx, r, E, m, opt, what):
    nb, ns, nt, nr = parts(m, opt)
    at = 0
    for name, k in (("coefs", nb), ("lscales", ns), ("thetas", nt), ("rhos", nr), ("lps", 1)):
        v = getattr(r, name)
        if not k:
            ctx.expect(v is None, f"{what}: {name} returned although not sampled")
            continue
        W = E[:, :, at:at + k]
        at += k
        ok = v is not None and np.shape(v) == W.shape
        ctx.expect(ok, f"{what}: shape of {name}", f"{None if v is None else np.shape(v)} vs {W.shape}")
        if ok:
            ctx.close(np.asarray(v), W, f"{what}: {name}", rtol=1e-9, atol=1e-9)


FITS = {}


def model_for(c):
    """Fits are shared between the cases of a worker."""
    k = repr((c["kind"], c["terms"]))
    if k not in FITS:
        FITS[k] = c24.build_model(dict(kind=c["kind"], terms=c["terms"]))
    return copy.deepcopy(FITS[k])


def driver_case(ctx, c):
    m, _ = model_for(c)
    modes = [False, True] if c.get("par") else [False]
    for par in modes:
        log, cbs = [], []
        r, starts = drive(m, c, par, log, cb=lambda k, res: cbs.append((k, res)), auto_converge=False)
        ctx.expect(len(starts) == c["n_chains"], "number of chains", f"{len(starts)}")
        E = expected(c, starts, c["n_iter"])
        same(ctx, r, E, m, c["opt"], "parallel" if par else "serial")
        ctx.expect(all(k <= c["n_iter"] for k, _ in cbs) and [k for k, _ in cbs] == sorted({k for k, _ in cbs}) and (not c["n_iter"] or (len(cbs) and cbs[-1][0] == c["n_iter"])), "calls of the callback", f"{[k for k, _ in cbs]}")
        for k, res in cbs:
            same(ctx, res, E[:, :k], m, c["opt"], "callback")
        if c["n_chains"] > 1:
            ctx.expect(len({tuple(np.round(s[0], 9)) for s in starts}) == c["n_chains"], "chains start from the same state")
        if not par:
            ctx.expect(len(log) < 3 or len({x[0] for x in log}) > 1, "every call uses the same seed", f"{log[:4]}")
            r2, _ = drive(m, c, par, auto_converge=False)
            ctx.expect(np.array_equal(r2.coefs, r.coefs), "a second run with the same seed differs")
        ctx.trans(c["n_chains"] * (c["n_iter"] + c["M_adapt"]))
        ctx.trace(1)
        ctx.outcome((par, c["n_chains"], len(log)))
    ctx.state(1)


def stats(cols):
    """Effective sample sizes in the tails and split R-hat of parameters (each chains x draws)."""
    import arviz
    n = cols[0].shape[1] // 2
    z = np.stack([np.concatenate([np.stack([c[:n], c[n:2 * n]]) for c in x]) for x in cols], axis=2)
    ds = arviz.convert_to_dataset(z)
    return np.ravel(arviz.ess(ds, method="tail").x.data), np.ravel(arviz.rhat(ds).x.data)


def converge_case(ctx, c):
    """The sampler stops at the first check at which the second half of the draws meets the criteria, and returns that half."""
    m, _ = model_for(c)
    nb, ns, nt, nr = parts(m, c["opt"])
    T = c["settle"]

    def script(q, L, k):
        """white noise around zero; which quantity settles late is enumerated"""
        h = np.sin(1e3 * np.sin(12.9898 * (k + 1) + 78.233 * np.arange(1, len(q) + 1) + 3.1 * float(np.round(np.sum(np.sin(q)), 3))))
        L2 = float(np.cos(77.7 * k + np.sum(h)))
        late = 40.0 if k <= T else 0.0
        if c["late"] == "lp":
            L2 -= late
        elif c["late"] is not None:
            h[c["late"] if c["late"] >= 0 else len(h) - 1] += late
        return h, L2
    r, starts = drive(m, c, False, script=script, auto_converge=True, min_iter=c["min_iter"], max_rhat=c["max_rhat"], min_ess=c["min_ess"])
    E = expected(c, starts, c["n_iter"], script)
    stop = None
    ns_ = max(2, c["n_steps"])
    for k in [*range(ns_, c["n_iter"], ns_), c["n_iter"]]:
        if k // 4 <= 2 * c["n_chains"] or k < 2 * c["min_iter"]:
            continue
        H = E[:, k // 2:k]
        e, h = stats([H[:, :, j] for j in range(H.shape[2])])
        e, h = np.min(e), np.max(h)
        if abs(h - c["max_rhat"]) < 2e-3 or abs(e - c["min_ess"] * c["n_chains"]) < 1:  # too close to call
            ctx.outcome("borderline")
            return
        if e > c["min_ess"] * c["n_chains"] and h < c["max_rhat"]:
            stop = k
            break
    ctx.outcome(("stop", stop is None, stop == c["n_iter"]))
    want = E if stop is None else E[:, stop // 2:stop]
    same(ctx, r, want, m, c["opt"], f"second half at convergence")
    ctx.state(1)
    ctx.trans(c["n_iter"])
    ctx.trace(1)


def stat_case(ctx, c):
    """check_convergence: which parameters are judged and from which halves of which chains."""
    import mssm.src.python.mcmc as M
    m, d = model_for(c)
    nb, ns, nt, nr = parts(m, dict(sample_rho=True))
    rng = lambda k, p: np.asarray(vmc.gen(["st", k, p, c["n"]], c["chains"], c["n"], p), dtype=float) + np.linspace(0, c["drift"], c["n"])[None, :, None] * np.arange(1, p + 1)
    S = dict(coef=rng(0, nb), scale=rng(1, ns) if ns else None, theta=rng(2, nt) if nt else None, rho=rng(3, nr) if nr and c["rho"] else None, lp=rng(4, 1) if c["lp"] else None)
    with Q.quiet():
        ess, rh, mc = M.check_convergence(S["coef"], S["scale"], S["theta"], S["lp"], S["rho"], m, type=c["type"])
    sel = np.arange(nb)
    if c["type"] == 1:
        sel, at = [], 0
        specs = [c24.TERMS[c["terms"]]] if c["kind"] in c23_GAM else c23.GEN[c["terms"]]
        for spec, form in zip(specs, m.formulas):
            for t, s in enumerate(spec):
                if s[0] in ("i", "l", "f"):
                    sel += list(np.asarray(form.coef_idx_per_term[t]) + at)
            at += form.n_coef
        sel = np.sort(np.array(sel, dtype=int))
    cols = [S["coef"][:, :, j] for j in sel]
    for k in ("scale", "theta", "rho", "lp"):
        if S[k] is not None:
            cols += [S[k][:, :, j] for j in range(S[k].shape[2])]
    e, h = stats(cols)
    ctx.expect(len(ess) == len(e) and len(rh) == len(e) and len(mc) == len(e), "number of parameters judged for convergence", f"{len(ess)} vs {len(e)}")
    if len(ess) == len(e):
        ctx.close(ess, e, "effective sample sizes", rtol=1e-9)
        ctx.close(rh, h, "R-hat", rtol=1e-9)
    ctx.state(1)
    ctx.outcome((c["type"], len(e)))


c23_GAM = ("Gaussian", "Gamma", "InvGauss", "Poisson", "Binomial", "ScaledT")


def whole_case(ctx, c):
    """The unmodified extension end to end: the stored log joints belong to the stored states, parallel and serial chains agree."""
    m, _ = model_for(c)
    import mssm.src.python.mcmc as M
    kw = dict(n_iter=c["n_iter"], M_adapt=c["M_adapt"], n_steps=c["n_steps"], n_chains=c["n_chains"], progress_bar=False, auto_converge=False, seed=c["seed"], max_j=4, max_j_adapt=3, **c["opt"])
    box = capture(m, **{k: v for k, v in kw.items() if k in ("n_chains", "seed", *c["opt"])})
    rs = []
    for par in ([False, True] if c["n_chains"] > 1 else [False]):
        with Q.quiet():
            rs.append(M.sample_mssm(m, parallelize_chains=par, **kw))
    for r in rs:
        cols = [np.asarray(v) for v in (r.coefs, r.lscales, r.thetas, r.rhos) if v is not None]
        W = np.concatenate(cols, axis=2)
        ctx.expect(W.shape[1] == c["n_iter"], "number of samples", f"{W.shape}")
        for ch in range(W.shape[0]):
            for k in range(W.shape[1]):
                ctx.close(float(r.lps[ch, k, 0]), float(np.asarray(box["llk"](W[ch, k].reshape(-1, 1)))), "stored log joint of a sample", rtol=1e-8, atol=1e-8)
        ctx.trans(W.shape[0] * W.shape[1])
    if len(rs) == 2:
        ctx.close(rs[1].coefs, rs[0].coefs, "parallel and serial chains", rtol=1e-7, atol=1e-8)
    ctx.state(1)
    ctx.trace(len(rs))
    ctx.outcome((c["kind"], len(rs)))


def run(chk):
    th = chk.thorough
    stubbed()
    tg = ["gauss", "quartic", "wall", "nan", "nangrad", "cliff", "flat"]
    sp = []
    for t, dim, me in itertools.product(tg, (1, 2, 3), ("unit", "diag", "dense")):
        if dim == 1 and me == "dense":
            continue
        for eps, e, mom in itertools.product((0.25, 0.8, 1.7), (0.02, 0.5, 3.0), range(4 if th else 2)):
            for mj in (1, 2, 3):
                if mj < 3 and (mom or dim == 3):
                    continue
                sp.append(dict(target=t, dim=dim, metric=me, eps=eps, e=[e], mom=mom, start=mom, max_j=mj))
    for t, eps, (m0, Ma) in itertools.product(tg, (0.3, 1.2), ((0, 50), (3, 5), (4, 5), (3, 4), (7, 5))):
        sp.append(dict(target=t, dim=2, metric="diag", eps=eps, e=[0.4, 1.1], mom=1, start=2, max_j=2, adapt=[m0, Ma]))
        if th:
            sp.append(dict(target=t, dim=2, metric="dense", eps=eps, e=[0.1, 0.9, 2.0], mom=2, start=1, max_j=2, adapt=[m0, Ma]))
    if th:
        sp += [dict(target=t, dim=2, metric="dense", eps=eps, e=[3.0], mom=mom, start=mom, max_j=4) for t, eps, mom in itertools.product(("wall", "cliff", "gauss"), (0.8, 1.7), range(3))]
    chk.explore("transitions", sp, transitions, bounds="7 densities (with walls, undefined and divergent regions) in 1-3 dimensions, 3 metrics, 3 step sizes, 3 slice levels, tree depth <= 3; every outcome of every draw; one to three transitions with adaptation on both sides of its end", min_outcomes=20)
    sp = [dict(target=t, dim=dim, metric=me, eps=eps, mom=5, start=3, max_j=mj, seed=sd, split=spl, m0=m0, Madapt=Ma)
          for t, dim, me in itertools.product(tg, (1, 3), ("unit", "dense")) for eps, mj in ((0.15, 6), (0.6, 4)) for sd in range(11, 11 + (12 if th else 3)) for spl, m0, Ma in (([20], 0, 12), ([7, 13], 0, 12), ([1, 1, 2], 5, 6), ([12], 0, 0))]
    chk.explore("chains", sp, chains, bounds="real draws: 7 densities, two metrics, step sizes, tree depth <= 6, up to 20 transitions in one to three calls across the end of adaptation", min_outcomes=8)
    sp = [dict(target=t, dim=dim, metric=me, scale=s, mom=mom, start=mom, seed=1) for t, dim, me, s, mom in itertools.product(tg, (1, 2, 3), ("unit", "diag", "dense"), (1e-4, 0.05, 1.0, 30.0, 1e4), range(6 if th else 3))
          if not (t in ("nan", "nangrad"))]
    chk.explore("step size", sp, step_size, bounds="5 densities, dimensions 1-3, metrics over 8 orders of magnitude", min_outcomes=2)
    gk = [("Gaussian", None), ("Gamma", "LOG"), ("InvGauss", "LOG"), ("Poisson", None), ("Binomial", None), ("ScaledT", None)]
    tk = ["lin", "sm", "add", "by", "id", "ids", "null", "rp", "te", "ti", "fs", "rs", "cont", "bin", "unpen", "fsx"]
    opts = [{}, dict(make_proper=False), dict(lambda_0=0.3, phi_theta_lambda_0=0.7), dict(sample_rho=True), dict(sample_rho=True, make_proper=False)]
    sp = [dict(kind=k, link=l, terms=t, opt=o) for (k, l) in gk for t in tk for o in opts if th or k in ("Gaussian", "Poisson") or t in ("add", "id", "fs") or (t in ("sm", "null") and o.get("lambda_0"))]
    sp += [dict(kind=k, link=l, terms="add", off=off, opt=o) for (k, l) in gk for off in ("float", "arr") for o in (opts[0], opts[3])]
    sp += [dict(kind="Gaussian", terms=t, fit=dict(rho=r), opt=o) for t in ("sm", "by") for r in (0.4, -0.3) for o in (opts[0], opts[3])]
    sp += [dict(kind=k, link=l, terms=t, prior=p, opt=dict(sample_rho=True), n_chains=nc) for (k, l) in (gk[0], gk[3]) for t in ("sm", "add") for p in ("normal", "centered", [-20, 20], [-2, 9], [3, 4], [-9, -7.5]) for nc in (1, 2)]
    sp += [dict(kind=k, link=l, terms=t, opt=dict(sample_rho=True, init_unconditional=True, scale_cov_rho=0.5, scale_cov_phi_theta=2.0)) for (k, l) in gk for t in ("add", "id")]
    sp += [dict(kind="ScaledT", terms="add", opt=dict(phi_theta_lambda_0=[0.4, 2.0], sample_rho=s)) for s in (False, True)]
    sp += [dict(kind="Gaussian", terms="add", opt=dict(phi_theta_lambda_0=[0.4], sample_rho=s)) for s in (False, True)]
    sp += [dict(kind="ScaledT", terms=t, theta=th_, opt=o) for t in ("lin", "add", "id") for th_ in ([0.3, 1.0], [-0.5, 3.0]) for o in (opts[0], opts[2], opts[4])]
    lk = ["GAUMLSS", "GAMMALS", "MULNOMLSS", "MultiGauss", "PropHaz", "wrap:GAUMLSS"]
    lt = ["lin", "sm-sm", "lin-sm", "add-lin", "by", "id", "ri", "null", "te", "fs", "sm-te", "null-null", "mixnull"]
    sp += [dict(kind=k, terms=t, opt=o) for k in lk for t in lt for o in opts if (th or k == "GAUMLSS" or t in ("sm-sm", "lin-sm", "id")) and not (k == "PropHaz" and t in ("id", "te"))]
    chk.explore("target", sp, target_case, bounds="GAMMs of 6 families x 16 term layouts, 6 distributional/general families x 12 layouts; offsets, AR(1) errors, tied penalties, proper and improper priors, sampled smoothing parameters under 4 kinds of prior; at the mode and three further points", min_outcomes=6)
    DR = [("Gaussian", "sm", {}), ("Gaussian", "add", dict(sample_rho=True)), ("Poisson", "add", {}), ("Poisson", "sm", dict(sample_rho=True)), ("ScaledT", "sm", {}), ("ScaledT", "add", dict(sample_rho=True)),
          ("GAUMLSS", "sm-sm", {}), ("GAUMLSS", "lin-sm", dict(sample_rho=True)), ("MultiGauss", "sm", {}), ("Poisson", "id", dict(sample_rho=True))]
    sp = [dict(kind=k, terms=t, opt=o, n_iter=ni, M_adapt=ma, n_steps=ns, n_chains=nc, par=False)
          for k, t, o in DR for ni, ma, ns, nc in (itertools.product((1, 2, 5, 7), (0, 1, 4, 5), (1, 2, 3, 4, 10), (1, 2, 3)) if (th or k == "Gaussian") else [(5, 4, 3, 2), (7, 5, 2, 3), (4, 0, 10, 1), (5, 3, 1, 2)])]
    sp += [dict(kind=k, terms=t, opt=o, n_iter=ni, M_adapt=ma, n_steps=ns, n_chains=nc, par=True) for k, t, o in DR for ni, ma, ns, nc in [(5, 4, 3, 2)] + ([(7, 0, 4, 3), (4, 5, 2, 2)] if th else [])]
    chk.explore("driver", sp, driver_case, bounds="10 models (scale, theta, penalties sampled or not) x 1-7 samples x 0-5 adaptation steps x groups of 1-10 x 1-3 chains, serial and parallel", min_outcomes=8)
    sp = [dict(kind=k, terms=t, opt=o, n_iter=ni, M_adapt=3, n_steps=ns, n_chains=nc, min_iter=mi, max_rhat=mr, min_ess=me, settle=T, late=late)
          for k, t, o in (DR[1], DR[3], DR[5], DR[7]) for ni, ns, nc in ((120, 20, 2), (119, 13, 1)) for mi, mr, me in ((5, 1.3, -1), (30, 1.3, -1), (5, 1e9, -1), (5, 0.5, -1), (5, 1e9, 1e6), (5, 1.3, 8)) for T in (0, 17, 41) for late in (None, "lp", 0, -1)
          if not (late is None and T)]
    chk.explore("convergence", sp, converge_case, bounds="4 models, thresholds from never to always, each kind of quantity settling after 0, 17 or 41 draws", min_outcomes=2)
    sp = [dict(kind=k, terms=t, chains=nc, n=n, rho=rh, lp=lp, drift=dr, type=ty) for k, t in (("Gaussian", "fs"), ("Gaussian", "by"), ("ScaledT", "add"), ("Poisson", "rs"), ("GAUMLSS", "sm-sm"), ("GAUMLSS", "ri"), ("GAUMLSS", "fs"), ("MULNOMLSS", "add-lin"))
          for nc in (1, 3) for n in (16, 21) for rh, lp in ((True, True), (False, True), (True, False)) for dr in (0.0, 3.0) for ty in (0, 1)]
    chk.explore("statistics", sp, stat_case, bounds="8 models, 1 or 3 chains, even and odd lengths, with and without drift, both selections", min_outcomes=6)
    sp = [dict(kind=k, terms=t, opt=o, n_iter=6, M_adapt=5, n_steps=4, n_chains=nc, seed=sd) for k, t, o in DR for nc in (1, 2) for sd in range(4 if th else 1)]
    chk.explore("end to end", sp, whole_case, bounds="10 models, unmodified extension, 6 samples after 5 adaptation steps, serial and parallel", min_outcomes=4)
