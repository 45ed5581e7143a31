"""Reference model of the (hidden) semi-Markov models of mssm: explicit enumeration of every admissible path.

A path of a series with n_T samples is a sequence of segments (state, duration) with durations 1..D-1, consecutive segments in
different states, covering samples 0..n_T-1; the last segment may reach beyond the last sample unless `ewl`.
All densities are written out by hand (complex-step differentiable), independent of the implementation.
"""
import functools

import numpy as np
import scipy as scp
from scipy.special import loggamma

from vmc import gen


# ----------------------------------------------------------------------------- path enumeration
class Paths:
    def __init__(self, n_T, n_S, D, ewl, eil, hmp_w=0, cyc=False):
        segs_all, eds = [], []
        # event-template models move strictly left to right (optionally restarting) and their events have a fixed duration
        ok = (lambda i, j: (j == i + 1) or (cyc and i == n_S - 1 and j == 0)) if hmp_w else (lambda i, j: i != j)

        def rec(t, prev, segs):
            for j in range(n_S):
                if not ok(prev, j):
                    continue
                for d in ((hmp_w,) if hmp_w and j % 2 else range(1, D)):
                    end = t + d
                    if end < n_T:
                        rec(end, j, segs + [(j, d, t)])
                    else:
                        if ewl and end != n_T:
                            continue
                        if eil and j != n_S - 1:
                            continue
                        segs_all.append(segs + [(j, d, t)])
                        eds.append(end - n_T)
        rec(0, -1, [])
        P = len(segs_all)
        self.n_T, self.n_S, self.D, self.P = n_T, n_S, D, P
        self.ed = np.array(eds, int)
        self.segs = segs_all
        self.states = np.zeros((P, n_T), int)
        self.pos = np.zeros((P, n_T), int)
        K = max([len(s) for s in segs_all], default=1)
        self.sj = np.full((P, K), -1)
        self.sd = np.zeros((P, K), int)
        self.st = np.zeros((P, K), int)
        for p, segs in enumerate(segs_all):
            for k, (j, d, t) in enumerate(segs):
                self.sj[p, k], self.sd[p, k], self.st[p, k] = j, d, t
                e = min(t + d, n_T)
                self.states[p, t:e] = j
                self.pos[p, t:e] = np.arange(e - t)
        self.transitions = int((self.sj[:, 1:] >= 0).sum()) if P else 0

    def logp(self, LE, lds, lT, lpi, n_S, swf):
        """log joint probability of every path with the data.  LE(t, pos, j) -> array; lds[d-1, fam, t]; lT[i, j, t]; lpi[j]."""
        t = np.broadcast_to(np.arange(self.n_T), self.states.shape)
        lp = LE[t, np.minimum(self.pos, LE.shape[1] - 1), self.states].sum(axis=1)
        lp = lp + lpi[self.sj[:, 0]]
        for k in range(self.sj.shape[1]):
            m = self.sj[:, k] >= 0
            fam = self.sj[m, k] if (k == 0 or swf) else self.sj[m, k] + n_S
            lp[m] = lp[m] + lds[self.sd[m, k] - 1, fam, self.st[m, k]]
            if k > 0:
                lp[m] = lp[m] + lT[self.sj[m, k - 1], self.sj[m, k], self.st[m, k] - 1]
        return lp


@functools.lru_cache(maxsize=None)
def paths(n_T, n_S, D, ewl, eil, hmp_w=0, cyc=False):
    return Paths(n_T, n_S, D, ewl, eil, hmp_w, cyc)


def lse(lp):
    """log-sum-exp of real or complex log terms."""
    re = np.real(lp)
    if re.size == 0 or np.all(np.isneginf(re)):
        return -np.inf
    m = np.max(re)
    keep = ~np.isneginf(re)
    return m + np.log(np.sum(np.exp(lp[keep] - m)))


# ----------------------------------------------------------------------------- densities
def gau_lp(y, mu, sig):
    return -0.5 * np.log(2 * np.pi) - np.log(sig) - 0.5 * ((y - mu) / sig) ** 2


def gam_lp(y, mu, sc):
    a = 1 / sc
    b = a / mu
    if np.isrealobj(y) and np.any(np.asarray(y) <= 0):
        yy = np.where(np.asarray(y) > 0, y, 1.0)
        lp = a * np.log(b) + (a - 1) * np.log(yy) - b * yy - loggamma(a)
        return np.where(np.asarray(y) > 0, lp, -np.inf)
    return a * np.log(b) + (a - 1) * np.log(y) - b * y - loggamma(a)


LINK_B = -0.0001


def fi(link, eta):
    if link == "id":
        return eta
    if link == "log":
        return np.exp(eta)
    if link == "logb":
        return np.exp(eta) - LINK_B
    raise KeyError(link)


# ----------------------------------------------------------------------------- model construction
def default_case(**kw):
    c = dict(kind="hsmm", n_S=2, M=1, D=3, lens=[3], swf=True, ewl=False, eil=False, Tpi="est", tv=False, obs="gau", shared="",
             reuse=False, cores=1, w=2, rho=None, hmp_fam="Gaussian", y="gen", salt=0, tid="none")
    c.update(kw)
    return c


DEV = {"on": False}


def with_known(fn):
    """Runs a case against the property; where only the listed deviation hmp-shared-signals explains the difference, says so."""
    import vmc

    def g(ctx, c):
        d = default_case(**c)
        if not (d["kind"] == "hmp" and d["shared"] and d["M"] > 1):
            return fn(ctx, c)
        a = vmc.Ctx()
        try:
            fn(a, c)
        except Exception as e:
            a.fail(f"exception {type(e).__name__}: {e}")
        if a.fails:
            b = vmc.Ctx()
            DEV["on"] = True
            try:
                fn(b, c)
            finally:
                DEV["on"] = False
            if not b.fails:
                b.known("hmp-shared-signals", f"M={d['M']} shared={d['shared']}")
                a = b
        for k, v in a.__dict__.items():
            setattr(ctx, k, v)
    return g


class Model:
    """Builds the real HSMMFamily plus its inputs, and the reference quantities, from one case."""

    def __init__(self, case):
        from mssm.src.python.hsmm import HSMMFamily
        from mssm.src.python.exp_fam import GAUMLSS, GAMMALS, MultiGauss, Identity, LOG, LOGb
        c = self.c = default_case(**case)
        key = (c["salt"], c["kind"], c["obs"])
        self.n_S, self.M, self.D = c["n_S"], c["M"], c["D"]
        n_S, M, D = self.n_S, self.M, self.D
        self.lens = list(c["lens"])
        N = sum(self.lens)
        nser = len(self.lens)
        self.sid = np.concatenate(([0], np.cumsum(self.lens)[:-1])).astype(int)
        self.hmp = c["kind"] == "hmp"
        self.tv = c["tv"]
        self.shared_pars = {"": [], "mu": [0], "mum": [0], "both": [0, 1], "bothm": [0, 1]}[c["shared"]]
        self.shared_m = c["shared"].endswith("m")
        self.obs_kind = self._obs_kind()
        self.y = [gen((key, "y", m), N, lo=-1.5, hi=1.5) for m in range(M)]
        for m in range(M):
            if any(self.obs_kind(j, m) == "gamma" for j in range(n_S)):
                self.y[m] = np.abs(self.y[m]) + 0.3
        if c["y"] == "ties":          # identical observations
            self.y = [np.where(np.arange(N) % 2 == 0, 0.7, 0.7) for _ in range(M)]
        if c["y"] == "zero":          # an observation outside the support of a gamma emission
            self.y[0] = self.y[0].copy()
            self.y[0][N // 2] = -0.5
        if c["y"] == "far":           # strongly separated observations
            self.y = [np.where(np.arange(N) % 3 == 0, 3.0, -2.0) + 0.1 * yy for yy in self.y]
            for m in range(M):
                if any(self.obs_kind(j, m) == "gamma" for j in range(n_S)):
                    self.y[m] = np.abs(self.y[m]) + 0.3
        self.Xd, self.coefs, self.par, ys = [], [], [], []
        bidx = []

        def obsX(tag, k=2):
            X = np.column_stack([np.ones(N)] + [gen((key, "X", tag, q), N) for q in range(k - 1)])
            return X

        def latX(tag, k=2):
            rows = N if self.tv else nser
            return np.column_stack([np.ones(rows)] + [gen((key, "XL", tag, q), rows) for q in range(k - 1)])

        def add(kind, X, info, y, lo=-0.4, hi=0.4, shift=0.0, same=None):
            i = len(self.Xd)
            cf = gen((key, "coef", i, kind), X.shape[1], lo=lo, hi=hi)
            cf[0] += shift
            if same is not None:
                X = self.Xd[same]
                cf = cf[:X.shape[1]] if len(cf) >= X.shape[1] else np.resize(cf, X.shape[1])
            self.Xd.append(X)
            self.coefs.append(cf)
            self.par.append((kind, info))
            bidx.append(i if same is None else same)
            ys.append(y)
            return i

        yv = [None if m == 0 else self.y[m].reshape(-1, 1) for m in range(M)]
        for par in self.shared_pars:
            for m in range(1 if self.shared_m else M):
                add("shared", obsX(("s", par, m)), (par, m), yv[m])
        first_bump = None
        for j in range(n_S):
            if self.hmp:
                if j % 2 == 1:
                    for m in range(M):
                        same = first_bump if (c["reuse"] and first_bump is not None) else None
                        i = add("bump", obsX(("b", j, m)), (j, m), yv[m], lo=-0.6, hi=0.6, shift=0.8 * (-1) ** (j // 2), same=same)
                        if first_bump is None:
                            first_bump = i
                continue
            if self.obs_kind(j, 0) == "mg":
                for m in range(M):
                    add("mg", obsX(("g", j, m)), (j, m), yv[m], shift=0.9 * j - 0.5)
                continue
            for m in range(M):
                k = self.obs_kind(j, m)
                i = add(k, obsX(("o", j, m, 0)), (j, m, 0), yv[m], shift=(0.9 * j - 0.5) if k == "gau" else 0.4 * j)
                add(k, obsX(("o", j, m, 1)), (j, m, 1), yv[m] if c["salt"] % 2 else None, shift=-0.2,
                    same=i if c["reuse"] else None)
        pseudo = np.zeros((N if self.tv else nser, 1))
        for f in range(n_S * (1 if c["swf"] else 2)):
            if self.hmp and f % 2 == 1:
                continue
            i = add("dur", latX(("d", f, 0)), (f, 0), pseudo, shift=0.5 + 0.15 * f)
            add("dur", latX(("d", f, 1)), (f, 1), pseudo, shift=-0.5, same=i if c["reuse"] else None)
        if c["Tpi"] == "est":
            if n_S > 2:
                for j in range(n_S):
                    for k in range(n_S - 2):
                        add("T", latX(("T", j, k)), (j, k), pseudo, lo=-0.8, hi=0.8)
            for k in range(n_S - 1):
                add("pi", latX(("pi", k)), (k,), pseudo, lo=-0.8, hi=0.8)
        thetas = []
        if not self.hmp:
            for j in range(n_S):
                if self.obs_kind(j, 0) == "mg":
                    thetas.append(gen((key, "theta", j), M * (M + 1) // 2, lo=-0.5, hi=0.5))
        self.n_theta = sum(len(t) for t in thetas)
        parts = [cf for cf in self.coefs]
        if thetas:
            parts.append(np.concatenate(thetas))
        self.coef = np.concatenate(parts).reshape(-1, 1)
        self.split = list(np.cumsum([len(p) for p in parts])[:-1]) if not thetas else list(np.cumsum([len(p) for p in parts[:-1]]))
        if ys[0] is None:
            ys[0] = self.y[0].reshape(-1, 1)
        self.ys = ys
        self.Xs = [scp.sparse.csc_array(self.Xd[i]) if bidx[i] == i else None for i in range(len(self.Xd))]
        self.bidx = bidx
        # families
        if self.hmp:
            obs = [[None for _ in range(M)] for _ in range(n_S)]
        else:
            obs = []
            for j in range(n_S):
                if self.obs_kind(j, 0) == "mg":
                    obs.append([MultiGauss(M, [Identity() for _ in range(M)])])
                else:
                    obs.append([GAUMLSS([Identity(), LOGb(LINK_B)]) if self.obs_kind(j, m) == "gau" else GAMMALS([LOG(), LOGb(LINK_B)]) for m in range(M)])
        dfam = [None if (self.hmp and f % 2 == 1) else GAMMALS([LOG(), LOGb(LINK_B)]) for f in range(n_S * (1 if c["swf"] else 2))]
        T = pi = None
        self.Tfix = self.pifix = None
        if c["Tpi"] != "est":
            self.Tfix, self.pifix = [], []
            for s in range(nser):
                ss = s if c["Tpi"] in ("list",) else 0
                if self.hmp:
                    Ts = np.diag(np.ones(n_S - 1), 1)
                    if c.get("cyc"):
                        Ts[n_S - 1, 0] = 1.0
                    ps = np.zeros(n_S)
                    ps[0] = 1.0
                else:
                    Ts = gen((key, "T", ss), n_S, n_S, lo=0.2, hi=1.0)
                    np.fill_diagonal(Ts, 0)
                    if c.get("sparseT") and n_S > 2:
                        Ts[0, 2] = 0.0
                    Ts /= Ts.sum(axis=1, keepdims=True)
                    ps = gen((key, "pi", ss), n_S, lo=0.2, hi=1.0)
                    if c.get("sparseT"):
                        ps[-1] = 0.0
                    ps /= ps.sum()
                if self.tv and not c.get("tvconst"):
                    L = self.lens[s] if c["Tpi"] == "list" else max(self.lens)
                    if self.hmp:
                        Ts = np.stack([Ts for _ in range(L)], axis=2)
                    else:
                        Ts = np.stack([self._mixT(Ts, key, ss, t) for t in range(L)], axis=2)
                self.Tfix.append(Ts)
                self.pifix.append(ps)
            if c["Tpi"] == "list":
                T, pi = [np.array(t, order="F") for t in self.Tfix], list(self.pifix)
            else:
                T, pi = np.array(self.Tfix[0], order="F"), self.pifix[0]
        self.template = None
        self.scale = None
        Lrhoi = None
        if self.hmp:
            self.template = np.sin(np.pi * (np.arange(c["w"]) + 0.7) / (c["w"] + 0.3)) + 0.1
            self.scale = 0.8
            if c["rho"] is not None:
                Lrhoi = self.Lrhoi(c["rho"])
        self.Lr = Lrhoi
        self.tid = self.sid if self.tv else np.arange(nser)
        npar = len(self.Xd)
        self.fam = HSMMFamily(
            npar, [Identity() for _ in range(npar)], n_S, obs, dfam, self.sid, None if self.tv and c["tid"] == "none" else self.tid, D, M,
            c["swf"], c["ewl"], c["eil"], n_cores=c["cores"], build_mat_idx=bidx, shared_pars=self.shared_pars,
            shared_m=self.shared_m, T=T, pi=pi, Lrhoi=Lrhoi, scale=self.scale, event_template=self.template,
            hmp_fam=c["hmp_fam"], tvdtpi=self.tv)
        use = self.y
        if DEV["on"] and self.hmp and self.shared_pars:
            # known finding hmp-shared-signals: signal m is read from the m-th observation vector counted from the shared terms
            lst = [self.y[0]] * (len(self.shared_pars) * (1 if self.shared_m else M)) + list(self.y)
            use = lst[:M]
        self.yw = [(Lrhoi.T @ yy if Lrhoi is not None else yy) for yy in use]

    @staticmethod
    def _mixT(Ts, key, ss, t):
        X = Ts * (1 + 0.5 * gen((key, "Tt", ss, t), *Ts.shape))
        return X / X.sum(axis=1, keepdims=True)

    def _obs_kind(self):
        o = self.c["obs"]

        def f(j, m):
            if o == "mix":
                return "gamma" if m % 2 == 1 or self.c["M"] == 1 and j % 2 == 1 else "gau"
            if o == "mgmix":
                return "mg" if j % 2 == 0 else "gau"
            return o
        return f

    def Lrhoi(self, rho):
        N = sum(self.lens)
        d0 = np.full(N, 1 / np.sqrt(1 - rho ** 2))
        d1 = np.full(N - 1, -rho / np.sqrt(1 - rho ** 2))
        for s in self.sid:
            d0[s] = 1.0
            if s > 0:
                d1[s - 1] = 0.0
        return scp.sparse.csc_array(scp.sparse.diags_array([d0, d1], offsets=[0, 1]))

    # ------------------------------------------------------------------ reference quantities for one coefficient vector
    def quantities(self, coef=None, cdf=False):
        """Per series: LE[t, pos, j] (log emission), mean[t, m, pos, j], CDF[t, m, pos, j], lds[d, fam, t], lT[i, j, t], lpi[j]."""
        c, n_S, M, D = self.c, self.n_S, self.M, self.D
        coef = self.coef.ravel() if coef is None else np.asarray(coef).ravel()
        sc = np.split(coef, self.split)
        eta = [self.Xd[i] @ sc[i] for i in range(len(self.Xd))]
        dt = coef.dtype
        shared = {info: eta[i] for i, (k, info) in enumerate(self.par) if k == "shared"}

        def sh(par, m):
            if par not in self.shared_pars:
                return 0.0
            return shared[(par, 0)] if self.shared_m else shared[(par, m)]
        N = sum(self.lens)
        by = {}
        for i, (k, info) in enumerate(self.par):
            by.setdefault(k, {})[info] = eta[i]
        npos = 1
        if self.hmp:
            npos = max(c["w"], 2)
        LE = np.zeros((N, npos, n_S), dtype=dt)
        mean = np.zeros((N, M, npos, n_S), dtype=dt)
        CD = np.zeros((N, M, npos, n_S)) if cdf else None
        Y = np.column_stack(self.yw)
        starts = set(int(s) for s in self.sid)
        if self.hmp:
            rho = c["rho"]
            d0, d1 = (1.0, 0.0) if rho is None else (1 / np.sqrt(1 - rho ** 2), -rho / np.sqrt(1 - rho ** 2))
            tpl = self.template
            amp = np.zeros((N, M, n_S), dtype=dt)
            for j in range(1, n_S, 2):
                for m in range(M):
                    amp[:, m, j] = by["bump"][(j, m)] + sh(0, m)
            prev = np.zeros_like(amp)
            for t in range(N):
                if t not in starts:
                    prev[t] = amp[t - 1]
            for j in range(n_S):
                for p in range(npos):
                    for m in range(M):
                        if j % 2 == 1:
                            if p >= c["w"]:
                                continue
                            mu = d0 * tpl[p] * amp[:, m, j]
                            if p > 0:
                                mu = mu + d1 * tpl[p - 1] * prev[:, m, j]
                        else:
                            mu = np.zeros(N, dtype=dt)
                            if p == 0 and j > 0:
                                mu = mu + d1 * tpl[-1] * prev[:, m, j - 1]
                        mean[:, m, p, j] = mu
                        r = Y[:, m] - mu
                        if c["hmp_fam"] == "Gaussian":
                            LE[:, p, j] += gau_lp(Y[:, m], mu, np.sqrt(self.scale))
                            if cdf:
                                CD[:, m, p, j] = scp.stats.norm.cdf(np.real(r) / np.sqrt(self.scale))
                        else:
                            LE[:, p, j] += -np.log(self.scale) - r ** 2 / self.scale
                            if cdf:
                                CD[:, m, p, j] = -np.expm1(-np.real(r) ** 2 / self.scale)
        else:
            th = sc[-1] if self.n_theta else None
            off = 0
            for j in range(n_S):
                if self.obs_kind(j, 0) == "mg":
                    R = np.zeros((M, M), dtype=dt)
                    q = off
                    ld = 0.0
                    for a in range(M):
                        for b in range(a, M):
                            R[a, b] = np.exp(th[q]) if a == b else th[q]
                            if a == b:
                                ld = ld + th[q]
                            q += 1
                    off = q
                    mu = np.column_stack([by["mg"][(j, m)] + sh(0, m) for m in range(M)])
                    z = (Y - mu) @ R.T
                    LE[:, 0, j] = -0.5 * (z * z).sum(axis=1) + ld
                    mean[:, :, 0, j] = mu
                    if cdf:
                        CD[:, :, 0, j] = scp.stats.norm.cdf(np.real(z))
                    continue
                for m in range(M):
                    k = self.obs_kind(j, m)
                    e0 = by[k][(j, m, 0)] + sh(0, m)
                    e1 = by[k][(j, m, 1)] + sh(1, m)
                    if k == "gau":
                        mu, s2 = e0, fi("logb", e1)
                        LE[:, 0, j] += gau_lp(Y[:, m], mu, s2)
                        if cdf:
                            CD[:, m, 0, j] = scp.stats.norm.cdf(Y[:, m], np.real(mu), np.real(s2))
                    else:
                        mu, s2 = fi("log", e0), fi("logb", e1)
                        LE[:, 0, j] += gam_lp(Y[:, m], mu, s2)
                        if cdf:
                            a = 1 / np.real(s2)
                            CD[:, m, 0, j] = scp.stats.gamma.cdf(Y[:, m], a=a, scale=np.real(mu) / a)
                    mean[:, m, 0, j] = mu
        out = []
        nf = n_S * (1 if c["swf"] else 2)
        dv = np.arange(1, D)
        for s, (st, L) in enumerate(zip(self.sid, self.lens)):
            sl = slice(st, st + L)
            rows = list(range(st, st + L)) if self.tv else [s] * L
            lds = np.full((D - 1, nf, L), -np.inf, dtype=dt)
            mud = {}
            for f in range(nf):
                if self.hmp and f % 2 == 1:
                    lds[c["w"] - 1, f, :] = 0.0
                    continue
                mu = fi("log", by["dur"][(f, 0)])[rows]
                ph = fi("logb", by["dur"][(f, 1)])[rows]
                mud[f] = (mu, ph)
                for t in range(L):
                    lp = gam_lp(dv, mu[t], ph[t])
                    lds[:, f, t] = lp - lse(lp)
            lT = np.full((n_S, n_S, L), -np.inf, dtype=dt)
            if c["Tpi"] == "est":
                for j in range(n_S):
                    tgt = [i for i in range(n_S) if i != j]
                    for t in range(L):
                        e = np.array([0.0] + [by["T"][(j, k)][rows[t]] for k in range(n_S - 2)], dtype=dt)
                        lT[j, tgt, t] = e - lse(e)
                e = np.array([0.0] + [by["pi"][(k,)][rows[0]] for k in range(n_S - 1)], dtype=dt)
                lpi = e - lse(e)
            else:
                Ts = np.asarray(self.Tfix[s])
                with np.errstate(divide="ignore"):
                    lT = np.log(Ts[:, :, :L] if Ts.ndim == 3 else np.repeat(Ts[:, :, None], L, axis=2)).astype(dt)
                    lpi = np.log(self.pifix[s]).astype(dt)
            out.append(dict(LE=LE[sl], mean=mean[sl], CD=CD[sl] if cdf else None, lds=lds, lT=lT, lpi=lpi, Y=Y[sl], L=L, mud=mud))
        return out

    def series_logp(self, q, ewl=None, eil=None):
        c = self.c
        P = paths(q["L"], self.n_S, self.D, c["ewl"] if ewl is None else ewl, c["eil"] if eil is None else eil,
                  c["w"] if self.hmp else 0, bool(c.get("cyc")))
        if P.P == 0:
            return P, np.zeros(0)
        return P, P.logp(q["LE"], q["lds"], q["lT"], q["lpi"], self.n_S, c["swf"])

    def llc(self):
        """Log-determinant of the whitening transform of all signals."""
        if self.Lr is None:
            return 0.0
        d0 = self.Lr.diagonal()
        return self.M * float(np.log(d0).sum())

    def llk(self, coef=None):
        tot = 0.0
        for q in self.quantities(coef):
            _, lp = self.series_logp(q)
            tot = tot + lse(lp)
        return tot

    def grad(self):
        """Exact derivative of the enumerated log-likelihood (complex step)."""
        h = 1e-30
        base = self.coef.ravel().astype(complex)
        g = np.zeros(len(base))
        for i in range(len(base)):
            z = base.copy()
            z[i] += 1j * h
            g[i] = np.imag(self.llk(z)) / h
        return g

    def args(self):
        return [self.coef.copy(), self.split, [None if y is None else y.copy() for y in self.ys],
                [None if X is None else X.copy() for X in self.Xs]]
