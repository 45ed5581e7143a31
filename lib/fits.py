"""Small models of every class and family on deterministic data, plus dense references for what a fit reports."""
import contextlib
import io
import warnings
import numpy as np
import pandas as pd
import scipy as scp
from scipy import stats
import vmc
import gam_ref as G


def unif(key, n):
    return np.clip(vmc.gen(key, n, lo=0.0, hi=1.0), 1e-6, 1 - 1e-6)


def data(salt=0, n_per=12, series=6, lens=None):
    """One data frame with covariates and one response per family."""
    d = G.make_data(salt=salt, n_per=n_per, lens=lens)
    n = len(d)
    x, z = d["x"].to_numpy(), d["z"].to_numpy()
    fac = d["fac"].map({"lo": 0.0, "hi": 0.6, "mid": -0.5}).to_numpy()
    sub = d["sub"].map({"s1": 0.3, "s2": -0.2, "s3": 0.1, "s4": -0.3}).to_numpy()
    eta = 0.6 + 0.8 * np.sin(4 * x) + 0.4 * fac + 0.5 * sub + 0.04 * z
    u, v = unif(("u", salt, n), n), unif(("v", salt, n), n)
    d["y"] = eta + stats.norm.ppf(u) * 0.5
    d["y2"] = 0.4 - eta * 0.3 + stats.norm.ppf(v) * 0.7 + 0.4 * stats.norm.ppf(u)
    d["yv"] = eta + stats.norm.ppf(u) * np.exp(-0.6 + 0.5 * x)
    mu = np.exp(0.5 * eta)
    d["ypos"] = stats.gamma.ppf(u, 4.0, scale=mu / 4.0)
    d["ycnt"] = stats.poisson.ppf(u, mu).astype(float)
    p = 1 / (1 + np.exp(-(eta - 0.6)))
    d["ybin"] = (u < p).astype(float)
    d["ycat"] = np.where(u < 0.3 * p + 0.1, 0, np.where(v < 0.5, 1, 2)).astype(float)
    d["t"] = np.maximum(stats.expon.ppf(u) / np.exp(0.4 * eta), 1e-3)
    d["delta"] = (v < 0.75).astype(int)
    d["off"] = 0.3 * np.cos(7 * x) + 0.1
    return d


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def formula(lhs, specs, d, **kw):
    from mssm.src.python.formula import Formula, lhs as LHS
    series = kw.pop("series_id", None)
    irf = any(s[0] == "irf" for s in specs)
    onsets = kw.pop("onsets", G.ONS if irf else None)
    if irf:
        series = "series"
    with quiet():
        return Formula(LHS(lhs), [G.make_term(s, onsets) for s in specs], d, series_id=series, print_warn=False, **kw)


def gamm_family(name, link=None):
    from mssm.src.python import exp_fam as E
    L = {None: None, "Identity": E.Identity, "LOG": E.LOG, "Logit": E.Logit}[link]
    if name == "Gaussian":
        return E.Gaussian(link=L()) if L else E.Gaussian()
    if name == "ScaledT":
        return E.ScaledT()
    return getattr(E, name)(link=L()) if L else getattr(E, name)()


LHS = {"Gaussian": "y", "Gamma": "ypos", "InvGauss": "ypos", "Poisson": "ycnt", "Binomial": "ybin", "ScaledT": "y",
       "GAUMLSS": "yv", "GAMMALS": "ypos", "MULNOMLSS": "ycat", "PropHaz": "delta", "MultiGauss": "y"}


def gamm(fam, specs, d, link=None, fkw=None, **fit):
    from mssm.models import GAMM
    lhs = "ypos" if (fam == "Gaussian" and link == "LOG") else LHS[fam]
    m = GAMM(formula(lhs, specs, d, **(fkw or {})), gamm_family(fam, link))
    with quiet():
        m.fit(progress_bar=False, n_cores=1, **fit)
    return m


def lss_family(name):
    from mssm.src.python import exp_fam as E
    if name == "GAUMLSS":
        return E.GAUMLSS([E.Identity(), E.LOG()])
    if name == "GAMMALS":
        return E.GAMMALS([E.LOG(), E.LOGb(-0.001)])
    return E.MULNOMLSS(2)


def gammlss(fam, specs2, d, fkw=None, **fit):
    from mssm.models import GAMMLSS
    m = GAMMLSS([formula(LHS[fam], s, d, **(fkw or {})) for s in specs2], lss_family(fam))
    with quiet():
        m.fit(progress_bar=False, n_cores=1, **fit)
    return m


def gsmm(kind, specs2, d, fkw=None, **fit):
    from mssm.models import GSMM
    from mssm.src.python import exp_fam as E
    from mssm.src.python.utils import GAMLSSGSMMFamily
    if kind.startswith("wrap:"):
        fam = GAMLSSGSMMFamily(2, lss_family(kind[5:]))
        forms = [formula(LHS[kind[5:]], s, d, **(fkw or {})) for s in specs2]
    elif kind == "PropHaz":
        d = d.sort_values("t", ascending=False, kind="stable").reset_index(drop=True)
        ut, r = np.unique(d["t"].to_numpy(), return_inverse=True)
        ut = np.flip(ut)
        r = len(ut) - 1 - r
        fam = E.PropHaz(ut, r)
        forms = [formula("delta", specs2[0], d, **(fkw or {}))]
    else:
        fam = E.MultiGauss(2, [E.Identity(), E.Identity()])
        forms = [formula("y", specs2[0], d, **(fkw or {})), formula("y2", specs2[1], d, **(fkw or {}))]
    m = GSMM(forms, fam)
    with quiet():
        m.fit(progress_bar=False, n_cores=1, **fit)
    return m


def pen_matrix(m, n=None):
    n = n or (m.hessian.shape[1] if m.hessian is not None else len(m.coef))
    S = np.zeros((n, n))
    for p in m.overall_penalties or []:
        S = S + p.lam * G.dense(p.S_J_emb)
    return S
