"""C05: forward and predictive residuals against explicit enumeration of path prefixes; duration residuals against decoded segments."""
import numpy as np
import scipy as scp
import hsmm_ref as H
import c01

LEVEL = "model_checking"
ASSUMPTIONS = ["Path prefixes that can no longer satisfy an end restriction are excluded from sample 1 on, as in the likelihood recursion.",
               "The first predictive residual is reported unstandardised.",
               "Residuals of auto-correlated event-template models refer to the whitened data."]


def prefix_quantities(ctx, m, q):
    c = m.c
    L, n_S, D, M = q["L"], m.n_S, m.D, m.M
    F = np.zeros((L, M))
    E = np.zeros((L, M))
    den = 0.0
    for t in range(L):
        P = H.paths(t + 1, n_S, D, False, False, c["w"] if m.hmp else 0, bool(c.get("cyc")))
        LEz = q["LE"].copy()
        lp_full = P.logp(q["LE"], q["lds"], q["lT"], q["lpi"], n_S, c["swf"])
        pos = np.minimum(P.pos[:, t], LEz.shape[1] - 1)
        last = P.states[:, t]
        lp_prev = lp_full - q["LE"][t, pos, last]
        LEz[t] = 0.0
        lp_prev = P.logp(LEz, q["lds"], q["lT"], q["lpi"], n_S, c["swf"])
        ok = np.ones(P.P, bool)
        if c["ewl"] and t >= 1:
            ok &= P.ed + t + 1 <= L
        if t == L - 1:
            if c["ewl"]:
                ok &= P.ed == 0
            if c["eil"]:
                ok &= last == n_S - 1
        wp = np.where(ok, np.exp(lp_prev - den), 0.0)
        for mm in range(M):
            F[t, mm] = np.sum(wp * q["CD"][t, mm, pos, last])
            E[t, mm] = np.sum(wp * np.real(q["mean"][t, mm, pos, last]))
        den = H.lse(np.where(ok, lp_full, -np.inf))
        ctx.state(P.P)
        ctx.trans(P.transitions)
        if np.isneginf(den) and t < L - 1:
            return None
    return F, E


def case_resid(ctx, c):
    m = H.Model(c)
    Fs, Rs = [], []
    for q in m.quantities(cdf=True):
        r = prefix_quantities(ctx, m, q)
        P, lp = m.series_logp(q)
        if r is None or P.P == 0 or np.isneginf(H.lse(lp)):
            ctx.outcome("impossible")
            return
        F, E = r
        Fs.append(F)
        inc = q["Y"] - E
        cum = np.cumsum(inc, axis=0)
        sd = np.sqrt(np.cumsum(inc ** 2, axis=0))
        R = cum / sd
        R[0] = cum[0]
        Rs.append(R)
    F, R = np.concatenate(Fs), np.concatenate(Rs)
    ctx.close(m.fam.get_resid(*m.args(), resid_type="forward", transform_to_normal=False), F, "forward residuals", rtol=1e-7, atol=1e-9)
    ctx.close(m.fam.get_resid(*m.args(), resid_type="forward", transform_to_normal=True), scp.stats.norm.ppf(F), "normalised forward residuals",
              rtol=1e-5, atol=1e-6)
    ctx.close(m.fam.get_resid(*m.args(), resid_type="predictive"), R, "predictive residuals", rtol=1e-6, atol=1e-7)
    ctx.trace(3)
    ctx.outcome(F)


def gamma_resid(d, mu, ph):
    """Signed root of the scaled Gamma deviance."""
    dev = 2 * ((d - mu) / mu - np.log(d / mu))
    return np.sign(d - mu) * np.sqrt(dev / ph)


def dur_avg(m, q, states):
    c, n_S = m.c, m.n_S
    segs, t = [], 0
    st = list(states)
    while t < len(st):
        e = t
        while e < len(st) and st[e] == st[t]:
            e += 1
        segs.append((st[t], e - t, t))
        t = e
    out = np.full(n_S, np.nan)
    acc = {}
    for k, (j, d, t) in enumerate(segs):
        f = j if (k == 0 or c["swf"]) else j + n_S
        if f in q["mud"]:
            mu, ph = q["mud"][f]
            acc.setdefault(j, []).append(gamma_resid(d, np.real(mu[t]), np.real(ph[t])))
    for j, v in acc.items():
        out[j] = np.mean(v)
    return out


def case_dur(ctx, c):
    m = H.Model(c)
    qs = m.quantities()
    want = []
    uniq = []
    for q in qs:
        P, lp = m.series_logp(q)
        ctx.state(P.P)
        ctx.trans(P.transitions)
        if P.P == 0 or np.isneginf(np.max(lp)):
            ctx.outcome("impossible")
            return
        o = np.sort(lp)
        uniq.append(len(o) < 2 or o[-1] - o[-2] > 1e-6)
        want.append(dur_avg(m, q, P.states[int(np.argmax(lp))]))
    got = m.fam.get_resid(*m.args(), resid_type="viterbi_dur")
    for s in range(len(qs)):
        if uniq[s]:
            ctx.close(got[s], want[s], f"duration residuals of the decoded segments of series {s}", rtol=1e-6, atol=1e-8)
    ctx.trace()
    got = m.fam.get_resid(*m.args(), resid_type="posterior_dur", n_samples=6, seed=5)
    smp = m.fam.sample_posterior_states(*m.args(), n_samples=6, seed=5)
    for s, q in enumerate(qs):
        w = np.stack([dur_avg(m, q, np.asarray(smp[s][1])[:, i]) for i in range(6)], axis=1)
        ctx.close(got[s], w, f"duration residuals of the sampled sequences of series {s}", rtol=1e-6, atol=1e-8)
    ctx.trace()
    ctx.outcome(np.nan_to_num(np.array(want)))


def run(chk):
    sp = [c for c in c01.space(chk.thorough) if c["y"] != "zero" and (c["n_S"] < 4 or c["kind"] == "hmp")]
    chk.explore("path-prefixes", sp, H.with_known(case_resid), bounds="n_S<=5, M<=3, D<=5, series length<=9", min_outcomes=50)
    ds = [c for c in sp if c["D"] >= 3 and not c["shared"] and not c["reuse"] and c["M"] <= 2]
    chk.explore("duration-residuals", ds, H.with_known(case_dur), bounds="same configurations without shared terms", min_outcomes=30)
