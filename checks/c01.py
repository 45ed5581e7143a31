"""C01: HSMM log-likelihood = log of the sum over all admissible segmentations (explicit path enumeration)."""
import numpy as np
import hsmm_ref as H
from vmc import product

LEVEL = "model_checking"
ASSUMPTIONS = ["Correlated Gaussian emissions are compared without the constant -M/2 log(2 pi) per sample, which MultiGauss omits by design.",
               "Fixed transition matrices have a zero diagonal (durations are modelled explicitly)."]

FLAGS = [(True, False, False), (False, False, False), (True, True, False), (True, False, True), (True, True, True), (False, True, False),
         (False, False, True), (False, True, True)]


def space(thorough):
    """Enumerated configurations, simplest first; shared by the other HSMM checks."""
    cases = []

    def add(**kw):
        c = H.default_case(**kw)
        if c not in cases:
            cases.append(c)
    # (a) boundary options x number of states x durations x lengths, all T/pi sources
    for d in product(fl=FLAGS, n_S=[2, 3], D=[2, 3, 4], lens=[[1], [2], [4], [3, 2]], Tpi=["est", "fix", "list"], tv=[False, True]):
        fl = d.pop("fl")
        add(swf=fl[0], ewl=fl[1], eil=fl[2], **d)
    # (b) emission structures x boundary options
    for d in product(fl=FLAGS if thorough else FLAGS[:2] + FLAGS[4:5] + FLAGS[7:], M=[1, 2, 3], obs=["gau", "gamma", "mix", "mg", "mgmix"], shared=["", "mu", "mum", "both", "bothm"],
                     reuse=[False, True], n_S=[2, 3], tv=[False, True]):
        if d["obs"] in ("mg", "mgmix") and d["M"] == 1:
            continue
        if d["obs"] in ("mg", "mgmix") and d["shared"].startswith("both"):
            continue
        if d["obs"] == "mgmix" and d["shared"]:
            continue
        fl = d.pop("fl")
        add(swf=fl[0], ewl=fl[1], eil=fl[2], lens=[3, 4], D=4, Tpi="est" if d["n_S"] == 3 else "list", **d)
    # (c) longer series, larger state spaces
    for d in product(fl=FLAGS, n_S=[2, 3, 4], D=[3, 5], lens=[[5], [6, 1, 3]] if not thorough else [[5], [6, 1, 3], [7]], Tpi=["est", "list"]):
        fl = d.pop("fl")
        if d["n_S"] == 4 and max(d["lens"]) > (5 if not thorough else 6):
            d["lens"] = [5, 1, 3]
        add(swf=fl[0], ewl=fl[1], eil=fl[2], **d)
    # (d) zero probabilities, impossible data, sparse transitions, parallel workers
    for d in product(fl=FLAGS, Tpi=["fix", "list"], n_S=[2, 3], y=["gen", "ties", "far"]):
        fl = d.pop("fl")
        add(swf=fl[0], ewl=fl[1], eil=fl[2], sparseT=True, lens=[4, 3], D=3, **d)
    for d in product(fl=FLAGS[:2], obs=["gamma"], y=["zero"], lens=[[3], [2, 3]]):
        fl = d.pop("fl")
        add(swf=fl[0], ewl=fl[1], eil=fl[2], D=3, **d)
    for d in product(kindobs=["gau", "mg"], Tpi=["est", "list"], tv=[False, True], cores=[2, 3]):
        o = d.pop("kindobs")
        add(obs=o, M=2, n_S=3, lens=[3, 2, 4], D=3, reuse=True, **d)
    # explicit tid together with time-varying models
    for d in product(Tpi=["est", "list"], n_S=[2, 3]):
        add(tv=True, tid="sid", lens=[3, 4], D=3, **d)
    # (e) event-template (HMP) models
    for d in product(fl=[f for f in FLAGS if f[0]], n_S=[3, 5], w=[2, 3], M=[1, 2], rho=[None, 0.4], hmp_fam=["Gaussian", "Exponential"],
                     shared=["", "mu", "mum"], reuse=[False, True], lens=[[6, 8]] if not thorough else [[6, 8], [9, 7, 5]]):
        fl = d.pop("fl")
        if d["n_S"] == 5 and (d["reuse"] or d["M"] > 1 and d["w"] == 3) and not thorough:
            continue
        add(kind="hmp", swf=fl[0], ewl=fl[1], eil=fl[2], D=4, Tpi="fix", **d)
    for d in product(rho=[-0.3, 0.4, None], fl=[f for f in FLAGS if f[0]], Tpi=["list", "fix"], M=[1, 2]):
        fl = d.pop("fl")
        add(kind="hmp", swf=fl[0], ewl=fl[1], eil=fl[2], D=4, n_S=3, w=3, lens=[6, 7], **d)
    for d in product(rho=[0.4, None], fl=[f for f in FLAGS if f[0]], cores=[1, 2]):
        fl = d.pop("fl")
        add(kind="hmp", cyc=True, Tpi="fix", swf=fl[0], ewl=fl[1], eil=fl[2], D=4, n_S=3, w=2, lens=[8], **d)
    for d in product(rho=[0.4, None], fl=[f for f in FLAGS if f[0]], w=[2, 3]):
        fl = d.pop("fl")
        add(kind="hmp", tv=True, Tpi="fix", tvconst=False, swf=fl[0], ewl=fl[1], eil=fl[2], D=4, n_S=3, lens=[7], **d)
    return cases


def case_llk(ctx, c):
    m = H.Model(c)
    want = 0.0
    for q in m.quantities():
        P, lp = m.series_logp(q)
        ctx.state(P.P)
        ctx.trans(P.transitions)
        want = want + H.lse(lp)
    got = float(m.fam.llk(*m.args()))
    ctx.trace()
    if np.isneginf(want):
        ctx.expect(np.isneginf(got), "log-likelihood of impossible data must be -inf", f"got {got}")
        ctx.outcome("-inf")
        return
    ctx.close(got, want + m.llc(), "log-likelihood differs from the sum over all segmentations", rtol=1e-9, atol=1e-9)
    ctx.outcome(want)
    # the same series passed with explicit onsets
    got2 = float(m.fam.llk(*m.args(), sid=m.sid, tid=m.tid))
    ctx.close(got2, want + m.llc(), "log-likelihood with explicit series onsets differs", rtol=1e-9, atol=1e-9)


def case_probs(ctx, c):
    """compute_od_probs / compute_Tpi expose the same emission, duration, transition and initial probabilities."""
    m = H.Model(c)
    qs = m.quantities()
    for log in (True, False):
        od = m.fam.compute_od_probs(*m.args(), log=log)
        ctx.expect(len(od) == len(qs), "one entry per series", str(len(od)))
        for s, q in enumerate(qs):
            b, d = od[s]
            f = (lambda x: x) if log else np.exp
            if not m.hmp:
                ctx.close(b, f(q["LE"][:, 0, :]), f"emission probabilities of series {s}", rtol=1e-8)
            else:
                for j in range(1, m.n_S, 2):
                    ctx.close(b[:, :, j], f(q["LE"][:, :m.c["w"], j]), f"event emission probabilities of series {s}", rtol=1e-8)
                for j in range(0, m.n_S, 2):
                    ctx.close(b[:, 0, j], f(q["LE"][:, 1, j]), f"flat emission probabilities of series {s}", rtol=1e-8)
                    ctx.close(b[:, 1, j], f(q["LE"][:, 0, j]), f"flat onset emission probabilities of series {s}", rtol=1e-8)
            ctx.close(d, f(q["lds"] if m.tv else q["lds"][:, :, 0]), f"duration probabilities of series {s}", rtol=1e-8)
            ctx.close(np.exp(q["lds"]).sum(axis=0), np.ones(q["lds"].shape[1:]), "reference durations sum to one")
        ctx.trace()
    tp = m.fam.compute_Tpi(*m.args())
    for s, q in enumerate(qs):
        T, pi = tp[s]
        Tw = np.exp(q["lT"])
        ctx.close(T[:, :, :q["L"]] if np.ndim(T) == 3 else T, Tw if np.ndim(T) == 3 else Tw[:, :, 0], f"transition probabilities of series {s}", rtol=1e-8)
        ctx.close(np.asarray(pi).ravel(), np.exp(q["lpi"]), f"initial probabilities of series {s}", rtol=1e-8)
        ctx.state(T.size)
        ctx.outcome(np.round(Tw[:, :, 0], 6))
    ctx.trace()


def run(chk):
    sp = space(chk.thorough)
    chk.explore("segmentation-sum", sp, H.with_known(case_llk), bounds="n_S<=5, M<=3, D<=5, series length<=9, <=3 series", min_outcomes=50)
    chk.explore("state-probabilities", [c for c in sp if c["cores"] in (1, 2) and c["y"] != "zero"], H.with_known(case_probs),
                bounds="same configurations", min_outcomes=20)
