"""C02: HSMM gradient = derivative of the enumerated log-likelihood (complex-step on the path sum)."""
import numpy as np
import hsmm_ref as H
import c01

LEVEL = "model_checking"
ASSUMPTIONS = ["Derivatives of the reference path sum are taken by complex step (exact to rounding).",
               "Data of probability zero (log-likelihood -inf) are excluded: the derivative does not exist there."]


def case_grad(ctx, c):
    m = H.Model(c)
    for q in m.quantities():
        P, lp = m.series_logp(q)
        ctx.state(P.P)
        ctx.trans(P.transitions)
        if P.P == 0 or np.isneginf(H.lse(lp)):
            ctx.outcome("impossible")
            return
    want = m.grad()
    got = m.fam.gradient(*m.args())
    ctx.trace()
    ctx.expect(np.shape(got) == (len(want), 1), "gradient has one entry per coefficient", f"{np.shape(got)} vs {len(want)}")
    ctx.close(np.asarray(got).ravel(), want, "gradient differs from the derivative of the path sum", rtol=1e-7, atol=1e-8)
    ctx.outcome(want)


def run(chk):
    sp = [c for c in c01.space(chk.thorough) if c["y"] != "zero"]
    chk.explore("path-sum-derivative", sp, H.with_known(case_grad), bounds="n_S<=5, M<=3, D<=5, series length<=9, <=3 series", min_outcomes=50)
