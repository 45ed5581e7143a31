"""C03: the decoded sequence is a most probable admissible segmentation (compared with every segmentation)."""
import numpy as np
import hsmm_ref as H
import c01

LEVEL = "model_checking"
ASSUMPTIONS = ["Decoding is only defined for data with at least one admissible path of positive probability."]


def case_vit(ctx, c):
    m = H.Model(c)
    qs = m.quantities()
    ref = []
    for q in qs:
        P, lp = m.series_logp(q)
        if P.P == 0 or np.isneginf(np.max(np.real(lp))):
            ctx.outcome("impossible")
            return
        ref.append((P, lp))
    for variant in range(2):
        if variant == 0:
            dec = m.fam.decode_viterbi(*m.args())
        else:
            if c["cores"] == 1 and (len(c["lens"]) < 2 or c["tv"] or c["n_S"] > 2):
                continue
            dec = m.fam.decode_viterbi(*m.args(), sid=m.sid, tid=m.tid, n_cores=1)
        ctx.expect(len(dec) == len(qs), "one decoded sequence per series", str(len(dec)))
        for s, (P, lp) in enumerate(ref):
            ed, st = dec[s]
            st = np.asarray(st).ravel().astype(int)
            ctx.state(P.P)
            ctx.trans(P.transitions)
            ctx.trace()
            if not ctx.expect(len(st) == P.n_T, "decoded sequence has one state per sample", f"{len(st)}"):
                continue
            hit = np.flatnonzero((P.states == st).all(axis=1) & (P.ed == int(ed)))
            if not ctx.expect(len(hit) > 0, "decoded sequence is not an admissible segmentation", f"series {s}: states {st.tolist()} remaining {int(ed)}"):
                continue
            best = np.max(lp)
            ctx.expect(np.max(lp[hit]) >= best - 1e-8 * max(1, abs(best)), "decoded sequence is not the most probable one",
                       f"series {s}: {st.tolist()} has log probability {np.max(lp[hit])}, best is {best} {P.segs[int(np.argmax(lp))]}")
            ctx.outcome((tuple(st.tolist()), int(ed)))


def run(chk):
    sp = []
    for c in c01.space(chk.thorough):
        if c["y"] == "zero":
            continue
        sp.append(c)
    # several data sets per boundary configuration so that different paths win
    for salt in range(2, 10 if not chk.thorough else 30):
        for fl in c01.FLAGS:
            for n_S, D, lens in ((2, 3, [5]), (3, 4, [5, 3]), (2, 5, [6])):
                for tv, Tpi in ((False, "list"), (True, "est"), (False, "est")):
                    sp.append(H.default_case(swf=fl[0], ewl=fl[1], eil=fl[2], n_S=n_S, D=D, lens=lens, tv=tv, Tpi=Tpi, salt=salt, y="far" if salt % 3 == 0 else "gen"))
            if fl[0]:
                for rho in (None, 0.4):
                    sp.append(H.default_case(kind="hmp", Tpi="fix", swf=True, ewl=fl[1], eil=fl[2], n_S=5, D=4, lens=[10], w=2, rho=rho, salt=salt))
                    sp.append(H.default_case(kind="hmp", Tpi="fix", swf=True, ewl=fl[1], eil=fl[2], n_S=3, D=5, lens=[8, 6], w=3, rho=rho, salt=salt, M=2))
    chk.explore("all-segmentations", sp, H.with_known(case_vit), bounds="n_S<=5, M<=3, D<=5, series length<=10, <=3 series", min_outcomes=50)
