"""C08: names, counts, column blocks and penalty placement agree with the model matrix (every formula of the bounded grammar)."""
import numpy as np
import gam_ref as G
import c07

LEVEL = "model_checking"
ASSUMPTIONS = ["Same formula space and documented restrictions as C07.",
               "The scale of tensor penalties that the package normalises (scale_te) is free up to the documented normalisation."]


def case(ctx, c):
    specs = c["terms"]
    d, cb = c07.setup(c)
    sid = "series" if any(s[0] == "irf" for s in specs) else None
    F, P, X = G.build_formula(specs, d, codebook=cb, series_id=sid, onsets=G.ONS)
    env = G.Env(d, G.variables_of(specs), codebook=cb, series_id=sid, onsets=G.ONS)
    r = G.check_matrix(ctx, specs, X, env, F, drop_ok=G.overlapping(specs))
    if r is None:
        return
    order, out, nd = r
    n = X.shape[1]
    ctx.expect(F.n_coef == n, "declared number of coefficients", f"{F.n_coef} for {n} columns")
    ctx.expect(len(F.coef_names) == n, "number of coefficient names", f"{len(F.coef_names)} for {n} columns")
    want_names, unpen = [], 0
    for j in order:
        ci, width, Ms, t, dropped = out[j]
        ctx.expect(F.coef_per_term[j] == width, "coefficients per term", f"term {j}: {F.coef_per_term[j]} instead of {width}")
        ctx.expect(list(F.coef_idx_per_term[j]) == list(range(ci, ci + width)), "column block of a term", f"term {j}: {list(F.coef_idx_per_term[j])} instead of {ci}..{ci + width - 1}")
        if not t.penalized:
            unpen += width
        if t.kind == "irf":
            lab = "_".join(t.args[0])
            names = [f"irf_{j}_{lab}_{q}" + (f"_{lv}" if lv is not None else "") for lv in t.lev for q in range(t.m)]
        else:
            names = t.names
        if dropped is not None:
            got = F.coef_names[ci:ci + width]
            ctx.expect(len(set(got)) == width and set(got) <= set(names) and [q for q in names if q in set(got)] == list(got), "names of kept columns", f"term {j}: {got}")
            k = 0
            for b, lv in enumerate(t.lev):
                ctx.expect(lv is None or all(q.endswith(f"_{lv}") for q in got[k:k + Ms[b].shape[1]]), "kept columns are named after another level", f"term {j} {lv}: {got}")
                k += Ms[b].shape[1]
        else:
            if len(set(names)) == len(names):
                ctx.expect(list(F.coef_names[ci:ci + width]) == names, "coefficient names", f"term {j} {t.spec}: {list(F.coef_names[ci:ci + width])[:8]} instead of {names[:8]}")
    ctx.expect(F.unpenalized_coef == unpen, "number of unpenalised coefficients", f"{F.unpenalized_coef} instead of {unpen}")
    G.check_penalties(ctx, specs, P, order, out, n)
    ctx.outcome(tuple((p.id, p.start_index, p.rep_sj) for p in P) + (n,))


def run(chk):
    sp = c07.space(chk.thorough)
    chk.explore("formulas", sp, case, bounds=f"every single term and ordered pair over {len(G.UNI)} term forms, all triples over {len(G.CORE)} core forms, nested tensors; 60 rows, 6 series", min_outcomes=200)
