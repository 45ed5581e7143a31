"""C07: model-matrix rows evaluate exactly the terms written in the formula (every formula of a bounded grammar)."""
import itertools
import numpy as np
import vmc
import gam_ref as G

LEVEL = "model_checking"
ASSUMPTIONS = ["Documented restrictions are respected: unpenalised smooths come first, factor columns have dtype object, by-variables of impulse responses are constant per series."]


def setup(c):
    d = G.make_data(c.get("na", "none"), perm=c.get("perm", False), salt=c.get("salt", 0))
    cb = c.get("cb")
    codebook = {v: {lv: (len(L) - 1 - k) if cb == "rev" else ((k * 2 + 1) % len(L) if len(L) % 2 else len(L) - 1 - k) for k, lv in enumerate(sorted(L))}
                for v, L in G.LEVELS.items()} if cb else None
    return d, codebook


def case(ctx, c):
    specs = c["terms"]
    d, cb = setup(c)
    ir = any(s[0] == "irf" for s in specs)
    F, P, X = G.build_formula(specs, d, codebook=cb, series_id="series" if ir else None, onsets=G.ONS)
    env = G.Env(d, G.variables_of(specs), codebook=cb, series_id="series" if ir else None, onsets=G.ONS)
    r = G.check_matrix(ctx, specs, X, env, F, drop_ok=G.overlapping(specs))
    ctx.outcome(X)
    if r is not None and G.overlapping(specs):
        nested_ok(ctx, c, X, r, env, F, d, cb, "series" if ir else None)


def nested_ok(ctx, c, X, r, env, F, d, cb, sid):
    """Columns removed from nested tensors are exactly the redundant ones."""
    F0, P0, X0 = G.build_formula(c["terms"], d, codebook=cb, series_id=sid, onsets=G.ONS, find_nested=False)
    rx, r0 = G.rank_of(X), G.rank_of(X0)
    ctx.expect(rx == r0, "removing nested columns changed the function space", f"rank {rx} instead of {r0}")
    for col in range(X.shape[1]):
        ctx.expect(np.min(np.max(np.abs(X0 - X[:, [col]]), axis=0)) < 1e-8, "a kept column is not a column of the full model matrix", f"column {col}")
    for v in (X, X0):
        ctx.outcome(v.shape[1])
    if c.get("full"):
        ctx.expect(rx == X.shape[1], "nested formula is still rank deficient", f"{rx} of {X.shape[1]}")


def space(thorough):
    sp = []
    for s in G.UNI:
        for na, perm, cb in itertools.product(("none", "y", "mix", "fac"), (False, True), (None, "rev", "rot")):
            if s[0] == "irf" and perm:
                continue
            sp.append(dict(terms=[s], na=na, perm=perm, cb=cb))
    for a, b in itertools.product(G.UNI, G.UNI):
        if a is b or not G.legal([a, b]):
            continue
        sp.append(dict(terms=[a, b], na="mix", cb=None))
    for tr in itertools.permutations(G.CORE, 3) if thorough else itertools.combinations(G.CORE, 3):
        for na, cb in (("none", None), ("mix", "rot")):
            sp.append(dict(terms=list(tr), na=na, cb=cb))
    if not thorough:
        for tr in itertools.combinations(G.CORE, 3):
            sp.append(dict(terms=list(reversed(tr)), na="fac", cb=None))
    for q in itertools.combinations(G.CORE, 4) if thorough else []:
        sp.append(dict(terms=list(q), na="mix", cb="rev"))
    for ns in G.NEST:
        for pre in ([], [G.T("i")], [G.T("i"), G.T("l", ["fac"])]):
            for na in ("none", "mix"):
                sp.append(dict(terms=pre + ns, na=na, nest=True))
                sp.append(dict(terms=list(reversed(ns)) + pre, na=na, nest=True))
    return sp


def run(chk):
    sp = space(chk.thorough)
    chk.explore("formulas", sp, case, bounds=f"every single term and ordered pair over {len(G.UNI)} term forms, all triples over {len(G.CORE)} core forms, nested tensors; 60 rows, 6 series", min_outcomes=1000)
