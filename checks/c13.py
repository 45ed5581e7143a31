"""C13: penalties measure exactly the roughness they advertise (all orders, sizes, constraints, tensor positions within bounds)."""
import itertools
import numpy as np
import scipy as scp
import vmc
import gam_ref as G
import c07

LEVEL = "model_checking"
ASSUMPTIONS = ["Distance weights of identity penalties are positive.", "Basis sizes 2..9 (12 thorough), difference orders 0..4.",
               "Difference constraints with re-parameterised tensors use odd marginal sizes: for even sizes the package's own grid interpolation is singular."]
FN = {"sq": lambda i: float(i * i), "inv": lambda i: 1.0 / i, "exp": lambda i: float(np.exp(-i / 3.0))}


def mat(data, rows, cols, shape):
    return np.asarray(scp.sparse.csc_array((np.array(data, float), (np.array(rows, int), np.array(cols, int))), shape=shape).todense())


def poly_null(n, m):
    """Basis of the discrete polynomials of degree < m."""
    t = np.linspace(-1, 1, n)
    return np.stack([t ** k for k in range(m)], axis=1) if m else np.zeros((n, 0))


def mk_constraint(c, n):
    from mssm.src.python.custom_types import Constraint, ConstType
    con = c["con"]
    if con == "none":
        return None, np.eye(n)
    if con == "QR":
        v = vmc.gen(("c13", n, c["z"]), n, lo=0.1, hi=1.0) if c["z"] else np.ones(n)
        Z = np.linalg.qr(v[:, None], mode="complete")[0][:, 1:]
        return Constraint(Z, ConstType.QR), Z
    z = c["z"]
    if con == "DROP":
        return Constraint(z, ConstType.DROP), np.delete(np.eye(n), z, axis=1)
    idx = [(z + j) % n for j in range(n)]
    M = np.zeros((n, n - 1))
    for j in range(n - 1):
        M[idx[j + 1], j] += 1
        M[idx[j], j] -= 1
    return Constraint(z, ConstType.DIFF), np.roll(M, z, axis=1)


def judge(ctx, S, D, rank, want, n_eff, what):
    sc = max(1.0, np.abs(want).max())
    ctx.close(S, want, f"{what}: penalty of a coefficient differs from the penalty of its function", atol=1e-8 * sc, rtol=1e-8)
    ctx.close(S, S.T, f"{what}: not symmetric", atol=1e-10 * sc)
    ctx.close(D @ D.T, S, f"{what}: root does not reproduce the penalty", atol=1e-7 * sc, rtol=1e-7)
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    ctx.expect(ev.min() > -1e-9 * sc, f"{what}: not positive semi-definite", f"{ev.min()}")
    r = int(np.sum(ev > 1e-9 * max(ev.max(), 1e-300)))
    if rank is not None:
        ctx.expect(rank == r, f"{what}: declared rank", f"declared {rank}, rank {r}")
    ctx.state()


def diff_case(ctx, c):
    from mssm.src.python.penalties import DifferencePenalty
    n, m = c["n"], c["m"]
    con, M = mk_constraint(c, n)
    pd, pr, pc, cd, cr, cc, rank = DifferencePenalty().constructor(n, con, m=m) if c["kw"] else DifferencePenalty().constructor(n, con)
    k = M.shape[1]
    S = mat(pd, pr, pc, (k, k))
    ncol = max(list(cc), default=0) + 1
    ctx.expect(ncol <= k, "root is not embeddable", f"{ncol} columns for {k} coefficients")
    D = mat(cd, cr, cc, (k, max(ncol, k)))
    K = G.diffpen(n, m)
    N = poly_null(n, m)
    ctx.expect(np.max(np.abs(K @ N), initial=0) < 1e-8, "reference")   # the reference itself annihilates the polynomials
    judge(ctx, S, D, rank, M.T @ K @ M, k, "difference penalty")
    if c["con"] == "none":
        ev, U = np.linalg.eigh(S)
        ctx.expect(int(np.sum(ev < 1e-8 * max(1, ev.max()))) == m, "null space dimension", f"{np.sum(ev < 1e-8)} instead of {m}")
        ctx.expect(np.max(np.abs(S @ N), initial=0) < 1e-8 * max(1, ev.max()), "polynomials of lower degree are penalised", "")
        if m == 0:
            ctx.close(S, np.eye(n), "order zero is the identity")
    ctx.outcome((n, m, c["con"], round(float(np.trace(S)), 6)))


def id_case(ctx, c):
    from mssm.src.python.penalties import IdentityPenalty
    from mssm.src.python.custom_types import PenType
    n = c["n"]
    con, M = mk_constraint(c, n)
    k = M.shape[1]
    fn = FN.get(c["f"])
    pd, pr, pc, cd, cr, cc, rank = IdentityPenalty(PenType[c["t"]]).constructor(n, con, **({} if fn is None else {"f": fn}))
    want = np.eye(k) if fn is None else np.diag([fn(i + 1) for i in range(k)])
    judge(ctx, mat(pd, pr, pc, (k, k)), mat(cd, cr, cc, (k, k)), rank, want, k, "identity penalty")
    ctx.outcome((n, c["f"], k))


def tp_case(ctx, c):
    from mssm.src.python.penalties import DifferencePenalty, TP_pen
    ks, j, m = c["ks"], c["j"], c["m"]
    pd, pr, pc, cd, cr, cc, rank = DifferencePenalty().constructor(ks[j], None, m=m)
    n = ks[j]
    S = scp.sparse.csc_array((np.array(pd, float), (pr, pc)), shape=(n, n))
    D = scp.sparse.csc_array((np.array(cd, float), (cr, cc)), shape=(n, n))
    K = int(np.prod(ks))
    con, M = mk_constraint(dict(con=c["con"], z=c["z"] if c["con"] == "QR" else K // 2), K)
    pd, pr, pc, cd, cr, cc = TP_pen(S.copy(), D.copy(), j, list(ks), con, c["scale"])
    ref = np.eye(1)
    B = G.diffpen(n, m)
    if c["scale"]:
        B = B / np.linalg.eigvalsh(B).max()
    for q, k in enumerate(ks):
        ref = np.kron(ref, B if q == j else np.eye(k))
    k = M.shape[1]
    judge(ctx, mat(pd, pr, pc, (k, k)), mat(cd, cr, cc, (k, max(list(cc)) + 1)), None, M.T @ ref @ M, k, "tensor penalty")
    ctx.expect(max(list(cc)) + 1 <= k, "root is not embeddable", f"{max(list(cc)) + 1} columns for {k}")
    ctx.outcome((tuple(ks), j, m, c["con"], c["scale"]))


def term_case(ctx, c):
    """A whole term: constraint, re-parameterisation and penalty together (function-level penalty values)."""
    specs = [c["term"]]
    d, cb = c07.setup(c)
    F, P, X = G.build_formula(specs, d, onsets=G.ONS)
    env = G.Env(d, G.variables_of(specs), onsets=G.ONS)
    r = G.check_matrix(ctx, specs, X, env, F)
    if r is None:
        return
    order, out, _ = r
    G.check_penalties(ctx, specs, P, order, out, X.shape[1])
    ci, width, Ms, t, dropped = out[0]
    if t.constraint is not None and t.te + (len(t.V) == 1):
        full = G.rank_of(t.plain[env.ok])
        for mk in t.masks[:1]:
            if full == t.plain.shape[1]:
                lost = full - G.rank_of(t.plain[env.ok] @ Ms[0])
                ctx.expect(lost == 1, "the constraint does not remove exactly one dimension", f"{lost}")
                one = np.linalg.lstsq(t.plain[env.ok] @ Ms[0], np.ones(int(env.ok.sum())), rcond=None)
                res = np.abs(t.plain[env.ok] @ Ms[0] @ one[0] - 1).max()
                if not (t.te and t.rp and t.constraint != "QR"):
                    ctx.expect(res > 1e-6, "the constant is still in the span of the constrained smooth", f"residual {res}")
    ctx.outcome((width, tuple(p.rank for p in P)))


def terms(thorough):
    out = []
    for con, nk, deg, rp in itertools.product(("QR", "DROP", "DIFF", None), range(3, 10 if thorough else 8), (1, 2, 3), (0, 1)):
        for pens in ([1], [2], [3], [2, 1], ["I"]) if rp == 0 else ([1], [2], [3]):
            raw = nk + (con is not None)
            if con == "DIFF" and "I" in pens:   # documented: the identity penalty never absorbs constraints
                continue
            if deg + 1 > raw or (pens[0] != "I" and max(pens) >= raw) or (rp and pens[0] >= nk):
                continue
            kw = dict(nk=nk, basis_kwargs={"deg": deg}, pens=pens, rp=rp, **(dict(constraint=con) if con else dict(identifiable=False)))
            for extra in ({}, {"penalize_null": True}, {"by": "cond"}, {"by": "cond", "id": 1}, {"by_cont": "w"}) if thorough or (deg == 3 and nk < 7) else ({}, {"penalize_null": True}):
                if len(pens) > 1 and extra.get("penalize_null"):
                    continue
                out.append(G.T("f", ["x"], **kw, **extra))
    for con, nk, deg, rp, te, sc in itertools.product(("QR", "DROP", "DIFF", None), ([3, 3], [3, 4], [4, 3], [4, 4]), (1, 2), (0, 2), (True, False), (True, False)):
        if con == "DIFF" and (rp == 2 or te):
            continue
        if con == "DIFF" and rp == 0 and te:
            continue
        for m in (1, 2):
            if m == 2 and te and min(nk) < 3:
                continue
            kw = dict(nk=nk, basis_kwargs={"deg": deg}, pens=[m], rp=rp, te=te, scale_te=sc, **(dict(constraint=con) if con else dict(identifiable=False)))
            out.append(G.T("f", ["x", "z"], **kw))
            if thorough:
                out.append(G.T("f", ["x", "z"], by="cond", **kw))
                out.append(G.T("f", ["x", "z"], penalize_null=True, **kw))
    return out


def run(chk):
    th = chk.thorough
    top = 13 if th else 10
    cons = lambda n: [("none", 0), ("QR", 0), ("QR", 1), ("QR", 2)] + [(k, z) for k in ("DROP", "DIFF") for z in range(1, n)] + [("DROP", 0)]
    sp = [dict(n=n, m=m, con=k, z=z, kw=True) for n in range(2, top) for m in range(0, min(5, n)) for k, z in cons(n) if not (k == "DIFF" and m == 0) and not (k != "none" and n - m < 1)]
    sp += [dict(n=n, m=2, con="none", z=0, kw=False) for n in range(3, top)]
    chk.explore("difference", sp, diff_case, bounds=f"n 2..{top - 1}, order 0..4, every constraint and every dropped / differenced index", min_outcomes=50)
    sp = [dict(n=n, t=t, f=fn, con=k, z=z) for n in range(2, top) for t in ("IDENTITY", "DISTANCE") for fn in (None, "sq", "inv", "exp") for k, z in (("none", 0), ("QR", 1), ("DROP", 1), ("DIFF", 1))]
    chk.explore("identity", sp, id_case, bounds=f"n 2..{top - 1}, weights none/square/inverse/exponential", min_outcomes=20)
    sizes = (2, 3, 4, 5) if th else (2, 3, 4)
    sp = [dict(ks=list(ks), j=j, m=m, con=con, z=z, scale=s) for L in (2, 3) for ks in itertools.product(sizes, repeat=L) for j in range(L) for m in (1, 2) if ks[j] > m
          for con, z in (("none", 0), ("QR", 0), ("QR", 1), ("DROP", 0), ("DIFF", 0)) for s in (True, False)]
    chk.explore("tensor", sp, tp_case, bounds=f"2-3 marginals of sizes {sizes}, every position, order 1-2, every constraint", min_outcomes=50)
    sp = [dict(term=t, na=na, salt=s) for t in terms(th) for na in ("none", "mix") for s in (0, 1)]
    chk.explore("terms", sp, term_case, bounds="univariate nk 3..7, degree 1-3, order 1-3; tensors of 3-4 marginals; all constraints and re-parameterisations", min_outcomes=20)
