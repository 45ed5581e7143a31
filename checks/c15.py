"""C15: sparse factorisations, solves, traces and rank decisions against dense linear algebra."""
import itertools
import numpy as np
import scipy as scp
import vmc
import gam_ref as G

LEVEL = "model_checking"
ASSUMPTIONS = ["Condition numbers of the explored positive-definite systems stay below 1e8; rank-deficient systems are exactly deficient (integer or repeated columns)."]


def csc(A):
    A = scp.sparse.csc_array(np.asarray(A, dtype=float))
    A.sort_indices()
    return A


def mrank(A):
    return 0 if A.size == 0 else int(np.linalg.matrix_rank(A))


def pattern(n, code):
    A = np.zeros((n, n), bool)
    for b, (i, j) in enumerate(itertools.combinations(range(n), 2)):
        if code >> b & 1:
            A[i, j] = A[j, i] = True
    return A


def tri(ctx, M, up, what):
    ctx.expect(np.abs(np.tril(M, -1) if up else np.triu(M, 1)).max(initial=0) == 0, what + " is not triangular")


def perm_ok(ctx, Pr, n, what):
    ctx.expect(sorted(int(q) for q in Pr) == list(range(n)), what + ": pivot is not a permutation", f"{list(Pr)}")


def spd_case(ctx, c):
    from mssm.src.python import matrix_solvers as ms
    n = c["n"]
    pat = pattern(n, c["code"])
    for sc in (1.0, 1e-5, 1e5):
        V = vmc.gen(("spd", n, c["code"]), n, n, lo=0.3, hi=1.4) * np.where(vmc.gen(("sg", n, c["code"]), n, n) > 0, 1, -1)
        A = np.where(pat, np.tril(V, -1) + np.tril(V, -1).T, 0.0)
        A = A + np.diag(np.abs(A).sum(axis=1) + vmc.gen(("dg", n), n, lo=0.2, hi=1.0))
        A = A * sc
        As = csc(A)
        L, code = ms.cpp_chol(As)
        ctx.expect(code == 0, "Cholesky of a positive-definite matrix fails")
        L = L.toarray()
        tri(ctx, L, False, "Cholesky factor")
        tol = 1e-11 * sc
        ctx.close(L @ L.T, A, "L L' is not A", atol=tol)
        ctx.expect((np.diag(L) > 0).all(), "diagonal of the factor is not positive")
        Lp, Pr, code = ms.cpp_cholP(As)
        ctx.expect(code == 0, "pivoted Cholesky of a positive-definite matrix fails")
        perm_ok(ctx, Pr, n, "pivoted Cholesky")
        P = ms.compute_eigen_perm(Pr).toarray()
        tri(ctx, Lp.toarray(), False, "pivoted Cholesky factor")
        ctx.close(P.T @ Lp.toarray() @ Lp.toarray().T @ P, A, "P' L L' P is not A", atol=tol)
        Ai = np.linalg.inv(A)
        Linv = ms.compute_Linv(Lp)
        ctx.close(Linv.toarray() @ Lp.toarray(), np.eye(n), "inverse of the factor", atol=1e-10)
        LiP = ms.apply_eigen_perm(Pr, Linv).toarray()
        ctx.close(LiP.T @ LiP, Ai, "root of the inverse", rtol=1e-8, atol=1e-10 / sc)
        B, rank, code = ms.cpp_solve_qr(As)
        ctx.expect(code == 0 and rank == n, "QR solve of a full-rank matrix", f"code {code} rank {rank}")
        ctx.close(B.toarray(), Ai, "inverse by QR", rtol=1e-7, atol=1e-9 / sc)
        Li, Pr2, code = ms.cpp_solve_LXX(As)
        ctx.expect(code == 0, "solve_LXX fails")
        LiP = ms.apply_eigen_perm(Pr2, Li).toarray()
        ctx.close(LiP.T @ LiP, Ai, "inverse of the pivoted factor (pre-computed)", rtol=1e-8, atol=1e-10 / sc)
        r = vmc.gen(("rhs", n), n)
        Lc, Pr3, coef, code = ms.cpp_solve_coefXX(r, As)
        ctx.expect(code == 0, "solve_coefXX fails")
        ctx.close(np.ravel(coef), Ai @ r, "solution of the normal equations", rtol=1e-8, atol=1e-10 / sc)
        P = ms.compute_eigen_perm(Pr3).toarray()
        ctx.close(P.T @ Lc.toarray() @ Lc.toarray().T @ P, A, "factor of the normal equations", atol=tol)
        for k in (1, n, n + 2):
            C = vmc.gen(("C", n, k), n, k)
            C[np.abs(C) < 0.3] = 0
            X = ms.cpp_solve_tr(csc(L), csc(C)).toarray()
            ctx.close(L @ X, C, "lower triangular solve", atol=1e-10)
            X = ms.cpp_backsolve_tr(csc(L.T), csc(C)).toarray()
            ctx.close(L.T @ X, C, "upper triangular solve", atol=1e-10)
        if n > 1:
            K, mx, mn, cd = ms.est_condition(csc(L), csc(np.linalg.inv(L)), verbose=False)
            sv = np.linalg.svd(L, compute_uv=False)
            ctx.close([K, mx, mn], [sv[0] / sv[-1], sv[0], sv[-1]], "condition number and extreme singular values", rtol=1e-5)
            ctx.expect(cd == 0, "condition code")
        # indefinite: must be signalled by the Cholesky routines
        for z in range(n):
            Bm = A.copy()
            Bm[z, z] -= 2.5 * np.abs(A).sum()
            Bs = csc(Bm)
            ctx.expect(ms.cpp_chol(Bs)[-1] != 0, "indefinite matrix has a Cholesky factor", f"{z}")
            ctx.expect(ms.cpp_cholP(Bs)[-1] != 0, "indefinite matrix has a pivoted Cholesky factor", f"{z}")
            ctx.expect(ms.cpp_solve_coefXX(r, Bs)[-1] != 0, "indefinite system is solved", f"{z}")
            ctx.expect(ms.cpp_solve_LXX(Bs)[-1] != 0, "indefinite system is inverted", f"{z}")
            Bi, rk, cd = ms.cpp_solve_qr(Bs)
            ctx.expect(cd == 0 and rk == n, "QR solve of an indefinite full-rank matrix")
            ctx.close(Bi.toarray() @ Bm, np.eye(n), "inverse of indefinite matrix by QR", atol=1e-9)
        ctx.trans(12 + 4 * n)
    ctx.state(3 * (n + 1))
    ctx.trace(3)
    ctx.outcome((n, c["code"], tuple(int(q) for q in Pr)))


def rect_vals(c):
    m, n, code, mode = c["m"], c["n"], c["code"], c["mode"]
    A = np.array([(code >> b) & 1 for b in range(m * n)], float).reshape(m, n)
    if mode == "ones":
        return A
    if mode == "sign":
        return A * np.where((np.arange(m * n).reshape(m, n) * 7 + code) % 3 == 0, -1.0, 1.0)
    A = A * vmc.gen(("rect", m, n, code), m, n, lo=0.4, hi=1.6)
    if mode == "gen":
        return A
    # one column repeated as a multiple of another
    return np.column_stack([A, -1.5 * A[:, :1]])


def rank_case(ctx, c):
    from mssm.src.python import matrix_solvers as ms
    A = rect_vals(c)
    m, n = A.shape
    rk = mrank(A)
    s0 = np.linalg.svd(A, compute_uv=False)
    As = csc(A)
    nrm = np.linalg.norm(A)
    Pr, r = ms.cpp_dqrr(np.asfortranarray(A))
    perm_ok(ctx, Pr, n, "dense QR")
    ctx.expect(r == rk, "rank (dense QR)", f"{r} instead of {rk}")
    ctx.expect(mrank(A[:, [int(q) for q in Pr[:r]]]) == r, "columns kept by the dense QR are dependent")
    if nrm > 0:
        R, Pr, r, code = ms.cpp_qrr(As)
        ctx.expect(code == 0, "QR fails")
        perm_ok(ctx, Pr, n, "sparse QR")
        ctx.expect(r == rk, "rank (sparse QR)", f"{r} instead of {rk}")
        K = A[:, [int(q) for q in Pr[:r]]]
        ctx.expect(r == 0 or mrank(K) == r, "columns kept by the sparse QR are dependent")
        R = R.toarray()
        tri(ctx, R, True, "R")
        if r == rk and m >= n:
            ctx.close(R.T @ R, K.T @ K, "R'R is not the cross-product of the kept columns", atol=1e-10)
        Q, R, Pr, code = ms.cpp_qr(As)
        ctx.expect(code == 0, "QR (with Q) fails")
        Q, R = Q.toarray(), R.toarray()
        if m >= n:
            ctx.close(Q @ R[:Q.shape[1]], A[:, [int(q) for q in Pr]], "Q R is not the permuted matrix", atol=1e-10)
            ctx.close(Q.T @ Q, np.eye(Q.shape[1]), "Q is not orthogonal", atol=1e-10)
        # symmetric: A'A and a general symmetric matrix
        S = A.T @ A
        R, P1, P2, r, code = ms.cpp_symqr(csc(S), np.finfo(float).eps ** 0.5)
        ctx.expect(code == 0, "symmetric QR fails")
        perm_ok(ctx, P1, n, "symmetric QR (1)")
        perm_ok(ctx, P2, n, "symmetric QR (2)")
        ctx.expect(r == rk, "rank (symmetric QR)", f"{r} instead of {rk}")
        M1, M2 = ms.compute_eigen_perm(P1).toarray(), ms.compute_eigen_perm(P2).toarray()
        K = (S @ M1 @ M2)[:, :r]
        ctx.expect(mrank(K) == r, "columns kept by the symmetric QR are dependent")
        R = R.toarray()
        ctx.close(R.T @ R, K.T @ K, "R'R of the symmetric QR", atol=1e-9)
    ctx.state()
    ctx.trans(5)
    ctx.trace()
    ctx.outcome((rk, tuple(int(q) for q in Pr)))


def penal(n, kind):
    if kind == "zero":
        return np.zeros((n, n)), np.zeros((n, n))
    if kind == "ridge":
        return 0.7 * np.eye(n), np.sqrt(0.7) * np.eye(n)
    if kind == "diff":
        D = np.zeros((n, n))
        D[:n - 1] = np.diff(np.eye(n), axis=0)
        return 3.0 * D.T @ D, np.sqrt(3.0) * D
    if kind == "one":
        D = np.zeros((n, n))
        D[0, n - 1] = 2.0
        return D.T @ D, D
    raise ValueError


def coef_case(ctx, c):
    from mssm.src.python import matrix_solvers as ms
    X = rect_vals(c)
    m, n = X.shape
    y = vmc.gen(("y", m), m)
    S, E = penal(n, c["pen"])
    H = X.T @ X + S
    rk = mrank(np.vstack([X, E]))
    ev = np.linalg.eigvalsh(H)
    pd = rk == n and ev[0] > 1e-6
    Hi = np.linalg.inv(H) if pd else None
    want = Hi @ X.T @ y if pd else None
    if pd:
        L, Pr, coef, code = ms.cpp_solve_coef(y, csc(X), csc(S))
        ctx.expect(code == 0, "solve_coef fails")
        ctx.close(np.ravel(coef), want, "coefficients (Cholesky)", rtol=1e-7, atol=1e-8)
        P = ms.compute_eigen_perm(Pr).toarray()
        ctx.close(P.T @ L.toarray() @ L.toarray().T @ P, H, "factor of X'X+S", atol=1e-9)
        L, Pr, coef, code = ms.cpp_solve_am(y, csc(X), csc(S))
        ctx.expect(code == 0, "solve_am fails")
        ctx.close(np.ravel(coef), want, "coefficients (additive model)", rtol=1e-7, atol=1e-8)
        Li = ms.apply_eigen_perm(Pr, L).toarray()
        ctx.close(Li.T @ Li, Hi, "inverse factor (additive model)", rtol=1e-7, atol=1e-7)
        L, Pr, code = ms.cpp_solve_L(csc(X), csc(S))
        ctx.expect(code == 0, "solve_L fails")
        Li = ms.apply_eigen_perm(Pr, L).toarray()
        ctx.close(Li.T @ Li, Hi, "inverse factor", rtol=1e-7, atol=1e-7)
    R, P1, P2, coef, rank, code = ms.cpp_solve_coef_pqr(y, csc(X), csc(E))
    ctx.expect(code == 0, "QR solve fails")
    ctx.expect(rank == rk, "rank (QR solve)", f"{rank} instead of {rk}")
    # documented protocol for un-pivoting
    P = (ms.compute_eigen_perm(P2).T @ ms.compute_eigen_perm(P1).T).toarray()
    full = np.concatenate([np.ravel(coef), np.full(n - rank, np.nan)])
    pos = np.array([np.nonzero(P[:, j])[0][0] for j in range(n)])
    full = full[pos]
    keep = ~np.isnan(full)
    Hk = H[np.ix_(keep, keep)]
    ctx.expect(mrank(Hk) == rk, "kept coefficients are dependent", f"{keep}")
    ctx.close(full[keep], np.linalg.solve(Hk, X[:, keep].T @ y), "coefficients (QR)", rtol=1e-7, atol=1e-8)
    R = R.toarray()
    tri(ctx, R, True, "R")
    ordk = np.argsort(pos[keep])
    Hp = H[np.ix_(np.nonzero(keep)[0][ordk], np.nonzero(keep)[0][ordk])]
    ctx.close(R.T @ R, Hp, "R'R of the kept coefficients", atol=1e-9)
    ctx.state()
    ctx.trans(4)
    ctx.trace()
    ctx.outcome((bool(pd), rk, tuple(bool(k) for k in keep)))


def trace_case(ctx, c):
    """compute_B: trace of inverse times penalty, every penalty of a formula, optionally with dropped coefficients."""
    from mssm.src.python import matrix_solvers as ms
    ir = any(s[0] == "irf" for s in c["terms"])
    F, P, X = G.build_formula(c["terms"], G.make_data(c["na"]), series_id="series" if ir else None, onsets=G.ONS)
    n = X.shape[1]
    lam = [10.0 ** ((k * 2) % 5 - 2) for k in range(len(P))]
    H = X.T @ X + 0.05 * np.eye(n)
    for l, p in zip(lam, P):
        H = H + l * p.S_J_emb.toarray()
    for drop in [None, []] + ([[d] for d in range(n)] if n <= 40 else [[0], [n // 2], [n - 1]]) + [[0, n - 1]] if c["drop"] else [None]:
        keep = np.ones(n, bool)
        if drop:
            keep[drop] = False
        Hk = H[np.ix_(keep, keep)]
        Lp, Pr, code = ms.cpp_cholP(csc(Hk))
        Pm = ms.compute_eigen_perm(Pr)
        Hi = np.linalg.inv(Hk)
        for k, p in enumerate(P):
            got = ms.compute_B(Lp, Pm, p, 1, None if drop is None else np.array(drop, dtype=int))
            want = np.trace(Hi @ p.S_J_emb.toarray()[np.ix_(keep, keep)])
            ctx.close(got, want, "trace of inverse times penalty", rtol=1e-6, atol=1e-7, detail=f"penalty {k} {p.type} start {p.start_index} rep {p.rep_sj} drop {drop}")
            ctx.trans()
        ctx.state()
    ctx.trace()
    ctx.outcome((n, len(P), tuple(p.start_index for p in P)))


def big_case(ctx, c):
    """Parallel branches (more than 4000 coefficients)."""
    from mssm.src.python import matrix_solvers as ms
    from mssm.src.python.custom_types import LambdaTerm, PenType
    n, n_c, st = c["n"], c["n_c"], 3
    d = 1.0 + vmc.gen(("big", n), n, lo=0.0, hi=1.0)
    o = 0.2 * vmc.gen(("off", n), n - 1)
    H = scp.sparse.diags_array([o, d * 2, o], offsets=[-1, 0, 1], format="csc")
    Lp, Pr, code = ms.cpp_cholP(csc_s(H))
    Li = ms.compute_Linv(Lp, n_c=n_c)
    E = (Li @ Lp - scp.sparse.eye_array(n)).tocoo()
    ctx.expect(Li.shape == (n, n) and np.abs(E.data).max(initial=0) < 1e-9, "inverse factor (parallel)")
    m = n - st
    D = np.zeros(n)
    D[st:] = 1.0
    emb = scp.sparse.diags_array(D, format="csc")
    lt = LambdaTerm(S_J=scp.sparse.eye_array(1, format="csc"), S_J_emb=emb, D_J_emb=emb, rep_sj=m, start_index=st, type=PenType.IDENTITY, rank=m, term=0, lam=1.0)
    got = ms.compute_B(Lp, ms.compute_eigen_perm(Pr), lt, n_c)
    Hi = ms.apply_eigen_perm(Pr, Li)
    want = float(np.ravel(np.asarray(Hi.power(2).sum(axis=0))) @ D)
    ctx.close(got, want, "trace (parallel)", rtol=1e-8)
    ctx.state()
    ctx.trans(2)
    ctx.trace()
    ctx.outcome((n, n_c))


def csc_s(A):
    A = scp.sparse.csc_array(A)
    A.sort_indices()
    return A


def dep_case(ctx, c):
    import eigen_solvers
    X = rect_vals(c)
    k = c["k"]
    A, B = X[:, :k], X[:, k:]
    if mrank(A) < k or np.abs(A[:, 0]).sum() == 0:
        return
    piv, r = eigen_solvers.id_dependencies(np.asfortranarray(A), np.asfortranarray(B), 1e-10)
    want = mrank(X) - k
    ctx.expect(r == want, "number of columns independent of the reference", f"{r} instead of {want}")
    perm_ok(ctx, piv, B.shape[1], "dependency check")
    ctx.expect(mrank(np.column_stack([A, B[:, [int(q) for q in piv[:r]]]])) == k + want, "columns reported as independent are not")
    ctx.state()
    ctx.trans()
    ctx.trace()
    ctx.outcome((r, tuple(int(q) for q in piv)))


def run(chk):
    th = chk.thorough
    N = 5
    sp = [dict(n=n, code=k) for n in range(1, N + (1 if th else 0)) for k in range(2 ** (n * (n - 1) // 2))]
    sp += [dict(n=6 + (k % 3), code=(k * 2654435761) % 2 ** 15) for k in range(120)] if not th else [dict(n=6, code=k) for k in range(0, 2 ** 15, 7)]
    chk.explore("positive definite", sp, spd_case, bounds="every sparsity pattern of symmetric matrices up to 4x4 (5x5 thorough), fixed list of larger patterns, 3 scales, every indefinite diagonal", min_outcomes=50)
    shapes = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (3, 3)] + [(4, 3)]
    sp = [dict(m=m, n=n, code=k, mode=md) for m, n in shapes for md in ("ones", "sign", "gen", "dup") for k in range(0, 2 ** (m * n), 1 if m * n < 10 or th else 5)]
    chk.explore("rank", sp, rank_case, bounds="every 0/1 pattern of matrices up to 3x3 (4x3: every fifth in quick, all in thorough), signed, generic and with repeated columns", min_outcomes=20)
    sp = [dict(m=m, n=n, code=k, mode=md, pen=p) for m, n in shapes[:-1] for md in ("ones", "gen", "dup") for p in ("zero", "ridge", "diff", "one") for k in range(2 ** (m * n)) if not (k == 0 and p == "zero")]
    chk.explore("penalised least squares", sp, coef_case, bounds="every 0/1 pattern of model matrices up to 3x3 x 4 penalties x 3 value modes", min_outcomes=10)
    sp = [dict(m=4, n=n, code=k, mode=md, k=q) for n in (2, 3) for q in range(1, n) for md in ("ones", "gen") for k in range(0, 2 ** (4 * n), 1 if th or n == 2 else 3)]
    chk.explore("dependencies", sp, dep_case, bounds="every pattern of 4 rows, 1-2 reference columns, 1-2 candidate columns", min_outcomes=3)
    pool = [s for s in G.U_SM + G.U_TP + G.U_RE + G.U_FS + G.U_IR if s[2].get("is_penalized", True)]
    pool += [G.T("fs", ["x"], rf="fac", nk=5, rp=1, m=1), ] if False else []
    sp = []
    for s in pool:
        for pre in ([], [G.T("i")], [G.T("i"), G.T("l", ["fac"]), G.T("f", ["z"], nk=6)], [G.T("i"), G.T("f", ["x", "z"], nk=[4, 4], te=True)]):
            if G.legal(pre + [s]):
                sp.append(dict(terms=pre + [s], na="none", drop=len(pre) <= 1 or th))
    chk.explore("traces", sp, trace_case, bounds=f"{len(pool)} penalised term forms after 0, 1, 3 and 2 preceding terms; every single dropped coefficient", min_outcomes=30)
    sp = [dict(n=n, n_c=k) for n in (3999, 4203, 6007) for k in (1, 2, 3)]
    chk.explore("parallel", sp, big_case, bounds="3999..6007 coefficients, 1-3 processes", min_outcomes=9)
