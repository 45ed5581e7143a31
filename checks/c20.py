"""C20: derivatives and low-rank updates of Cholesky factors, and the corrections built from them."""
import itertools
import numpy as np
import scipy as scp
import vmc

LEVEL = "model_checking"
ASSUMPTIONS = ["Derivatives are linear in the perturbation, so every unit perturbation of every matrix decides all perturbations of that matrix."]


def spd(n, code, key="c20", mag=1.0):
    V = vmc.gen((key, n, code), n, n, lo=0.3, hi=1.3) * np.where(vmc.gen((key, "s", n, code), n, n) > 0, 1, -1)
    A = np.zeros((n, n))
    for b, (i, j) in enumerate(itertools.combinations(range(n), 2)):
        if code >> b & 1:
            A[i, j] = A[j, i] = V[i, j]
    return (A + np.diag(np.abs(A).sum(axis=1) + vmc.gen((key, "d", n), n, lo=0.3, hi=1.5))) * mag


def dL_exact(L, A):
    """Derivative of the lower Cholesky factor in direction A: L Phi(L^-1 A L^-T)."""
    Li = np.linalg.inv(L)
    M = Li @ A @ Li.T
    return L @ (np.tril(M, -1) + 0.5 * np.diag(np.diag(M)))


def units(n):
    for i in range(n):
        for j in range(i, n):
            E = np.zeros((n, n))
            E[i, j] = E[j, i] = 1.0
            yield (i, j), E
    yield "generic", (lambda G: G + G.T)(vmc.gen(("pert", n), n, n))


def lay(A, order):
    if order == "F":
        return np.asfortranarray(A)
    if order == "C":
        return np.ascontiguousarray(A)
    B = np.zeros((2 * A.shape[0], 2 * A.shape[1]))
    B[::2, ::2] = A
    return B[::2, ::2]


def deriv_case(ctx, c):
    import dChol
    n = c["n"]
    for mag in (1.0, 1e-4, 1e4):
        H = spd(n, c["code"], mag=mag)
        L = np.linalg.cholesky(H)
        Ri = np.linalg.inv(L.T)
        for order in ("F", "C", "S") if mag == 1.0 else ("F",):
            R = lay(L.T, order)
            Rinv = lay(Ri, order)
            for lab, A in units(n):
                A0 = lay(A, order)
                want = dL_exact(L, A).T
                got = np.asarray(dChol.dChol(R, A0))
                s = np.abs(want).max()
                ctx.close(got, want, "derivative of the Cholesky factor", rtol=1e-8, atol=1e-9 * s, detail=f"{lab} {order}")
                ctx.close(got.T @ L.T + L @ got, A, "derivative of R'R is not the perturbation", atol=1e-9)
                gi = np.asarray(dChol.invdChol(R, Rinv, A0))
                wi = -Ri @ want @ Ri
                ctx.close(gi, wi, "derivative of the inverse factor", rtol=1e-8, atol=1e-9 * np.abs(wi).max(), detail=f"{lab} {order}")
                ctx.close(R, L.T, "input was modified", atol=0)
                ctx.trans(2)
    ctx.state(3)
    ctx.trace()
    ctx.outcome(got)


def update_case(ctx, c):
    import dChol
    n, k, sg = c["n"], c["k"], c["sg"]
    H = spd(n, c["code"])
    U = vmc.gen(("upd", n, k), n, k)
    for zero in [None] + list(range(k)) + [("row", r) for r in range(n)]:
        W = U.copy()
        if isinstance(zero, int):
            W[:, zero] = 0
        elif zero is not None:
            W[zero[1]] = 0
        base = H if sg > 0 else H + W @ W.T
        want = H + W @ W.T if sg > 0 else H
        for order in ("F", "C"):
            L = lay(np.linalg.cholesky(base), order).copy(order=order)
            dChol.uChol(L, lay(W, order).copy(order=order), sg)
            Lt = np.tril(L)
            ctx.close(Lt @ Lt.T, want, "up/down-dated factor", atol=1e-9, detail=f"{zero} {order}")
            ctx.expect(np.abs(np.triu(L, 1)).max(initial=0) == 0, "factor is not triangular any more")
            ctx.trans(k)
        ctx.state()
    ctx.trace()
    ctx.outcome(Lt)


def v2_case(ctx, c):
    import dChol
    n, p = c["n"], c["p"]
    Ds = [np.triu(vmc.gen(("v2", n, j), n, n)) for j in range(p)]
    if c["zero"] is not None and c["zero"] < p:
        Ds[c["zero"]] = Ds[c["zero"]] * 0
    V = spd(p, c["code"], key="vp") if p > 1 else np.array([[0.7]])
    if c["code"] == 0 and p > 1:
        V = np.outer(np.arange(1, p + 1), np.arange(1, p + 1)) * 0.1
    got = np.asarray(dChol.computeV2(np.asfortranarray(V), [np.asfortranarray(D) for D in Ds], n))
    want = sum(V[k, l] * Ds[k] @ Ds[l].T for k in range(p) for l in range(p))
    want = 0.5 * (want + want.T)
    ctx.close(got, want, "second correction term", rtol=1e-9, atol=1e-10)
    ctx.state()
    ctx.trans(p * p)
    ctx.trace()
    ctx.outcome(got)


def corr_case(ctx, c):
    """Both terms of the smoothness uncertainty correction of the coefficient covariance."""
    from mssm.src.python.utils import compute_Vb_corr_WPS
    from mssm.src.python.custom_types import LambdaTerm, PenType
    n, p, phi = c["n"], c["p"], c["phi"]
    XX = spd(n, c["code"], key="xx", mag=c["mag"])
    coef = vmc.gen(("coef", n), n, 1)
    pens, S = [], np.zeros((n, n))
    for k in range(p):
        D = np.zeros((n, n))
        a = min(k, max(0, n - 2))
        D[a:, a:] = np.diff(np.eye(n - a + 1), axis=0)[:, :n - a] if k % 2 else np.eye(n - a)
        Sk = D @ D.T
        lam = [0.3, 4.0, 50.0][(k + c["lam"]) % 3]
        S = S + lam * Sk
        emb = scp.sparse.csc_array(Sk)
        pens.append(LambdaTerm(S_J=emb, S_J_emb=emb, D_J_emb=scp.sparse.csc_array(D), rep_sj=1, start_index=0, type=PenType.IDENTITY, rank=n, term=0, lam=lam))
    nH = XX + S
    Rv = vmc.gen(("Vr", p), p, p)
    Vr = Rv + np.eye(p)
    Vpr = spd(p, 2 ** (p * (p - 1) // 2) - 1, key="vpr", mag=0.2)
    H = scp.sparse.csc_array(-XX / phi)
    Hs = scp.sparse.csc_array(S)
    for drop in [None] + [[d] for d in range(n)] if n > 1 else [None]:
        keep = np.ones(n, bool)
        b = coef.copy()
        if drop is not None:
            keep[drop] = False
            b[drop] = 0
        V = np.zeros((n, n))
        V[np.ix_(keep, keep)] = np.linalg.inv(nH[np.ix_(keep, keep)])
        Vbr = np.zeros((keep.sum(), n))
        Vbr[:, keep] = np.linalg.inv(np.linalg.cholesky(nH[np.ix_(keep, keep)]))
        dB = np.column_stack([-q.lam * V @ (q.S_J_emb.toarray() @ b) for q in pens])
        Vc, Vcc = compute_Vb_corr_WPS(scp.sparse.csc_array(Vbr), Vpr, Vr, H, Hs, pens, b, scale=phi, drop=None if drop is None else np.array(drop))
        want = dB @ Vr.T @ Vr @ dB.T
        ctx.close(np.asarray(Vc), want, "first correction term", rtol=1e-7, atol=1e-9 * max(1e-3, np.abs(want).max()), detail=f"drop {drop}")
        if drop is None:
            L = np.linalg.cholesky(nH)
            Ri = np.linalg.inv(L.T)
            dR = [Ri @ dL_exact(L, q.lam * q.S_J_emb.toarray()).T @ Ri for q in pens]
            w2 = phi * sum(Vpr[k, l] * dR[k] @ dR[l].T for k in range(p) for l in range(p))
            ctx.close(np.asarray(Vcc), w2, "second correction term", rtol=1e-6, atol=1e-8 * np.abs(w2).max())
        ctx.state()
        ctx.trans(p)
    ctx.trace()
    ctx.outcome((n, p, phi, round(float(np.abs(want).max()), 9)))


def run(chk):
    th = chk.thorough
    N = 6
    pats = lambda m: [dict(n=n, code=k) for n in range(1, m) for k in range(2 ** (n * (n - 1) // 2))]
    chk.explore("derivative", pats(N) + [dict(n=n, code=2 ** (n * (n - 1) // 2) - 1) for n in (6, 8, 12)] + ([dict(n=6, code=k) for k in range(0, 2 ** 15, 3)] if th else []), deriv_case, bounds=f"every pattern up to {N - 1}x{N - 1}, every unit perturbation, 3 scales, 3 memory layouts", min_outcomes=30)
    sp = [dict(k=k, sg=s, **q) for q in pats(5) for k in (1, 2, 3) for s in (1, -1)] + [dict(k=k, sg=s, n=n, code=2 ** (n * (n - 1) // 2) - 1) for n in (6, 9) for k in (1, 4) for s in (1, -1)]
    chk.explore("update", sp, update_case, bounds="every pattern up to 4x4, rank 1-3 update and downdate, every zeroed row/column", min_outcomes=50)
    sp = [dict(n=n, p=p, code=k, zero=z) for n in range(1, 7) for p in (1, 2, 3) for k in (0, 2 ** (p * (p - 1) // 2) - 1) for z in (None, 0, p - 1)]
    chk.explore("second term", sp, v2_case, bounds="1-6 coefficients, 1-3 penalties", min_outcomes=20)
    sp = [dict(p=p, phi=phi, lam=l, mag=m, **q) for q in pats(5 if th else 4) + [dict(n=7, code=2 ** 21 - 1)] for p in (1, 2, 3) for phi in (1.0, 0.2, 7.0) for l in (0, 1, 2) for m in (1.0, 100.0)]
    chk.explore("covariance correction", sp, corr_case, bounds="every pattern of the negative Hessian up to 3x3 (4x4 thorough), 1-3 penalties, 3 scales, every dropped coefficient", min_outcomes=50)
