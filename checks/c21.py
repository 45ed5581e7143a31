"""C21: compact quasi-Newton representations vs. the recursive SR1 updates, for every history of secant pairs of a finite alphabet."""
import itertools
import numpy as np
import scipy as scp
import vmc

LEVEL = "model_checking"
ASSUMPTIONS = ["Histories whose recursive update has a vanishing denominator are only required to be rejected or to stay finite where the code decides about acceptance (update_ys_qefs)."]


def pairs(n):
    """Alphabet: consistent with an indefinite quadratic, with a convex one, and noisy pairs."""
    A1 = (lambda G: G @ G.T / n + np.eye(n) * 0.3)(vmc.gen(("A1", n), n, n))
    A2 = (lambda G: (G + G.T) * 0.8)(vmc.gen(("A2", n), n, n)) + np.diag(np.linspace(-1, 1.2, n))
    out = []
    for j in range(3):
        s = vmc.gen(("s", n, j), n)
        out.append((s, A1 @ s))
        out.append((s * 0.7 + 0.1, A2 @ (s * 0.7 + 0.1)))
    out.append((vmc.gen(("s", n, 7), n), vmc.gen(("y", n, 7), n)))
    return out


def recursive(H0, hist):
    """SR1 recursion; also the smallest relative denominator."""
    B = H0.copy()
    worst = np.inf
    for s, y in hist:
        r = y - B @ s
        den = r @ s
        if np.linalg.norm(r) < 1e-7 * np.linalg.norm(y):  # pair already reproduced: the update is undefined
            return B, 0.0
        worst = min(worst, abs(den) / (np.linalg.norm(r) * np.linalg.norm(s)))
        if worst < 1e-6:
            return B, worst
        B = B + np.outer(r, r) / den
    return B, worst


def psd(B, lo):
    ev, U = np.linalg.eigh(B)
    ev[ev <= 0] = lo
    return (U * ev) @ U.T


def hist_case(ctx, c):
    from mssm.src.python.compact_rep import computeHSR1, computeVSR1, compute_omega
    n = c["n"]
    al = pairs(n)
    H = [al[j] for j in c["hist"]]
    s = np.array([h[0] for h in H])
    y = np.array([h[1] for h in H])
    rho = 1 / np.einsum("ij,ij->i", s, y)
    for method in ("NoWr", "mean", "min"):
        om = compute_omega(y, s, method=method)
        ri = [a @ b / (a @ a) for a, b in H]
        if method == "NoWr":
            w = (y[-1] @ y[-1]) / (y[-1] @ s[-1])
        elif method == "mean":
            w = np.mean(ri)
        else:
            # smallest positive curvature where there is one (as coded: non-positive values are replaced by later ones)
            w = None
        if w is not None:
            ctx.close(om, w if w >= 0 else 1.0, f"scaling ({method})", rtol=1e-9)
        elif min(ri) > 0:
            ctx.close(om, min(ri), f"scaling ({method})", rtol=1e-9)
        ctx.expect(om > 0, "scaling is not positive", f"{om}")
    om = compute_omega(y, s)
    for w0 in (om, 2.3):
        H0 = np.eye(n) * w0
        B, worst = recursive(H0, H)
        if worst < 1e-5 or np.linalg.cond(B) > 1e7:
            continue
        tol = 1e-7 * max(1.0, np.abs(B).max()) * max(1, 1e-3 / worst)
        Hs = scp.sparse.identity(n, format="csc") * w0
        got = np.asarray(computeHSR1(s, y, rho, Hs, omega=w0))
        ctx.close(got, B, "compact representation differs from the recursive updates", atol=tol, rtol=1e-6)
        ctx.close(got @ s[-1], y[-1], "last secant equation", atol=tol, rtol=1e-6)
        t1, t2, t3 = computeHSR1(s, y, rho, Hs, omega=w0, explicit=False)
        ctx.close(H0 + t1 @ t2 @ t3, B, "implicit form differs from the explicit form", atol=tol, rtol=1e-6)
        Vs = scp.sparse.identity(n, format="csc") / w0
        V = np.linalg.inv(B)
        vt = 1e-6 * max(1.0, np.abs(V).max()) * max(1, 1e-3 / worst)
        dual, dworst = recursive(np.eye(n) / w0, [(b, a) for a, b in H])
        if dworst > 1e-5:
            gv = np.asarray(computeVSR1(s, y, rho, Vs, omega=1 / w0))
            ctx.close(gv, V, "compact inverse differs from the inverse of the recursive updates", atol=vt, rtol=1e-5)
            a, b, d = computeVSR1(s, y, rho, Vs, omega=1 / w0, explicit=False)
            ctx.close(np.eye(n) / w0 + a @ b @ d, V, "implicit inverse", atol=vt, rtol=1e-5)
            gp = np.asarray(computeVSR1(s, y, rho, Vs, omega=1 / w0, make_psd=True))
            ctx.close(gp, psd(V, 0.0), "inverse made positive semi-definite", atol=vt, rtol=1e-5)
            a, b, d = computeVSR1(s, y, rho, Vs, omega=1 / w0, make_psd=True, explicit=False)
            ctx.close(np.eye(n) / w0 + a @ b @ d, psd(V, 0.0), "implicit inverse made positive semi-definite", atol=vt, rtol=1e-5)
        ev = np.linalg.eigvalsh(B)
        lo = np.sqrt(np.finfo(float).eps) * max(0.0, ev.max())
        for pd in (False, True):
            gp = np.asarray(computeHSR1(s, y, rho, Hs, omega=w0, make_psd=True, make_pd=pd))
            ctx.close(gp, psd(B, 0.0), "made positive semi-definite", atol=tol, rtol=1e-6, detail=f"pd {pd}")
            mn = np.linalg.eigvalsh(0.5 * (gp + gp.T)).min()
            ctx.expect(mn > -1e-8 * max(np.abs(gp).max(), np.abs(B).max()), "negative eigenvalue although positive semi-definiteness was requested", f"{mn}")
            if pd and ev.max() > 0 and len(H) < n:
                ctx.expect(mn > 0, "positive definiteness was requested", f"smallest eigenvalue {mn}, eigenvalues before {ev}")
            a, b, d = computeHSR1(s, y, rho, Hs, omega=w0, make_psd=True, make_pd=pd, explicit=False)
            ctx.close(H0 + a @ b @ d, gp, "implicit form (definite)", atol=tol, rtol=1e-6)
        ctx.trans(8)
        ctx.outcome((len(H), int((ev < 0).sum()), round(float(np.abs(B).max()), 5)))
    ctx.state(len(H))
    ctx.trace()


def storage(hist, n, fcols, sample, opts, nHfd):
    from mssm.src.python.gamm_solvers import init_qEFS_storage, makepdd_fd2llk
    lin = init_qEFS_storage(np.zeros((n, 1)), {}, sample, 0, {}, fcols, opts)
    s = np.array([h[0] for h in hist])
    y = np.array([h[1] for h in hist])
    lin.sk, lin.yk, lin.n_corrs = s, y, len(hist)
    lin.rho = 1 / np.einsum("ij,ij->i", s, y)
    if fcols is not None:
        lin.nHfd, onHBB, lin.IonHBB, onHBb = makepdd_fd2llk(scp.sparse.csc_array(nHfd), fcols, lin.acols, opts.get("dampen_HBb", 1), opts.get("PSD_HBB", True), opts.get("PD_HBB", True))
    return lin


def penal(n, kind):
    if kind == "none":
        return np.zeros((n, n))
    if kind == "ridge":
        return 0.4 * np.eye(n)
    D = np.zeros((n, n))
    D[1:] = np.diff(np.eye(n), axis=0)
    S = 3.0 * D.T @ D
    if kind == "block":
        S[0] = 0
        S[:, 0] = 0
        S[1:, 1:] = 2.0 * np.eye(n - 1)
    return S


def implicit_case(ctx, c):
    """Implicit penalised inverse, traces, explicit Hessian and its Cholesky factor for full and structured approximations."""
    from mssm.src.python.gamm_solvers import getImplicitV, computetrVS3, getExplicitnH, getCholnH
    from mssm.src.python.custom_types import LambdaTerm, PenType
    n = c["n"]
    al = pairs(n)
    hist = [al[j] for j in c["hist"]]
    S = penal(n, c["pen"])
    fc = c["fcols"]
    nHfd = None
    opts = {k: c[k] for k in ("dampen_HBb", "dampen_HBB", "pre_cond") if k in c}
    ac = None
    if fc is not None:
        fc = np.array(fc)
        ac = [j for j in range(n) if j not in fc]
        A = (lambda G: G @ G.T / n + np.eye(n) * 0.5)(vmc.gen(("fd", n), n, n))
        if c.get("indef"):
            A = A - 0.9 * np.eye(n)
        nHfd = np.zeros((n, n))
        nHfd[np.ix_(fc, fc)] = A[np.ix_(fc, fc)]
        nHfd[np.ix_(fc, ac)] = 0.3 * A[np.ix_(fc, ac)]
        nHfd[np.ix_(ac, fc)] = nHfd[np.ix_(fc, ac)].T
    lin = storage(hist, n, fc, c["sample"], opts, nHfd)
    # reference
    s, y = lin.sk, lin.yk
    if fc is None:
        om = np.mean([a @ b / (a @ a) for a, b in zip(s, y)]) if c["sample"] else (y[-1] @ y[-1]) / (y[-1] @ s[-1])
        om = 1.0 if om < 0 else om
        B, worst = recursive(np.eye(n) * om, list(zip(s, y)))
        if worst < 1e-4:
            return
        H = psd(B, 0.0)
    else:
        sa, ya = s[:, ac], y[:, ac]
        om = np.mean([a @ b / (a @ a) for a, b in zip(sa, ya)]) if c["sample"] else (ya[-1] @ ya[-1]) / (ya[-1] @ sa[-1])
        om = (1.0 if om < 0 else om) * opts.get("dampen_HBB", 1)
        B, worst = recursive(np.eye(len(ac)) * om, list(zip(sa, ya)))
        if worst < 1e-4:
            return
        D = psd(B, 0.0)
        ev, U = np.linalg.eigh(nHfd[np.ix_(fc, fc)])
        ev = np.maximum(ev, np.sqrt(np.finfo(float).eps) * np.abs(ev).max())
        HBB = (U * ev) @ U.T
        HBb = opts.get("dampen_HBb", 1) * nHfd[np.ix_(fc, ac)]
        H = np.zeros((n, n))
        H[np.ix_(fc, fc)] = HBB
        H[np.ix_(fc, ac)] = HBb
        H[np.ix_(ac, fc)] = HBb.T
        H[np.ix_(ac, ac)] = D + HBb.T @ ((U / ev) @ U.T) @ HBb
    T = H + S
    cond = np.linalg.cond(T)
    got = getExplicitnH(lin, n, make_psd=True, make_pd=False).toarray()
    sc = max(1.0, np.abs(H).max())
    ctx.close(got, H, "explicit approximation of the negative Hessian", atol=1e-6 * sc * max(1, 1e-3 / worst), rtol=1e-6)
    if cond > 1e5:
        return
    V = np.linalg.inv(T)
    V0, *t = getImplicitV(lin, n, scp.sparse.csc_array(S), n_c=1)
    W = V0.toarray() if scp.sparse.issparse(V0) else np.asarray(V0)
    for k in range(3):
        a, b, d = t[3 * k:3 * k + 3]
        if a is not None and b is not None:
            a, b, d = [q.toarray() if scp.sparse.issparse(q) else np.asarray(q) for q in (a, b, d)]
            W = W - a @ b @ d
    tol = 1e-6 * np.abs(V).max() * max(1, 1e-3 / worst) * max(1.0, cond / 1e3)
    ctx.close(W, V, "implicit penalised inverse is not the inverse of the penalised Hessian", atol=tol, rtol=1e-5)
    for st, k in ((0, n), (0, 2), (1, n - 1)):
        SJ = np.eye(k) if st == 0 else penal(k, "diff")
        emb = np.zeros((n, n))
        emb[st:st + k, st:st + k] = SJ
        lt = LambdaTerm(S_J=scp.sparse.csc_array(SJ), S_J_emb=scp.sparse.csc_array(emb), D_J_emb=scp.sparse.csc_array(emb), rep_sj=1, start_index=st, type=PenType.IDENTITY, rank=k, term=0, lam=1.0)
        tr = computetrVS3(*t, lt, V0)
        ctx.close(float(np.asarray(tr).ravel()[0]), np.trace(V @ emb), "trace with the implicit inverse", atol=tol * n * 4, rtol=1e-5)
    if c["pen"] != "none":
        ev, U = np.linalg.eigh(S)
        root = scp.sparse.csc_array(U * np.sqrt(np.maximum(ev, 0)))
    else:
        root = scp.sparse.csc_array((n, n))
    L, P = getCholnH(lin, n, root, make_pd=True)
    L, P = L.toarray(), P.toarray()
    ctx.expect(np.abs(np.triu(L, 1)).max(initial=0) < 1e-12, "factor is not triangular")
    ctx.close(P @ L @ L.T @ P.T, T, "Cholesky factor of the penalised approximation", atol=1e-5 * np.abs(T).max() * max(1, 1e-3 / worst), rtol=1e-5)
    ctx.trans(6)
    ctx.state(len(hist))
    ctx.trace()
    ctx.outcome(np.round(V, 6))


def queue_case(ctx, c):
    """All sequences of proposed pairs (degenerate ones included): acceptance, memory limit and usability of what was stored."""
    from mssm.src.python.gamm_solvers import update_ys_qefs
    from mssm.src.python.compact_rep import computeHSR1
    n = 2
    al = pairs(n)
    s0, y0 = al[0]
    prop = {"a": al[0], "b": al[1], "c": al[2], "d": al[6], "z": (np.zeros(n), np.zeros(n)), "o": (np.array([1.0, 0.0]), np.array([0.0, 1.5])), "y": (s0, np.zeros(n)), "e": (s0, y0)}
    yks, sks, rhos = np.array([]), np.array([]), np.array([])
    model = []
    for k, sym in enumerate(c["seq"]):
        s, y = prop[sym]
        # as the optimiser calls it: gradients of the log-likelihood before and after the step
        g0 = vmc.gen(("g", k), n).reshape(-1, 1)
        before = [np.array(q, copy=True) for q in (yks, sks, rhos)]
        yks, sks, rhos, om, skip = update_ys_qefs(None, None, None, yks, sks, rhos, g0, g0 - y.reshape(-1, 1), s.reshape(-1, 1), 1.0, False, c["maxcor"])
        deg = abs(s @ y) == 0
        if sym == "z":
            ctx.expect(bool(skip), "a zero step is accepted", f"{c['seq'][:k + 1]}")
        if skip:
            for q, b in zip((yks, sks, rhos), before):
                ctx.expect(np.array_equal(q, b), "a rejected pair changes the history", f"{c['seq'][:k + 1]}")
        else:
            model.append((s, y))
            if len(model) > c["maxcor"]:
                model.pop(0)
            ctx.close(sks, np.array([m[0] for m in model]), "stored steps", atol=1e-9)
            ctx.close(yks, np.array([m[1] for m in model]), "stored gradient differences", atol=1e-9)
            r = 1 / np.einsum("ij,ij->i", sks, yks)
            ok = np.abs(np.einsum("ij,ij->i", sks, yks)) > 1e-9
            ctx.close(np.asarray(rhos)[ok], r[ok], "stored curvatures", rtol=1e-6)
            w = (yks[-1] @ yks[-1]) / (yks[-1] @ sks[-1])
            if ok[-1]:
                ctx.close(om, w if w >= 0 else 1.0, "scaling of the latest pair", rtol=1e-6)
        ctx.trans()
    ctx.state(len(c["seq"]))
    ctx.trace()
    ctx.outcome((len(model), c["maxcor"], c["seq"][:2]))


def run(chk):
    th = chk.thorough
    sp = [dict(n=n, hist=list(h)) for n in (2, 3, 5) for m in (1, 2, 3, 4) for h in itertools.permutations(range(7), m) if m < 4 or n != 2]
    if not th:
        sp = [q for q in sp if len(q["hist"]) < 4 or q["hist"][0] in (0, 6)]
    chk.explore("histories", sp, hist_case, bounds="all sequences of up to 4 different pairs from an alphabet of 7 (convex, indefinite, inconsistent), 2, 3 and 5 coefficients, 2 initial matrices", min_outcomes=200)
    sp = []
    for n in (3, 4):
        fcs = [None] + [list(q) for k in range(1, n) for q in (itertools.permutations(range(n), k) if th or k < 3 else itertools.combinations(range(n), k))]
        for fc in fcs:
            for h in ([0], [1], [6], [0, 2], [0, 1], [2, 6], [4, 1, 2], [0, 2, 4], [6, 3, 0]) if th or fc is None or n == 3 else ([0], [1], [0, 1], [4, 1, 2]):
                for pen in ("none", "ridge", "diff", "block"):
                    for sample in (False, True):
                        base = dict(n=n, hist=h, pen=pen, sample=sample, fcols=fc)
                        sp.append(base)
                        if fc is not None and (pen == "diff" or th):
                            for o in (dict(dampen_HBb=0), dict(dampen_HBb=0.5), dict(dampen_HBB=0.4), dict(pre_cond=False), dict(indef=True)):
                                sp.append(dict(base, **o))
    chk.explore("penalised inverse", sp, implicit_case, bounds="full and every structured split of 3-4 coefficients (all orders of the exact block), histories up to 3 pairs, 4 penalties, dampening options", min_outcomes=200)
    sp = [dict(seq="".join(q), maxcor=m) for L in range(1, 6 if th else 5) for q in itertools.product("abcdzoye" if L < 4 else "abdze", repeat=L) for m in (1, 2, 3)]
    chk.explore("memory", sp, queue_case, bounds="every sequence of up to 4 proposals from 8 kinds (zero step, zero curvature, repeated pair ...), memory 1-3", min_outcomes=20)
