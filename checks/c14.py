"""C14: re-parameterisations are invertible linear changes of coefficients that leave fit, penalty, log-determinants and ranks unchanged."""
import copy
import itertools
import numpy as np
import scipy as scp
import vmc
import gam_ref as G
import c07

LEVEL = "model_checking"
ASSUMPTIONS = ["Smoothing parameters 1e-3..1e3 (ratios up to 1e6): beyond that double precision no longer determines the reference log-determinant.",
               "Option 3 (random sub-sample of rows) is explored for a fixed seed of NumPy's global generator."]


def pen(S):
    return scp.sparse.csc_array(S)


# ------------------------------------------------------------------------------------- single-term (Demmler & Reinsch) options
def single(ctx, c):
    from mssm.src.python.repara import reparam
    n, k, m = c["n"], c["k"], c["m"]
    x = vmc.gen(("c14x", n), n, lo=0.0, hi=1.0)
    if c["option"] > 1:
        x = np.round(x * 12) / 12 if c["option"] == 2 else x
    B = G.basis(x, k, 0.0, 1.0, 3)
    if c["con"]:
        Z = np.linalg.qr(B.sum(axis=0)[:, None], mode="complete")[0][:, 1:]
    else:
        Z = np.eye(k)
    X = B @ Z * 10.0 ** c["mag"]
    S = Z.T @ G.diffpen(k, m) @ Z
    want_rank = k - m
    if c["option"] == 3:
        np.random.seed(3)
    C, Srp, Drp, IR, r1, r2, rank = reparam(scp.sparse.csc_array(X), pen(S), x, option=c["option"], n_bins=4, QR=c["QR"], identity=c["identity"], scale=c["scale"])
    C, Srp, Drp = G.dense(C), G.dense(Srp), G.dense(Drp)
    ctx.expect(int(rank) == want_rank, "declared rank", f"{rank} instead of {want_rank}")
    ctx.expect(G.rank_of(C / np.abs(C).max(axis=0), 1e-10) == C.shape[0], "the change of coefficients is not invertible", "")
    T = C.T @ S @ C
    d = np.sqrt(np.maximum(np.diag(C.T @ X.T @ X @ C), 1e-300))
    # compare in function units so that columns of very different size count alike
    sc = max(np.abs(np.diag(T)).max(), 1e-300)
    ctx.close(Srp / sc, T / sc, "penalty of the re-parameterised coefficients", atol=1e-7, rtol=1e-6)
    ctx.close(Drp @ Drp.T / sc, Srp / sc, "root of the re-parameterised penalty", atol=1e-9, rtol=1e-9)
    ctx.expect(G.rank_of(Srp / sc, 1e-12) == want_rank, "re-parameterised penalty lost rank", f"{G.rank_of(Srp / sc, 1e-12)} of {want_rank}")
    ctx.expect(np.abs(Srp[want_rank:]).max(initial=0) == 0, "kernel functions are not the last columns", "")
    if c["option"] == 1:
        XX = C.T @ X.T @ X @ C
        off = XX - np.diag(np.diag(XX))
        ctx.expect(np.abs(off / np.outer(d, d)).max() < 1e-6, "transformed columns are not orthogonal", "")
        if not c["identity"] and not c["scale"]:
            ctx.close(XX, np.eye(len(XX)), "transformed columns are not orthonormal", atol=1e-6)
        if c["scale"]:
            r = X @ C
            ctx.close(np.sqrt((r[:, :want_rank] ** 2).mean()), 1.0, "penalised columns are not scaled to unit mean square", rtol=1e-6)
            if r.shape[1] > want_rank:
                ctx.close(np.sqrt((r[:, want_rank:] ** 2).mean()), 1.0, "kernel columns are not scaled to unit mean square", rtol=1e-6)
    if c["identity"]:
        v = np.diag(Srp)[:want_rank]
        ctx.close(v / v[0], np.ones(want_rank), "penalty is not a multiple of the identity", rtol=1e-8)
    ctx.outcome((k, m, c["con"], c["identity"], c["scale"], c["option"]))


# ------------------------------------------------------------------------------------------------------ groups of penalties
def logpdet(S):
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    return ev


def common_range(Ss):
    """Orthonormal basis of the joint range (independent of the smoothing parameters)."""
    N = sum(S / np.linalg.norm(S) for S in Ss if np.linalg.norm(S) > 0)
    ev, U = np.linalg.eigh((N + N.T) / 2)
    return U[:, ev > ev.max() * 1e-9]


def formulas_of(c):
    d, cb = c07.setup(c)
    Fs, Ps, Xs = [], [], []
    for specs in c["forms"]:
        sid = "series" if any(s[0] == "irf" for s in specs) else None
        F, P, X = G.build_formula(specs, d, codebook=cb, series_id=sid, onsets=G.ONS)
        Fs.append(F)
        Ps.append(P)
        Xs.append(scp.sparse.csc_array(X))
    return d, Fs, Ps, Xs


def assign(P, lam):
    """Tied penalties share the value; otherwise cycle through the pattern."""
    k, seen = 0, {}
    for p in P:
        if p.id is not None and p.id in seen:
            p.lam = seen[p.id]
            continue
        p.lam = float(lam[k % len(lam)])
        k += 1
        if p.id is not None:
            seen[p.id] = p.lam


def fields(p):
    return (p.start_index, p.rep_sj, p.rank, str(p.type), p.term, p.dist_param, p.id, p.lam)


def same_pen(ctx, a, b, what):
    ctx.expect(fields(a) == fields(b), f"{what}: fields", f"{fields(a)} instead of {fields(b)}")
    for nm in ("S_J", "S_J_emb", "D_J_emb"):
        ctx.close(G.dense(getattr(a, nm)), G.dense(getattr(b, nm)), f"{what}: {nm}", atol=1e-12)


def group(ctx, c):
    from mssm.src.python.repara import reparam, reparam_model
    from mssm.src.python.penalties import combine_shared_penalties, split_shared_penalties, embed_shared_penalties
    d, Fs, Ps, Xs = formulas_of(c)
    extra = c.get("extra", 0)
    if len(Fs) > 1 or extra:
        Ps = embed_shared_penalties(Ps, Fs, extra if extra else None)
    P = [p for q in Ps for p in q]
    for fi, q in enumerate(Ps):
        for p in q:
            if p.dist_param is None:
                p.dist_param = fi
    n = sum(F.n_coef for F in Fs) + extra
    off = np.cumsum([0] + [F.n_coef for F in Fs])
    # embedding of several formulas: every block moved to its formula's columns, nothing else
    for fi, q in enumerate(Ps):
        d1, F1, P1, _ = formulas_of(dict(c, forms=[c["forms"][fi]]))
        for a, b in zip(q, P1[0]):
            E = np.zeros((n, n))
            E[off[fi]:off[fi + 1], off[fi]:off[fi + 1]] = G.dense(b.S_J_emb)
            ctx.close(G.dense(a.S_J_emb), E, "penalty embedded over several formulas", atol=1e-12)
            E[off[fi]:off[fi + 1], off[fi]:off[fi + 1]] = G.dense(b.D_J_emb)
            ctx.close(G.dense(a.D_J_emb), E, "penalty root embedded over several formulas", atol=1e-12)
            ctx.expect(a.start_index == b.start_index + off[fi], "start column over several formulas", f"{a.start_index}")
            ctx.expect(a.dist_param == fi, "penalty assigned to the wrong formula", f"{a.dist_param}")
    assign(P, c["lam"])
    orig = copy.deepcopy(P)
    # combining / splitting of tied penalties
    M = combine_shared_penalties(copy.deepcopy(P))
    ids = [p.id for p in P if p.id is not None]
    tied = {i for i in ids if ids.count(i) > 1}
    ctx.expect(len(M) == len(P) - sum(ids.count(i) - 1 for i in tied), "number of smoothing parameters after combining", f"{len(M)}")
    for mp in M:
        if mp.id in tied:
            parts = [p for p in orig if p.id == mp.id]
            ctx.close(G.dense(mp.S_J_emb), sum(G.dense(p.S_J_emb) for p in parts), "combined penalty is not the sum of its parts", atol=1e-10)
            ctx.close(G.dense(mp.D_J_emb) @ G.dense(mp.D_J_emb).T, G.dense(mp.S_J_emb), "root of the combined penalty", atol=1e-6, rtol=1e-6)
            ctx.expect(mp.rank == sum(p.rank for p in parts), "rank of the combined penalty", f"{mp.rank}")
            ctx.expect(mp.lam == parts[0].lam, "smoothing parameter of the combined penalty", f"{mp.lam}")
    R = split_shared_penalties(copy.deepcopy(M))
    key = lambda p: (p.start_index, p.dist_param, p.rank, str(p.type), -1 if p.id is None else p.id, round(float(np.abs(G.dense(p.S_J_emb)).sum()), 9))
    ctx.expect(len(R) == len(orig), "splitting returns another number of penalties", f"{len(R)} instead of {len(orig)}")
    for a, b in zip(sorted(R, key=key), sorted(orig, key=key)):
        same_pen(ctx, a, b, "split after combine")
    M2 = combine_shared_penalties(R)
    ctx.expect(len(M2) == len(M), "recombining returns another number of penalties", f"{len(M2)}")
    S_tot = sum((p.lam * G.dense(p.S_J_emb) for p in orig), np.zeros((n, n)))
    # total re-parameterisation
    for fi, root in ((2, True), (1, False), (0, False)):
        use = copy.deepcopy(M)
        res = reparam(None, use, None, option=4, form_inverse=fi, form_root=root, n_c=1)
        Sj, S_emb, S_inv, S_root, S_reps, t_idx, s_idx, s_coef, Qs, Mp = res
        flat = split_shared_penalties(copy.deepcopy(M))
        ctx.expect(len(Sj) == len(flat), "penalties after re-parameterisation", f"{len(Sj)}")
        Q = np.eye(n)
        ldet, rank, members = 0.0, 0, []
        for gi, (q, idx, width) in enumerate(zip(Qs, s_idx, s_coef)):
            q = G.dense(q)
            reps = Sj[t_idx[gi][0]].rep_sj
            ctx.close(q.T @ q, np.eye(width), "the change of coefficients is not orthogonal", atol=1e-9)
            Sr = G.dense(S_reps[gi])
            for rr in range(reps):
                a = idx + rr * width
                Q[a:a + width, a:a + width] = q
                members += list(range(a, a + width))
            sg, ld = np.linalg.slogdet(Sr)
            ctx.expect(sg > 0, "re-parameterised total penalty is not positive definite on its range", "")
            ldet += reps * ld
            rank += reps * Sr.shape[0]
            blk = slice(idx, idx + width)
            Ss = [G.dense(p.S_J_emb)[blk, blk] for p in orig if p.start_index == idx]
            U = common_range(Ss)
            ctx.expect(U.shape[1] == Sr.shape[0], "rank of a term's total penalty", f"{Sr.shape[0]} instead of {U.shape[1]}")
            want = np.linalg.slogdet(U.T @ S_tot[blk, blk] @ U)[1]
            ctx.close(ld, want, "log-determinant of the total penalty of a term", rtol=1e-5, atol=1e-4, detail=f"lam {c['lam']}")
            if fi == 2 or (fi == 1 and len(t_idx[gi]) > 1):
                Iv = G.dense(S_inv)[idx:idx + Sr.shape[0], idx:idx + Sr.shape[0]]
                ctx.close(Iv @ Sr, np.eye(len(Sr)), "inverse of the total penalty", atol=1e-5)
            if root:
                L = G.dense(S_root)[idx:idx + Sr.shape[0], idx:idx + Sr.shape[0]]
                ctx.close(L @ L.T, Sr, "root of the total penalty", rtol=1e-7, atol=1e-8 * np.abs(Sr).max())
        ctx.expect(len(members) == len(set(members)), "groups overlap", "")
        sc = max(1.0, np.abs(S_tot).max())
        ctx.close(G.dense(S_emb), Q.T @ S_tot @ Q, "total penalty in the new coefficients", atol=1e-8 * sc, rtol=1e-6)
        for a, b in zip(Sj, flat):
            A, B = G.dense(a.S_J_emb), G.dense(b.S_J_emb)
            s1 = max(1.0, np.abs(B).max())
            ctx.close(A, Q.T @ B @ Q, "single penalty in the new coefficients", atol=1e-7 * s1, rtol=1e-6)
            D = G.dense(a.D_J_emb)
            ctx.close(D @ D.T, A, "single penalty root in the new coefficients", atol=1e-6 * s1, rtol=1e-6)
            ctx.expect((a.lam, a.start_index, a.rep_sj, a.rank, a.id) == (b.lam, b.start_index, b.rep_sj, b.rank, b.id), "penalty attributes changed", "")
        ctx.expect(Mp == n - rank, "dimension of the unpenalised space", f"{Mp} instead of {n - rank}")
        ctx.state()
    # total penalty, its generalised inverse and root in the original coefficients, as used for the smoothing parameter updates
    from mssm.src.python.gamm_solvers import compute_S_emb_pinv_det
    Se, Sp, Sr, use_rank = compute_S_emb_pinv_det(n, copy.deepcopy(M), "svd", True)
    sc = max(1.0, np.abs(S_tot).max())
    ctx.close(G.dense(Se), S_tot, "total penalty", atol=1e-10 * sc, rtol=1e-9)
    Sr = G.dense(Sr)
    ctx.close(Sr @ Sr.T, S_tot, "root of the total penalty in the original coefficients", atol=1e-7 * sc, rtol=1e-6)
    ctx.expect(len(use_rank) == len(M), "number of rank decisions", f"{len(use_rank)} for {len(M)} penalties")
    U = common_range([G.dense(p.S_J_emb) for p in orig])
    Sm = U @ np.linalg.inv(U.T @ S_tot @ U) @ U.T
    for j, (p, ur) in enumerate(zip(M, use_rank)):
        E = G.dense(p.S_J_emb)
        got = p.rank if ur else p.lam * float(np.trace(G.dense(Sp) @ E))
        ctx.close(got, p.lam * float(np.trace(Sm @ E)), "derivative of the log-determinant of the total penalty", rtol=1e-4, atol=1e-4, detail=f"penalty {j} of {len(M)}, start {p.start_index}, lam {c['lam']}")
    # whole model
    coef = vmc.gen(("c14coef", n), n, lo=-1, hi=1).reshape(-1, 1)
    up = [F.unpenalized_coef for F in Fs]
    use = copy.deepcopy(M)
    cf, Xr, Sj, S_emb, S_norm, S_root, S_inv, Q_emb, Qs = reparam_model([F.n_coef for F in Fs], up, coef.copy(), list(off[1:]) if extra else list(off[1:-1]), [X.copy() for X in Xs], use,
                                                                        form_inverse=True, form_root=True, form_balanced=True, n_c=1)
    Qe = G.dense(Q_emb)
    ctx.close(Qe.T @ Qe, np.eye(n), "the model's change of coefficients is not orthogonal", atol=1e-9)
    ctx.close(Qe @ cf, coef, "coefficients do not map back", atol=1e-9)
    for fi, X in enumerate(Xs):
        a = slice(off[fi], off[fi + 1])
        ctx.close(G.dense(Xr[fi] @ cf[a]), G.dense(X @ coef[a]), "fitted values change under re-parameterisation", atol=1e-7, rtol=1e-7)
        if fi < len(Qs):
            ctx.close(G.dense(Qs[fi]), Qe[a, a], "per-formula change of coefficients", atol=1e-10)
        ctx.close(G.dense(Xr[fi]), G.dense(X) @ Qe[a, a], "re-parameterised model matrix", atol=1e-8, rtol=1e-8)
    ctx.close((cf.T @ G.dense(S_emb) @ cf).item(), (coef.T @ S_tot @ coef).item(), "penalty value changes under re-parameterisation", rtol=1e-6)
    fl = split_shared_penalties(Sj)
    T = sum((p.lam * G.dense(p.S_J_emb) for p in fl), np.zeros((n, n)))
    ctx.close(T, G.dense(S_emb), "sum of the re-parameterised penalties", atol=1e-7 * max(1, np.abs(T).max()), rtol=1e-6)
    N = sum(G.dense(p.S_J_emb) / np.linalg.norm(G.dense(p.S_J_emb)) for p in orig)
    N = N / np.linalg.norm(N)
    ctx.close(G.dense(S_norm), Qe.T @ N @ Qe, "balanced penalty", atol=1e-7)
    ctx.outcome((n, len(P), len(M), tuple(c["lam"])))


LAMS = [[1.0], [1e-3, 1e3], [1e3, 1e-3], [1.0, 1e3, 1e-3], [1e-3, 1.0, 1e3], [1e3, 1.0, 1e-3], [0.3, 0.3]]


def run(chk):
    th = chk.thorough
    ms = [1, 2, 3]
    sp = [c for c in vmc.product(n=[40, 90] if th else [40], k=list(range(4, 11)) if th else [4, 6, 9], m=ms, con=[False, True], mag=[-3, 0, 2, 4], QR=[False, True], identity=[False, True], scale=[False, True], option=[1, 2, 3])
          if not (c["option"] > 1 and (c["k"] > 8 or c["mag"] not in (0, 2))) and not (c["k"] <= 4 and c["m"] == 3 and c["con"])]
    chk.explore("single term", sp, single, bounds="basis size 4..9, order 1-3, constraint on/off, options 1-3, QR/Cholesky, identity, scaling, data magnitude 1e-3..1e4", min_outcomes=30)
    pool = [s for s in G.U_SM + G.U_TP + G.U_RE + G.U_FS + G.U_IR if s[2].get("is_penalized", True)]
    pool += [G.T("f", ["x"], nk=6, pens=[2, 1], identifiable=False), G.T("f", ["x"], nk=6, pens=[1, 2], identifiable=False), G.T("f", ["x"], nk=6, pens=["I", 2], identifiable=False),
             G.T("f", ["x"], nk=6, pens=[3, 2, 1], identifiable=False), G.T("f", ["x"], nk=6, pens=[1, 2, 3], by="cond", id=2), G.T("f", ["x", "z"], nk=[3, 4], te=True, identifiable=False, pens=[1, 2], rp=0)]
    sp = []
    for s in pool:
        for lam in LAMS:
            sp.append(dict(forms=[[G.T("i"), s]], lam=lam, na="none"))
            sp.append(dict(forms=[[s]], lam=lam, na="mix"))
    small = [s for s in G.CORE if s[0] not in ("i", "l")] + [G.T("f", ["x"], nk=5, id=3), G.T("f", ["z"], nk=5, id=3), G.T("ri", "sub", id=3)]
    for a, b in itertools.permutations(small, 2):
        for lam in LAMS[1:4] if th else LAMS[3:5]:
            if G.legal([a, b]):
                sp.append(dict(forms=[[G.T("l", ["fac"]), a, b]], lam=lam, na="none"))
            sp.append(dict(forms=[[G.T("i"), a], [G.T("i"), G.T("l", ["x"]), b]], lam=lam, na="none"))
            sp.append(dict(forms=[[a], [b]], lam=lam, na="none", extra=2))
    for a, b in itertools.permutations(small, 2):
        sp.append(dict(forms=[[G.T("i"), a], [G.T("i")], [b, G.T("i")]], lam=LAMS[3], na="none"))
        sp.append(dict(forms=[[G.T("i"), G.T("l", ["x"])], [a], [G.T("i"), b]], lam=LAMS[4], na="none"))
        sp.append(dict(forms=[[a], [G.T("i"), b], [G.T("i"), G.T("l", ["cond"])]], lam=LAMS[4], na="none", extra=1))
    # an identifier used by several terms next to one used by a single term
    ids = [G.T("f", ["x"], nk=5), G.T("f", ["z"], nk=5), G.T("f", ["w"], nk=4), G.T("ri", "sub"), G.T("f", ["x"], nk=5, by="cond")]
    for tri in itertools.permutations(range(len(ids)), 3):
        for pat in ((1, 2, 2), (2, 1, 2), (2, 2, 1)) if th or len(set(tri) & {3, 4}) < 2 else ((1, 2, 2),):
            ts = [G.T(ids[j][0], *ids[j][1], **dict(ids[j][2], id=k)) for j, k in zip(tri, pat)]
            sp.append(dict(forms=[[G.T("i")] + ts], lam=LAMS[3], na="none"))
            sp.append(dict(forms=[[G.T("i")] + ts[:2], [G.T("i"), ts[2]]], lam=LAMS[4], na="none"))
    for ns in G.NEST:
        if not any(s[2].get("penalize_null") for s in ns):
            for lam in LAMS:
                sp.append(dict(forms=[[G.T("i")] + ns], lam=lam, na="none"))
    chk.explore("groups", sp, group, bounds=f"every penalised term form ({len(pool)}) alone and with an intercept, ordered pairs of {len(small)} forms in one, two and three formulas, 7 smoothing-parameter patterns", min_outcomes=200)
