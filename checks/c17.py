"""C17: multi-parameter families: densities, derivatives, distribution functions, residuals, and model-level gradients/Hessians for every zero pattern of the design."""
import itertools
import numpy as np
import scipy as scp
from scipy.integrate import quad
from scipy.special import gammainc, erfc, logsumexp
import vmc
import dist_ref as R
from c16 import mk_link

LEVEL = "model_checking"
ASSUMPTIONS = ["Additive constants of the multivariate normal log-likelihood that do not depend on any parameter are not part of the property.",
               "Second derivatives of GAUMLSS and GAMMALS are expected ones (as documented by the families); MULNOMLSS and MultiGauss report exact ones."]


def col(x):
    return np.asarray(x, dtype=float).reshape(-1, 1)


def mkfam(c):
    import mssm.src.python.exp_fam as E
    if c["fam"] == "MULNOMLSS":
        return E.MULNOMLSS(c["K"])
    return getattr(E, c["fam"])([mk_link(L) for L in c["links"]])


def lnorm(y, m):
    return R.l_norm(y, m[0], m[1] ** 2)


def lgam(y, m):
    return R.l_gamma(y, m[0], m[1])


def lmul(y, m):
    t = 1 + sum(m)
    return (np.log(m[int(y) - 1]) if y > 0 else 0.0) - np.log(t)


REF = {"GAUMLSS": lnorm, "GAMMALS": lgam, "MULNOMLSS": lmul}


def expected_d2(fam, m, i, j):
    """E[d2 l / d m_i d m_j] by quadrature over the response."""
    f = REF[fam]
    if fam == "GAUMLSS":
        sd = m[1]
        pts = lambda z: m[0] + sd * z  # noqa: E731
        g = lambda z: np.exp(np.real(f(pts(z), m))) * sd * R.d2(lambda x: f(pts(z), x), m, i, j, h=1e-3 * (sd if i or j else 1))  # noqa: E731
        return quad(g, -9, 9, limit=200)[0]
    # gamma: d2 is linear in y and log y, use exact moments
    from scipy.special import digamma
    a = 1 / m[1]
    Ey, El = m[0], digamma(a) - np.log(a / m[0])
    h = 1e-3 * m[j]

    def l0(x):  # E over y of the log density with parameters x
        b = 1 / x[1]
        return (b - 1) * El - b * Ey / x[0] - R.loggamma(b) + b * np.log(b / x[0])
    return R.d2(l0, m, i, j, h=h)


def pars_case(ctx, c):
    from mssm.src.python.custom_types import DerivOrder
    f = mkfam(c)
    fam = c["fam"]
    m = c["mus"]
    ref = REF[fam]
    ys = c["ys"]
    Y = col(ys)
    M = [np.full(Y.shape, v) + 0.0 for v in m]
    keep = [q.copy() for q in M] + [Y.copy()]
    lp = np.asarray(f.lp(Y, *M))
    want = col([np.real(ref(v, m)) for v in ys])
    ctx.close(lp, want, "log density", rtol=1e-8, atol=1e-9)
    ctx.close(f.llk(Y, *M), want.sum(), "log-likelihood", rtol=1e-8, atol=1e-8)
    n = len(m)
    for i in range(n):
        d = col([R.d1(lambda x: ref(v, x), m, i) for v in ys])
        if fam == "MULNOMLSS":
            d = d * m[i]
        ctx.close(f.dpars(Y, *M, index=i, order=DerivOrder.d1), d, f"first derivative, parameter {i}", rtol=1e-7, atol=1e-9)
        if fam == "MULNOMLSS":
            le = lambda x, v: ref(v, np.exp(x))  # noqa: E731
            d2 = col([R.d2(lambda x: le(x, v), np.log(m), i, i, h=2e-3) for v in ys])
        else:
            d2 = np.full(Y.shape, expected_d2(fam, m, i, i))
        ctx.close(np.broadcast_to(f.dpars(Y, *M, index=i, order=DerivOrder.d2), Y.shape), d2, f"second derivative, parameter {i}", rtol=1e-5, atol=1e-7 * max(1, np.abs(d2).max()))
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            if fam == "MULNOMLSS":
                d2 = col([R.d2(lambda x: le(x, v), np.log(m), i, j, h=2e-3) for v in ys])
            else:
                d2 = np.full(Y.shape, expected_d2(fam, m, i, j))
            ctx.close(f.dpars(Y, *M, index=k, order=DerivOrder.d2m), d2, f"mixed derivative {i},{j}", rtol=1e-5, atol=1e-6 * max(1, np.abs(d2).max()))
            k += 1
    ctx.expect(f.n_d2m == k and f.n_par == n, "number of parameters and mixed derivatives")
    for order, top in ((DerivOrder.d1, n), (DerivOrder.d2, n), (DerivOrder.d2m, k)):
        try:
            f.dpars(Y, *M, index=top, order=order)
            ctx.fail("derivative for a parameter that does not exist", f"{order} {top}")
        except (ValueError, IndexError):
            pass
    # distribution function and residuals
    lcp = np.asarray(f.lcp(Y, *M))
    if fam == "GAUMLSS":
        cdf = col([0.5 * erfc(-(v - m[0]) / m[1] / np.sqrt(2)) for v in ys])
        ctx.close(f.get_resid(Y, *M), (Y - m[0]) / m[1], "residuals", rtol=1e-9)
    elif fam == "GAMMALS":
        cdf = col([gammainc(1 / m[1], v / (m[1] * m[0])) for v in ys])
        D = 2 * ((Y - m[0]) / m[0] - np.log(Y / m[0]))
        ctx.close(f.get_resid(Y, *M), np.sign(Y - m[0]) * np.sqrt(D / m[1]), "residuals", rtol=1e-7, atol=1e-7)
    else:
        p = np.array([1.0] + list(m)) / (1 + sum(m))
        order = list(range(1, n + 1)) + [0]  # reference category last
        cum = {y: sum(p[q] for q in order[:order.index(y) + 1]) for y in order}
        cdf = col([cum[int(v)] for v in ys])
        ctx.close(np.asarray(f.get_probs(*M)), np.tile(p, (len(ys), 1)), "category probabilities", rtol=1e-9)
        r1, r2 = np.asarray(f.get_resid(Y, *M, seed=3)), np.asarray(f.get_resid(Y, *M, seed=3))
        ctx.expect(np.array_equal(r1, r2), "same seed, different residuals")
        u = 0.5 * erfc(-r1 / np.sqrt(2))
        lo = cdf - col([p[int(v)] for v in ys])
        ctx.expect(((u >= lo - 1e-9) & (u <= cdf + 1e-9)).all(), "residual outside of the interval of its category", f"{u.ravel()} {lo.ravel()} {cdf.ravel()}")
        v = (u - lo) / (cdf - lo)
        M2 = [np.full(Y.shape, 0.7 + 0.1 * q) for q in range(n)]
        u2 = 0.5 * erfc(-np.asarray(f.get_resid(Y, *M2, seed=3)) / np.sqrt(2))
        p2 = np.array([1.0] + [0.7 + 0.1 * q for q in range(n)])
        p2 /= p2.sum()
        lo2 = col([sum(p2[q] for q in order[:order.index(int(w))]) for w in ys])
        v2 = (u2 - lo2) / col([p2[int(w)] for w in ys])
        ok = (u > 1e-9) & (u < 1 - 1e-9) & (cdf - lo > 1e-5)
        ctx.close(v[ok], v2[ok], "position within the interval depends on the parameters", rtol=1e-4, atol=1e-4)
        for cat in range(n + 1):
            big = [np.full((3, 1), 1e-9 if cat != q + 1 else 1e9) for q in range(n)]
            s = np.asarray(f.rvs(*big, size=4, seed=1))
            ctx.expect(s.shape == (4, 3) and (s == cat).all(), "draws of an almost certain category", f"{cat} {s}")
    ok = cdf > 1e-280
    ctx.close(lcp[ok], np.log(cdf[ok]), "log distribution function", rtol=1e-6, atol=1e-9)
    if fam != "MULNOMLSS":
        two = [np.array([[m[0]], [m[0] * 1.5]]), np.array([[m[1]], [m[1]]])]
        a = np.asarray(f.rvs(*two, size=5, seed=7))
        b = np.asarray(f.rvs(np.array([[0.0], [0.0]]) if fam == "GAUMLSS" else np.ones((2, 1)), np.ones((2, 1)) if fam == "GAUMLSS" else two[1], size=5, seed=7))
        ctx.expect(a.shape == (5, 2), "shape of draws", f"{a.shape}")
        ctx.close(a, two[0].T + m[1] * b if fam == "GAUMLSS" else two[0].T * b, "draws do not follow location/scale of the parameters", rtol=1e-8)
    for q, w in zip(M + [Y], keep):
        ctx.expect(np.array_equal(q, w), "an argument is modified")
    ctx.trans(3 * n)
    ctx.state(len(ys))
    ctx.trace()
    ctx.outcome((fam, tuple(np.round(want.ravel()[:3], 6))))


def xs_from(codes, N, ps, key):
    out = []
    for a, (code, p) in enumerate(zip(codes, ps)):
        X = vmc.gen((key, a), N, p)
        bits = np.array([(code >> b) & 1 for b in range(N * p)]).reshape(N, p)
        out.append(X * bits)
    return out


def model_case(ctx, c):
    """GAMLSSGSMMFamily: llk, gradient, Hessian in the coefficients."""
    from mssm.src.python.utils import GAMLSSGSMMFamily
    f = mkfam(c)
    fam = c["fam"]
    N = c["N"]
    ps = c["ps"]
    Xs = xs_from(c["codes"], N, ps, "gls")
    links = [["LOG"]] * c["K"] if fam == "MULNOMLSS" else c["links"]
    fi = [R.link_fns(*L)[1] for L in links]
    beta = np.concatenate([vmc.gen(("b", a), p, lo=0.05, hi=0.4) for a, p in enumerate(ps)])
    off = np.array([{"Identity": 1.2, "LOG": 0.0, "LOGb": 0.1}[L[0]] for L in links])
    # offsets through an extra constant column keep means admissible
    Xs = [np.column_stack([np.ones(N), X]) for X in Xs] if c["const"] else Xs
    if c["const"]:
        beta = np.concatenate([np.concatenate([[off[a]], vmc.gen(("b", a), p, lo=0.05, hi=0.4)]) for a, p in enumerate(ps)])
    idx = np.cumsum([X.shape[1] for X in Xs])[:-1]
    y = np.array([0, 1, 2, 1, 0, 2][:N]) % (c.get("K", 2) + 1) if fam == "MULNOMLSS" else np.array([0.4, 1.3, 2.2, 0.9, 3.1, 1.0][:N])
    ref = REF[fam]

    def ll(b):
        sp = np.split(b, idx)
        mu = [fi[a](Xs[a] @ sp[a]) for a in range(len(Xs))]
        return sum(ref(y[i], [q[i] for q in mu]) for i in range(N))
    G = GAMLSSGSMMFamily(len(Xs), f)
    S = [scp.sparse.csc_array(X) for X in Xs]
    arg = (col(beta), list(idx), [col(y)] + [None] * (len(Xs) - 1), S)
    sp = np.split(beta, idx)
    mu = np.array([fi[a](Xs[a] @ sp[a]) for a in range(len(Xs))])
    if fam != "MULNOMLSS" and (mu[1] <= 1e-3).any():
        return
    ctx.close(G.llk(*arg), np.real(ll(beta)), "model log-likelihood", rtol=1e-8, atol=1e-8)
    g = R.grad(ll, beta)
    ctx.close(np.asarray(G.gradient(*arg)), col(g), "gradient in the coefficients", rtol=1e-7, atol=1e-8 * max(1, np.abs(g).max()))
    H = G.hessian(*arg)
    ctx.expect(H.shape == (len(beta), len(beta)), "shape of the Hessian", f"{H.shape} for {len(beta)} coefficients")
    if H.shape == (len(beta),) * 2:
        if fam == "MULNOMLSS":
            W = R.hess(ll, beta)
        else:
            W = np.zeros((len(beta),) * 2)
            st = np.concatenate([[0], idx, [len(beta)]]).astype(int)
            for i in range(N):
                e = [Xs[a][i] @ sp[a] for a in range(2)]
                d = [R.d1(lambda x: fi[a](x[0]), [e[a]], 0) for a in range(2)]
                dd = [R.d2(lambda x: fi[a](x[0]), [e[a]], 0, 0, h=2e-3) for a in range(2)]
                m = [mu[0, i], mu[1, i]]
                for a in range(2):
                    g1 = R.d1(lambda x: ref(y[i], x), m, a)
                    ed = {("GAUMLSS", 0): -1 / m[1] ** 2, ("GAUMLSS", 1): -2 / m[1] ** 2, ("GAMMALS", 0): -1 / (m[1] * m[0] ** 2)}.get((fam, a))
                    ed = 1 / m[1] ** 3 - scp.special.polygamma(1, 1 / m[1]) / m[1] ** 4 if ed is None else ed
                    W[st[a]:st[a + 1], st[a]:st[a + 1]] += (ed * d[a] ** 2 + g1 * dd[a]) * np.outer(Xs[a][i], Xs[a][i])
        ctx.close(H.toarray(), W, "Hessian in the coefficients", rtol=1e-5, atol=1e-6 * max(1, np.abs(W).max()))
    r = np.asarray(G.get_resid(*arg))
    ctx.close(r, np.asarray(f.get_resid(col(y), *[col(q) for q in mu])), "model residuals", rtol=1e-8, atol=1e-9)
    ctx.trans(3)
    ctx.state()
    ctx.trace()
    ctx.outcome(np.round(g, 6))


def wrap_case(ctx, c):
    """Single-parameter families wrapped as general smooth models (scale / theta as extra coefficients)."""
    import mssm.src.python.exp_fam as E
    from mssm.src.python.utils import GAMLSSGSMMFamily
    import c16
    k = c["fam"]
    N = 5
    X = np.column_stack([np.ones(N), vmc.gen(("wX", 0), N), np.array([0, 1.0, 0, 0, -1])])
    X[:, 1:] *= np.array([c["xpat"] & 1, c["xpat"] >> 1])
    base = {"Identity": 3.0, "LOG": 0.4, "LOGb": 0.6, "Logit": 0.2}[c["link"][0]]
    if k == "Binomial" and c["link"][0] == "Identity":
        base = 0.5
    beta = np.array([base, 0.15, -0.1])
    f, fi = c16.fam(dict(c, mdf=3, theta=[0.1, 0.2], n=4)), R.link_fns(*c["link"])[1]
    G = GAMLSSGSMMFamily(1, f)
    mu = fi(X @ beta)
    y = {"Binomial": np.array([0, 1, 0.25, 0.5, 0.75]), "Poisson": np.array([0, 1, 2, 5, 3.0])}.get(k, mu * np.array([0.4, 1.3, 1.0, 2.2, 0.9]))
    if k == "ScaledT":
        ex = np.array(c["extra"])
        ll = lambda b: sum(R.l_t(y[i], fi(X[i] @ b[:3]), np.exp(b[3]), np.exp(b[4]) + 3) for i in range(N))  # noqa: E731
    elif k in ("Poisson", "Binomial"):
        ex = np.array([])
        ll = lambda b: sum(c16.ref_lp(c, y[i], fi(X[i] @ b[:3]), 1, 4) for i in range(N))  # noqa: E731
    else:
        ex = np.array(c["extra"][:1])
        ll = lambda b: sum(c16.ref_lp(c, y[i], fi(X[i] @ b[:3]), np.exp(b[3]), 4) for i in range(N))  # noqa: E731
    b = np.concatenate([beta, ex])
    arg = (col(b), [3] if len(ex) else [], [col(y)], [scp.sparse.csc_array(X)])
    ctx.close(G.llk(*arg), np.real(ll(b)), "log-likelihood", rtol=1e-8)
    g = R.grad(ll, b)
    ctx.close(np.asarray(G.gradient(*arg)), col(g), "gradient (extra parameters last)", rtol=1e-5, atol=2e-5 * max(1, np.abs(g).max()) if k not in ("Poisson", "Binomial", "ScaledT") else 1e-8 * max(1, np.abs(g).max()))
    W = R.hess(ll, b)
    if c["xpat"] == 3:
        H = G.hessian(*arg).toarray()
        # the scale derivative is itself a finite difference for two-parameter families
        loose = k in ("Gaussian", "Gamma", "InvGauss")
        ctx.close(H[:3, :3], W[:3, :3], "Hessian in the coefficients", rtol=1e-3, atol=3e-3 * max(1, np.abs(W).max()))
        if not loose:
            ctx.close(H, W, "Hessian", rtol=1e-3, atol=3e-3 * max(1, np.abs(W).max()))
    D = np.asarray(f.D(col(y), col(mu), **({"theta": col(ex)} if k == "ScaledT" else {})))
    ctx.close(np.asarray(G.get_resid(*arg)), np.sign(col(y) - col(mu)) * np.sqrt(np.maximum(D, 0)), "residuals", rtol=1e-7, atol=1e-8)
    ctx.trans(3)
    ctx.state()
    ctx.trace()
    ctx.outcome(np.round(g, 6))


def mvn_case(ctx, c):
    import mssm.src.python.exp_fam as E
    P = c["P"]
    f = E.MultiGauss(P, [mk_link(L) for L in c["links"]])
    fi = [R.link_fns(*L)[1] for L in c["links"]]
    N = c["N"]
    ps = c["ps"]
    Xs = xs_from(c["codes"], N, ps, "mvn")
    shared = c["shared"]
    Xs = [Xs[0] if shared and a > 0 else X for a, X in enumerate(Xs)]
    beta = [vmc.gen(("mb", a), X.shape[1], lo=-0.6, hi=0.8) for a, X in enumerate(Xs)]
    nt = P * (P + 1) // 2
    th = vmc.gen(("mt", c["tk"], P), nt, lo=-0.8, hi=0.7)
    if c["tk"] == 0:
        th = np.zeros(nt)
    b = np.concatenate(beta + [th])
    idx = np.cumsum([len(q) for q in beta])
    Y = vmc.gen(("mY", N), N, P, lo=-1, hi=2.5)

    def Rm(t):
        A = np.zeros((P, P), dtype=complex)
        k = 0
        for i in range(P):
            for j in range(i, P):
                A[i, j] = np.exp(t[k]) if i == j else t[k]
                k += 1
        return A

    def ll(x):
        sp = np.split(x, idx)
        A = Rm(sp[-1])
        r = 0.0
        for i in range(N):
            e = np.array([Y[i, a] - fi[a](Xs[a][i] @ sp[a]) for a in range(P)])
            z = A @ e
            r = r - 0.5 * (z @ z) + np.log(np.diag(A)).sum()
        return r
    arg = (col(b), list(idx), [col(Y[:, a]) for a in range(P)], [scp.sparse.csc_array(X) if not (shared and a) else None for a, X in enumerate(Xs)])
    b2 = b * 0.6 + 0.1
    ctx.close(f.llk(*arg) - f.llk(col(b2), *arg[1:]), np.real(ll(b.astype(complex)) - ll(b2.astype(complex))), "log-likelihood differences", rtol=1e-7, atol=1e-8)
    g = R.grad(ll, b)
    ctx.close(np.asarray(f.gradient(*arg)), col(g), "gradient", rtol=1e-7, atol=1e-8 * max(1, np.abs(g).max()))
    W = R.hess(ll, b)
    sc = 1e-6 * max(1, np.abs(W).max())
    for j in range(len(b)):
        ctx.close(np.asarray(f.jcolhessian(j, *arg)).reshape(-1, 1), W[:, [j]], "column of the Hessian", rtol=1e-5, atol=sc, detail=f"column {j}")
    ctx.close(f.hessian(*arg).toarray(), W, "Hessian", rtol=1e-5, atol=sc)
    sets = [q for r in (1, 2) for q in itertools.permutations(range(len(b)), r)]
    for q in sets[:: 1 if len(sets) < 60 else 3]:
        H = f.jhessian(np.array(q), *arg).toarray()
        mask = np.zeros_like(W, dtype=bool)
        mask[list(q)] = True
        mask[:, list(q)] = True
        ctx.close(H, np.where(mask, W, 0), "Hessian restricted to columns", rtol=1e-5, atol=sc, detail=f"columns {q}")
    A, ld = f.getR(th)
    ctx.close(A, np.real(Rm(th)), "precision root", rtol=1e-9)
    ctx.close(ld, np.log(np.diag(np.real(Rm(th)))).sum(), "log determinant of the precision root", rtol=1e-9, atol=1e-12)
    mus, t2 = f.predict(*arg[:2], arg[3])
    mu = np.column_stack([fi[a](Xs[a] @ beta[a]) for a in range(P)])
    ctx.close(mus, mu, "predicted means", rtol=1e-9)
    ctx.close(t2, th, "predicted theta", rtol=1e-9)
    Z = (Y - mu) @ np.real(Rm(th)).T
    ctx.close(np.asarray(f.get_resid(*arg)), Z, "residuals are not the standardised responses", rtol=1e-8, atol=1e-10)
    for a in range(P):
        ctx.close(np.asarray(f.get_resid(*arg, mean=a)), Z[:, [a]], "residuals of one mean", rtol=1e-8, atol=1e-10)
    if c["tk"] == 1 and P > 1:
        s1, s2 = np.asarray(f.rvs(mu, th, size=3, seed=5)), np.asarray(f.rvs(mu * 0, th, size=3, seed=5))
        ctx.expect(s1.shape == (3, P, N), "shape of draws", f"{s1.shape}")
        ctx.close(s1 - s2, np.tile(mu.T, (3, 1, 1)), "draws are not shifted by the means", rtol=1e-7, atol=1e-8)
    ctx.trans(len(b) + len(sets))
    ctx.state()
    ctx.trace()
    ctx.outcome(np.round(g, 6))


def default_case(ctx, c):
    """A user family that only provides a log-likelihood: numerical gradient and Hessian."""
    import mssm.src.python.exp_fam as E
    P, n = 1, c["n"]
    A = (lambda q: q @ q.T / n + np.eye(n))(vmc.gen(("dA", n), n, n))

    class Fam(E.GSMMFamily):
        def llk(self, coef, coef_split_idx, ys, Xs):
            x = np.asarray(coef).reshape(-1)
            return float(-0.5 * x @ A @ x + np.sum(np.sin(x)))

        def get_resid(self, *a):
            return None

    class Fam2(Fam):
        def gradient(self, coef, coef_split_idx, ys, Xs):
            x = np.asarray(coef).reshape(-1)
            return (-A @ x + np.cos(x)).reshape(-1, 1)
    x = vmc.gen(("dx", n), n)
    ll = lambda q: -0.5 * q @ A @ q + np.sum(np.sin(q))  # noqa: E731
    g, W = R.grad(ll, x), R.hess(ll, x)
    args = (col(x), [], [None], [None])
    ctx.close(np.asarray(Fam(1, [E.Identity()]).gradient(*args)), col(g), "numerical gradient", rtol=1e-4, atol=1e-5)
    f = Fam2(1, [E.Identity()])
    keep = args[0].copy()
    for j in range(n):
        ctx.close(np.asarray(f.jcolhessian(j, *args)).reshape(-1), W[:, j], "numerical column of the Hessian", rtol=1e-4, atol=1e-4)
    ctx.close(f.hessian(*args).toarray(), W, "numerical Hessian", rtol=1e-4, atol=1e-4)
    ctx.expect(np.array_equal(args[0], keep), "the coefficients are modified")
    for r in range(1, n + 1):
        for q in itertools.permutations(range(n), r):
            mask = np.zeros((n, n), dtype=bool)
            mask[list(q)] = True
            mask[:, list(q)] = True
            ctx.close(f.jhessian(np.array(q), *args).toarray(), np.where(mask, W, 0), "numerical Hessian restricted to columns", rtol=1e-4, atol=1e-4, detail=f"{q}")
            ctx.trans()
    ctx.close(f.jhessian(np.arange(n), *args, n_c=2).toarray(), W, "numerical Hessian, two processes", rtol=1e-4, atol=1e-4)
    ctx.state(n)
    ctx.trace()
    ctx.outcome(np.round(g, 5))


def run(chk):
    th = chk.thorough
    sp = [dict(fam="GAUMLSS", links=[["Identity"], ["LOGb", -0.0001]], mus=[m, s], ys=[-4.0, 0.0, 0.31, 2.0, 9.0]) for m in (-3.0, 0.0, 0.31, 5.0) for s in (0.05, 0.4, 1.0, 3.0)]
    sp += [dict(fam="GAMMALS", links=[["LOG"], ["LOGb", -0.0001]], mus=[m, s], ys=[0.01, 0.31, 2.0, 14.0]) for m in (0.05, 0.31, 1.0, 5.0) for s in (0.02, 0.4, 1.0, 3.0)]
    sp += [dict(fam="MULNOMLSS", K=K, mus=list(m), ys=[(a * 2 + b) % (K + 1) for a in range(K + 1) for b in (0, 1)]) for K in (1, 2, 3) for m in itertools.product((0.03, 0.6, 1.0, 4.0), repeat=K)]
    chk.explore("parameters", sp, pars_case, bounds="GAUMLSS, GAMMALS, MULNOMLSS (1-3 log odds): all combinations of 4 values per parameter x all responses of the grid", min_outcomes=50)
    sp = []
    for fam, ls in (("GAUMLSS", [["Identity"], ["LOGb", -0.0001]]), ("GAUMLSS", [["LOG"], ["LOG"]]), ("GAUMLSS", [["LOGb", 0.3], ["Identity"]]), ("GAMMALS", [["LOG"], ["LOGb", -0.0001]]), ("GAMMALS", [["Identity"], ["LOG"]])):
        for c1 in range(2 ** 6):
            for c2 in (63, 0, 0b010101, 0b101010, 0b000011, 0b110000) if not th else range(64):
                for k in (0, 1):
                    if k == 0 and fam == "GAMMALS":
                        continue
                    sp.append(dict(fam=fam, links=ls, N=3, ps=[2, 2], codes=[c1, c2] if (c1 + k) % 2 else [c2, c1], const=k))
    for K in (1, 2, 3):
        for c1 in range(64):
            for rest in ((63,), (0b010101,), (0,)) if K > 1 else ((63,),):
                cs = [c1] + list(rest) * (K - 1)
                for r in range(K):
                    sp.append(dict(fam="MULNOMLSS", K=K, N=3, ps=[2] * K, codes=cs[r:] + cs[:r], const=0))
    chk.explore("models", sp, model_case, bounds="every zero pattern of a 3x2 model matrix of one parameter x selected patterns of the others (thorough: all pairs); 7 link combinations; 1-3 log odds", min_outcomes=200)
    sp = [dict(fam=k, link=L, xpat=xp, extra=e) for k in ("Gaussian", "Gamma", "InvGauss", "Poisson", "ScaledT") for L in (["Identity"], ["LOG"], ["LOGb", 0.3]) for xp in range(4) for e in ([-0.3, 0.4], [0.5, 1.5], [-1.0, 3.0])]
    sp += [dict(fam="Binomial", link=L, xpat=xp, extra=[0.0, 0.0]) for L in (["Logit"], ["Identity"]) for xp in range(4)]
    chk.explore("wrapped families", sp, wrap_case, bounds="6 families x links x zero columns x 3 values of the extra parameters", min_outcomes=40)
    sp = []
    for P, lk in ((1, [["Identity"]]), (1, [["LOG"]]), (2, [["Identity"]] * 2), (2, [["LOG"], ["Identity"]]), (2, [["Identity"], ["LOGb", 0.3]]), (3, [["Identity"]] * 3), (3, [["LOG"], ["Identity"], ["LOG"]])):
        for tk in (0, 1, 2):
            for shared in (False, True):
                for code in (63, 0b010101, 0b111001) if P > 2 and not th else (63, 0, 0b010101, 0b101010, 0b111001, 0b000100):
                    if P == 1 and shared:
                        continue
                    sp.append(dict(P=P, links=lk, N=3, ps=[2, 2, 2][:P] if shared else [2, 1, 2][:P], codes=[code, 63, 63 if P < 3 else 0b001111][:P], tk=tk, shared=shared))
    chk.explore("multivariate normal", sp, mvn_case, bounds="1-3 dimensions, 7 link combinations, own and shared model matrices, zero patterns, 3 settings of the precision root; every one- and two-element column subset in every order", min_outcomes=30)
    chk.explore("numerical derivatives", [dict(n=n) for n in (1, 2, 3, 4)], default_case, bounds="user family with 1-4 coefficients, every ordered subset of columns", min_outcomes=4)
