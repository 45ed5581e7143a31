"""Dense extended-precision references for the restricted marginal likelihood, its derivatives and the corrections built on it."""
import numpy as np
import gam_ref as G

LD = np.longdouble


def chol(A):
    """Lower Cholesky factor in extended precision (A symmetric positive definite)."""
    A = np.array(A, dtype=LD)
    n = len(A)
    L = np.zeros((n, n), dtype=LD)
    for j in range(n):
        v = A[j, j] - L[j, :j] @ L[j, :j]
        if not v > 0:
            raise np.linalg.LinAlgError("not positive definite")
        L[j, j] = np.sqrt(v)
        if j + 1 < n:
            L[j + 1:, j] = (A[j + 1:, j] - L[j + 1:, :j] @ L[j, :j]) / L[j, j]
    return L


def logdet(A):
    if len(A) == 0:
        return LD(0)
    d = np.sqrt(np.abs(np.diag(A)))
    return 2 * (np.sum(np.log(np.diag(chol(A / np.outer(d, d))))) + np.sum(np.log(d)))


def inv(A):
    n = len(A)
    L = chol(A)
    Li = np.zeros((n, n), dtype=LD)
    for i in range(n):
        Li[i, i] = 1 / L[i, i]
        if i:
            Li[i, :i] = -(L[i, :i] @ Li[:i, :i]) / L[i, i]
    return Li.T @ Li


def solve(A, b):
    return inv(A) @ b


class Pens:
    """Penalty matrices of a model and the range space of their sum."""

    def __init__(self, penalties, n):
        from scipy.sparse.csgraph import connected_components
        self.S = [G.dense(p.S_J_emb).astype(LD) for p in penalties]
        self.lam = np.array([float(p.lam) for p in penalties], dtype=LD)
        self.n = n
        tot = np.zeros((n, n))
        for S in self.S:
            tot = tot + np.asarray(S / np.sqrt(np.sum(S * S)), dtype=float)
        nc, lab = connected_components(tot != 0, directed=False)
        U = []
        for q in range(nc):
            ix = np.flatnonzero(lab == q)
            w, V = np.linalg.eigh(tot[np.ix_(ix, ix)])
            if w[-1] <= 0:
                continue
            for k in np.flatnonzero(w > w[-1] * 1e-9):
                u = np.zeros(n)
                u[ix] = V[:, k]
                U.append(u)
        self.U = np.array(U).T.astype(LD) if U else np.zeros((n, 0), dtype=LD)
        self.rank = self.U.shape[1]

    def total(self, lam):
        S = np.zeros((self.n, self.n), dtype=LD)
        for l, s in zip(lam, self.S):
            S = S + l * s
        return S

    def logdet(self, lam, scale=1):
        return logdet(self.U.T @ (self.total(lam) / LD(scale)) @ self.U)


def reml(P, lam, llk, nH, coef, scale=1):
    """Laplace approximate restricted log-likelihood. nH: negative Hessian of the log-likelihood."""
    b = np.ravel(coef).astype(LD)
    S = P.total(lam) / LD(scale)
    return (LD(llk) - b @ S @ b / 2 + P.logdet(lam, scale) / 2 - logdet(np.asarray(nH, dtype=LD) + S) / 2
            + (P.n - P.rank) * np.log(2 * LD(np.pi)) / 2)


def quad_reml(P, nH, coef, lam0, scale=1):
    """rho -> restricted log-likelihood of the quadratic log-likelihood with Hessian -nH whose penalised maximum at lam0 is coef."""
    nH = np.asarray(nH, dtype=LD)
    b0 = np.ravel(coef).astype(LD)
    g0 = P.total(lam0) @ b0 / LD(scale)

    def beta(rho):
        S = P.total(np.exp(rho)) / LD(scale)
        return solve(nH + S, nH @ b0 + g0)

    def f(rho):
        b = beta(rho)
        d = b - b0
        return reml(P, np.exp(rho), g0 @ d - d @ nH @ d / 2, nH, b, scale)
    return f, beta


W4 = ((1, 8), (2, -1))


def num_hess(f, x, h=LD("2e-3")):
    """Fourth-order central differences (extended precision)."""
    n = len(x)
    H = np.zeros((n, n), dtype=LD)
    f0 = f(x)

    def at(*steps):
        z = x.copy()
        for i, s in steps:
            z[i] = z[i] + s * h
        return f(z)
    for i in range(n):
        H[i, i] = (-at((i, 2)) + 16 * at((i, 1)) - 30 * f0 + 16 * at((i, -1)) - at((i, -2))) / (12 * h * h)
        for j in range(i + 1, n):
            v = 0
            for a, wa in W4:
                for b, wb in W4:
                    v = v + wa * wb * (at((i, a), (j, b)) - at((i, a), (j, -b)) - at((i, -a), (j, b)) + at((i, -a), (j, -b)))
            H[i, j] = H[j, i] = v / (144 * h * h)
    return H


def num_jac(f, x, h=LD("2e-3")):
    cols = []
    for i in range(len(x)):
        z = [x.copy() for _ in range(4)]
        for q, s in zip(z, (1, -1, 2, -2)):
            q[i] = q[i] + s * h
        a, b, c, d = (f(q) for q in z)
        cols.append((8 * (a - b) - (c - d)) / (12 * h))
    return np.array(cols).T


def ginv_root(nHp, reg=0.0):
    """Generalised inverse over the positive eigenvalues; regularised as documented."""
    w, U = np.linalg.eigh(np.asarray(nHp, dtype=float))
    r = np.where(w > 0, 1 / np.sqrt(np.where(w > 0, w, 1) + reg), 0)
    return U @ np.diag(r * r) @ U.T, w
