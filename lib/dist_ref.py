"""Independent reference densities (complex-step differentiable) and differentiation helpers."""
import numpy as np
from scipy.special import loggamma, erf

H = 1e-30


def d1(f, x, i):
    x = np.asarray(x, dtype=complex).copy()
    x[i] += 1j * H
    return np.imag(f(x)) / H


def grad(f, x):
    return np.array([d1(f, x, i) for i in range(len(x))])


def d2(f, x, i, j, h=None):
    x = np.asarray(x, dtype=float)
    h = (1e-3 * max(0.02, abs(x[j]))) if h is None else h
    r = 0.0
    for k, w in ((1, 0.75), (2, -3 / 20), (3, 1 / 60)):
        a, b = x.copy(), x.copy()
        a[j] += k * h
        b[j] -= k * h
        r = r + w * (d1(f, a, i) - d1(f, b, i))
    return r / h


def hess(f, x):
    n = len(x)
    M = [[d2(f, x, i, j) for j in range(n)] for i in range(n)]
    return np.array(M)


def num_grad(f, x, h=1e-3):
    """Real-valued sixth-order differences (for functions that are not complex differentiable)."""
    x = np.asarray(x, dtype=float)
    out = []
    for j in range(len(x)):
        r = 0.0
        for k, w in ((1, 0.75), (2, -3 / 20), (3, 1 / 60)):
            a, b = x.copy(), x.copy()
            a[j] += k * h
            b[j] -= k * h
            r = r + w * (f(a) - f(b))
        out.append(r / h)
    return np.array(out)


def l_norm(y, mu, var):
    return -0.5 * np.log(2 * np.pi * var) - (y - mu) ** 2 / (2 * var)


def l_gamma(y, mu, scale):
    a = 1 / scale
    return (a - 1) * np.log(y) - a * y / mu - loggamma(a) + a * np.log(a / mu)


def l_invgauss(y, mu, scale):
    return -0.5 * np.log(2 * np.pi * scale * y ** 3) - (y - mu) ** 2 / (2 * scale * mu ** 2 * y)


def l_pois(y, mu, scale=1):
    return (y * np.log(mu) if y != 0 else 0.0) - mu - loggamma(y + 1)


def l_binom(y, mu, n):
    k = np.round(y * n)
    r = loggamma(n + 1) - loggamma(k + 1) - loggamma(n - k + 1)
    if k != 0:
        r = r + k * np.log(mu)
    if k != n:
        r = r + (n - k) * np.log(1 - mu)
    return r


def l_t(y, mu, phi, nu):
    z2 = ((y - mu) / phi) ** 2
    return loggamma((nu + 1) / 2) - loggamma(nu / 2) - np.log(phi) - 0.5 * np.log(np.pi * nu) - (nu + 1) / 2 * np.log(1 + z2 / nu)


# links: (f, fi) complex differentiable
def link_fns(name, b=0.0):
    return {
        "Logit": (lambda m: np.log(m / (1 - m)), lambda e: 1 / (1 + np.exp(-e))),
        "Identity": (lambda m: m, lambda e: e),
        "LOG": (lambda m: np.log(m), lambda e: np.exp(e)),
        "LOGb": (lambda m: np.log(m + b), lambda e: np.exp(e) - b),
    }[name]
