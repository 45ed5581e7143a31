"""C18: Cox models: every tie pattern, order and censoring pattern of up to four (five) subjects against the Breslow definition."""
import itertools
import numpy as np
import scipy as scp
import vmc
import dist_ref as R

LEVEL = "model_checking"
ASSUMPTIONS = ["Event times are distinct integers in decreasing order, as documented by the family; linear predictors stay in a range without overflow."]


def partitions(n):
    """All ordered set partitions of n subjects: r with values 0..k-1, all used."""
    for r in itertools.product(range(n), repeat=n):
        k = max(r) + 1
        if set(r) == set(range(k)):
            yield list(r)


def col(x):
    return np.asarray(x, dtype=float).reshape(-1, 1)


class Ref:
    def __init__(self, r, ut, delta, X):
        self.t = np.array([ut[q] for q in r])
        self.ut, self.d, self.X = np.array(ut), np.array(delta), X

    def ll(self, b):
        """Breslow partial log-likelihood: one term per event, all subjects with time >= t at risk."""
        e = self.X @ b
        out = 0.0
        for i in range(len(self.t)):
            if self.d[i]:
                out = out + e[i] - np.log(np.sum(np.exp(e[self.t >= self.t[i]])))
        return out

    def cumhaz(self, b, t):
        e = self.X @ b
        return sum(1 / np.sum(np.exp(e[self.t >= self.t[i]])) for i in range(len(self.t)) if self.d[i] and self.t[i] <= t)

    def q(self, b, t):
        e = self.X @ b
        return sum(1 / np.sum(np.exp(e[self.t >= self.t[i]])) ** 2 for i in range(len(self.t)) if self.d[i] and self.t[i] <= t)

    def se(self, b, t, x, V):
        # delta method for exp(-H(t) exp(x b)), coefficient and hazard uncertainty
        h = self.cumhaz(b, t)
        dh = R.grad(lambda z: self.cumhaz(z, t), b) if h else np.zeros(len(b))
        v = -dh - h * x  # d(-H e^{xb})/db / e^{xb}
        S = np.exp(-h * np.exp(x @ b))
        return np.exp(x @ b) * S * np.sqrt(self.q(b, t) + v @ V @ v)


def setup(c):
    n = len(c["r"])
    k = max(c["r"]) + 1
    ut = c.get("ut") or [3 + 4 * (k - j) for j in range(k)]
    X = vmc.gen(("cox", c["xk"]), n, 2, lo=-1.2, hi=1.2)
    if c["xk"] == 2:
        X[:, 1] = 0.0
    return n, k, ut, X, Ref(c["r"], ut, c["delta"], X)


def times(ut):
    ut = sorted(ut)
    return [ut[0] - 1, ut[0] - 0.5] + [t + d for t in ut for d in (0, 1, 2.5)] + [ut[-1] + 7]


def compare(ctx, f, ref, b, X, delta, ut, what=""):
    arg = (col(b), [], [np.array(delta, dtype=np.int64).reshape(-1, 1)], [scp.sparse.csc_array(X)])
    ctx.close(f.llk(*arg), np.real(ref.ll(b)), f"partial log-likelihood {what}", rtol=1e-8, atol=1e-9)
    g = R.grad(ref.ll, b) if any(delta) else np.zeros(len(b))
    ctx.close(np.asarray(f.gradient(*arg)), col(g), f"gradient {what}", rtol=1e-7, atol=1e-8)
    W = R.hess(ref.ll, b) if any(delta) else np.zeros((len(b),) * 2)
    ctx.close(f.hessian(*arg).toarray(), W, f"Hessian {what}", rtol=1e-6, atol=1e-7)
    return g


def data_case(ctx, c):
    from mssm.src.python.exp_fam import PropHaz
    n, k, ut, X, ref = setup(c)
    delta = c["delta"]
    D = np.array(delta, dtype=np.int64).reshape(-1, 1)
    f = PropHaz(np.array(ut), np.array(c["r"]))
    Xs = [scp.sparse.csc_array(X)]
    b = np.array([0.7, -0.4])
    g = compare(ctx, f, ref, b, X, delta, ut)
    H = np.asarray(f.get_baseline_hazard(col(b), D, Xs))
    want = np.array([ref.cumhaz(b, t) for t in ut])
    ctx.expect(H.shape == (k,), "one hazard value per event time", f"{H.shape}")
    ctx.close(H, want, "cumulative baseline hazard", rtol=1e-9, atol=1e-12)
    ctx.expect((np.diff(H[::-1]) >= -1e-12).all(), "cumulative hazard decreases", f"{H}")
    V = np.array([[0.3, 0.05], [0.05, 0.2]])
    xn = np.array([[0.2, -0.5], [0.0, 0.0], [1.0, 1.0]])
    prev = None
    for t in times(ut):
        h = ref.cumhaz(b, t)
        S, se = f.get_survival(col(b), Xs, D, t, xn, scp.sparse.csc_array(V))
        ctx.close(np.asarray(S), col(np.exp(-h * np.exp(xn @ b))), "survival", rtol=1e-9, atol=1e-12, detail=f"t {t} times {ut}")
        ctx.close(np.asarray(se), col([ref.se(b, t, x, V) for x in xn]), "standard error of the survival", rtol=1e-7, atol=1e-10, detail=f"t {t}")
        if prev is not None:
            ctx.expect((np.asarray(S) <= prev + 1e-12).all(), "survival increases", f"t {t}")
        prev = np.asarray(S)
        S2, no = f.get_survival(col(b), Xs, D, t, scp.sparse.csc_array(xn), None, compute_var=False)
        ctx.close(np.asarray(S2), prev, "survival without variance", rtol=1e-9)
        ctx.expect(no is None, "variance although not requested")
        ctx.trans()
    hz = np.array([ref.cumhaz(b, t) for t in ref.t]) * np.exp(X @ b)
    m = np.array(delta) - hz
    arg = (col(b), [], [D], Xs)
    ctx.close(np.asarray(f.get_resid(*arg)), col(m), "martingale residuals", rtol=1e-8, atol=1e-9)
    dv = np.sign(m) * np.sqrt(np.maximum(0, -2 * (m + np.where(np.array(delta) > 0, np.log(np.maximum(hz, 1e-300)), 0))))
    ctx.close(np.asarray(f.get_resid(*arg, resid_type="Deviance")), col(dv), "deviance residuals", rtol=1e-7, atol=1e-6)
    if n > 1:
        o = np.roll(np.arange(n), 1)
        ctx.close(np.asarray(f.get_resid(*arg, reorder=o)), col(m[o]), "reordered residuals", rtol=1e-8, atol=1e-9)
    ctx.state()
    ctx.trace()
    ctx.outcome(np.round(np.concatenate([H, g]), 6))


def seq_case(ctx, c):
    """Same object, different coefficients / data: results must not depend on what was asked before."""
    from mssm.src.python.exp_fam import PropHaz
    n, k, ut, X, ref = setup(c)
    f = PropHaz(np.array(ut), np.array(c["r"]))
    bs = {"1": np.array([0.7, -0.4]), "2": np.array([-1.0, 0.6])}
    d2 = [1 - q for q in c["delta"]]
    for op in c["ops"]:
        kind, bk = op[0], op[1]
        b = bs[bk]
        delta, X1, rf = c["delta"], X, ref
        if op.endswith("d"):
            delta = d2
            rf = Ref(c["r"], ut, d2, X)
        if op.endswith("x"):
            X1 = X[:, ::-1] * 0.5
            rf = Ref(c["r"], ut, delta, X1)
        D = np.array(delta, dtype=np.int64).reshape(-1, 1)
        Xs = [scp.sparse.csc_array(X1)]
        if kind == "h":
            ctx.close(np.asarray(f.get_baseline_hazard(col(b), D, Xs)), [rf.cumhaz(b, t) for t in ut], "cumulative baseline hazard depends on earlier calls", rtol=1e-9, atol=1e-12, detail=f"{c['ops']}")
        elif kind == "s":
            t = ut[0]
            x = np.array([[0.3, 0.1]])
            S, _ = f.get_survival(col(b), Xs, D, t, x, None, compute_var=False)
            ctx.close(np.asarray(S), col(np.exp(-rf.cumhaz(b, t) * np.exp(x @ b))), "survival depends on earlier calls", rtol=1e-9, atol=1e-12, detail=f"{c['ops']}")
        elif kind == "r":
            m = np.array(delta) - np.array([rf.cumhaz(b, t) for t in rf.t]) * np.exp(X1 @ b)
            ctx.close(np.asarray(f.get_resid(col(b), [], [D], Xs)), col(m), "residuals depend on earlier calls", rtol=1e-8, atol=1e-9, detail=f"{c['ops']}")
        else:
            compare(ctx, f, rf, b, X1, delta, ut, "after earlier calls")
        ctx.trans()
    ctx.state(len(c["ops"]))
    ctx.trace()
    ctx.outcome(tuple(c["ops"]))


def big_case(ctx, c):
    """Larger data sets with ties (including non-consecutive rows of the same time)."""
    n = c["n"]
    rng = np.random.default_rng(c["n"])
    t = rng.integers(1, c["nt"], size=n)
    if c["sort"]:
        t = np.sort(t)[::-1]
    u, inv = np.unique(t, return_inverse=True)
    ut, r = np.flip(u), np.abs(inv - max(inv))
    delta = (rng.random(n) < c["p"]).astype(int)
    from mssm.src.python.exp_fam import PropHaz
    X = rng.normal(size=(n, 2)) * (rng.random((n, 2)) < 0.7)
    f = PropHaz(ut, r)
    ref = Ref(list(r), list(ut), list(delta), X)
    b = np.array([0.5, -0.3])
    g = compare(ctx, f, ref, b, X, list(delta), list(ut))
    D = delta.reshape(-1, 1)
    ctx.close(np.asarray(f.get_baseline_hazard(col(b), D, [scp.sparse.csc_array(X)])), [ref.cumhaz(b, q) for q in ut], "cumulative baseline hazard", rtol=1e-8)
    ctx.state()
    ctx.trans(4)
    ctx.trace()
    ctx.outcome(np.round(g, 5))


def run(chk):
    th = chk.thorough
    sp = []
    for n in range(1, 6 if th else 5):
        for r in partitions(n):
            for d in itertools.product((0, 1), repeat=n):
                for xk in (0, 2) if n < 4 or th else (0,):
                    sp.append(dict(r=r, delta=list(d), xk=xk))
    chk.explore("data sets", sp, data_case, bounds=f"every assignment of up to {5 if th else 4} subjects to event times (all ties and orders) x every censoring pattern x all times between, before and after the events", min_outcomes=500)
    ops = ["h1", "h2", "s1", "s2", "r1", "r2", "l1", "h1d", "s2x", "h2x"]
    sp = [dict(r=[0, 1, 1, 2], delta=[1, 0, 1, 1], xk=0, ops=list(q)) for L in (1, 2, 3) + ((4,) if th else ()) for q in itertools.product(ops if L < 4 else ops[:6], repeat=L)]
    chk.explore("call histories", sp, seq_case, bounds="every sequence of up to 3 calls (4 thorough) over 10 operations with different coefficients, events and model matrices", min_outcomes=100)
    chk.explore("larger", [dict(n=n, nt=nt, p=p, sort=s) for n in (12, 30, 61) for nt in (3, 9, 40) for p in (0.2, 0.8, 1.0) for s in (0, 1)], big_case, bounds="12-61 subjects, few and many ties, sorted and unsorted rows", min_outcomes=10)
