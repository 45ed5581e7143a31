"""C12: spline bases equal the Cox-de Boor recursion, sum to one, are local; tensor and impulse-response bases."""
import numpy as np
import vmc
import gam_ref as G

LEVEL = "model_checking"
ASSUMPTIONS = ["Degree at least one (the package's constant splines are not continuous at the left end of the range)."]
RANGES = [(0.0, 1.0), (-3.0, 5.0), (100.0, 101.5), (-0.02, 0.03), (-2.0, 0.0), (-1.0, 1.0)]


def case_basis(ctx, c):
    from mssm.src.python.smooths import B_spline_basis
    deg, nk, (lo, hi), given = c["deg"], c["nk"], c["rng"], c["given"]
    ndx = nk - deg
    br = np.linspace(lo, hi, ndx + 1)
    pts = np.sort(np.concatenate([br] + [br[:-1] + q * (br[1] - br[0]) for q in (1e-6, 0.17, 0.5, 0.83, 1 - 1e-6)]))
    if c["sub"] == "part":
        pts = pts[(pts > lo + 0.3 * (hi - lo)) & (pts < hi - 0.2 * (hi - lo))]
    elif c["sub"] == "perm":
        pts = pts[np.argsort(vmc.gen(("perm", len(pts)), len(pts)))]
    elif c["sub"] == "one":
        pts = pts[len(pts) // 2: len(pts) // 2 + 1]
    elif c["sub"] == "out":
        w = hi - lo
        pts = np.concatenate([pts, lo - w / ndx * np.array([0.3, 1.2]), hi + w / ndx * np.array([0.4, 1.5])])
    kw = dict(deg=deg)
    if given:
        kw.update(min_c=lo, max_c=hi)
    B = np.asarray(B_spline_basis(pts.copy(), None, nk, **kw))
    R = G.basis(pts, nk, lo, hi, deg)
    sc = 1.0
    ctx.close(B, R, "basis differs from the Cox-de Boor recursion", rtol=1e-5, atol=2e-7 * 10 ** max(0, deg - 3) * max(1, ndx) ** max(0, deg - 3))
    if c["sub"] != "out":
        ctx.close(B.sum(axis=1), np.ones(len(pts)), "basis does not sum to one on the covariate range", atol=1e-6 * sc)
        ctx.expect((B > -1e-6).all(), "basis is negative", f"{B.min()}")
        h = (hi - lo) / ndx
        cell = np.clip(((pts - lo) / h).astype(int), 0, ndx - 1)
        loc = np.ones_like(B, bool)
        for r, j in enumerate(cell):
            loc[r, max(0, j - 1):j + deg + 2] = False
        ctx.expect((np.abs(B[loc]) < 1e-6).all(), "basis function is non-zero outside its local support", f"{np.abs(B[loc]).max() if loc.any() else 0}")
    # point by point: a row depends on its own covariate value only
    if given and c["sub"] == "full":
        for j in range(0, len(pts), 3):
            b1 = np.asarray(B_spline_basis(pts[j:j + 1].copy(), None, nk, **kw))
            ctx.close(b1[0], B[j], "row depends on other rows", atol=1e-10)
    ctx.state(len(pts))
    ctx.trans(len(pts) * nk)
    ctx.trace()
    ctx.outcome(B)


def case_tp(ctx, c):
    from mssm.src.python.smooths import TP_basis_calc
    n, ks = c["n"], c["ks"]
    Ms = [vmc.gen(("tp", i, n, k), n, k) for i, k in enumerate(ks)]
    if c["zero"]:
        Ms[0][::2] = 0.0
    T, R = Ms[0], Ms[0]
    for M in Ms[1:]:
        T = TP_basis_calc(T, M)
        R = G.rowkron(R, M)
    ctx.close(np.asarray(T), R, "tensor basis is not the row-wise Kronecker product", atol=1e-13)
    ctx.state(n)
    ctx.trans(R.size)
    ctx.trace()
    ctx.outcome(np.asarray(T))


def case_irf(ctx, c):
    from mssm.src.python.smooths import B_spline_basis, convolve_event
    deg, nk, n, onset = c["deg"], c["nk"], c["n"], c["onset"]
    lo, hi = c["rng"]
    t = np.linspace(c["t0"], c["t0"] + c["span"] * (hi - lo), n) + lo
    B = np.asarray(B_spline_basis(t.copy(), onset, nk, min_c=lo, max_c=hi, convolve=True, deg=deg))
    R = G.basis_conv(t, onset, nk, lo, hi, deg)
    ctx.close(B, R, "impulse-response basis is not the basis shifted to the onset sample", rtol=1e-5, atol=1e-6 * 10 ** max(0, deg - 3))
    f = vmc.gen(("conv", n), n)
    o = np.asarray(convolve_event(f, onset))
    w = np.zeros(n + onset)
    w[onset:] = f
    ctx.close(o, w, "convolution with an impulse is not a shift", atol=1e-10)
    ctx.state(n)
    ctx.trans(n * nk)
    ctx.trace()
    ctx.outcome(B)


def run(chk):
    top = 12 if not chk.thorough else 20
    sp = [dict(deg=d, nk=nk, rng=r, given=g, sub=s)
          for d in (3, 2, 1, 4, 5) for nk in range(d + 1, top + 1) for r in RANGES for g in (True, False) for s in ("full", "perm", "part", "one", "out")
          if not (not g and s in ("part", "one", "out"))]
    chk.explore("b-spline", sp, case_basis, bounds=f"degree 1..5, degree+1..{top} basis functions, 6 ranges, all knots, cell ends, midpoints", min_outcomes=200)
    tp = [dict(n=n, ks=list(ks), zero=z) for n in (1, 2, 7) for L in (2, 3) for ks in __import__("itertools").product(*[(1, 2, 3, 5)] * L) for z in (False, True)]
    chk.explore("tensor", tp, case_tp, bounds="all marginal sizes in {1,2,3,5}, 2 or 3 marginals", min_outcomes=100)
    ir = [dict(deg=d, nk=nk, n=n, onset=o, rng=r, t0=t0, span=sp_) for d in (3, 2, 1) for nk in (d + 1, d + 2, 8, 12) for n in (1, 5, 12)
          for o in range(0, n + 2) for r in ((0.0, 10.0), (2.0, 3.0), (-4.0, 0.0)) for t0 in (0.0,) for sp_ in (1.0, 0.6, 1.5)]
    chk.explore("impulse-response", ir, case_irf, bounds="every onset 0..n+1 for series of 1, 5, 12 samples", min_outcomes=100)
