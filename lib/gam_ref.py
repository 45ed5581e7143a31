"""Independent reference for the additive-model half of mssm: bases, formulas, model matrices, penalties.

Everything is written from the definitions (Cox-de Boor recursion, binomial differences, treatment coding ...) with dense numpy and
shares no code with the package.  Identifiability constraints and re-parameterisations are *not* reproduced: the reference works out,
from the returned model matrix, which linear map M relates the returned columns to the unconstrained basis, checks that M is a legal
one, and then demands that penalties are the penalties of the same functions (M' S M).
"""
import itertools
import math

import numpy as np
import pandas as pd

import vmc


# ----------------------------------------------------------------------------------------------------------------------- bases
def bspl(x, knots, deg):
    """All B-splines of degree deg on the given (strictly increasing) knots by the Cox-de Boor recursion."""
    x = np.asarray(x, float)[:, None]
    k = np.asarray(knots, float)
    B = ((x >= k[:-1]) & (x < k[1:])).astype(float)
    for d in range(1, deg + 1):
        left = (x - k[:-d - 1]) / (k[d:-1] - k[:-d - 1])
        right = (k[d + 1:] - x) / (k[d + 1:] - k[1:-d])
        B = left * B[:, :-1] + right * B[:, 1:]
    return B


def basis(x, nk, lo, hi, deg=3):
    ndx = nk - deg
    dx = (hi - lo) / ndx
    knots = lo + dx * np.arange(-deg, ndx + deg + 1)
    return bspl(x, knots, deg)


def basis_conv(x, onset, nk, lo, hi, deg=3):
    """Impulse-response basis: the splines live inside [lo, hi] (all knots inside), shifted to the onset sample."""
    knots = lo + (hi - lo) / (nk + deg) * np.arange(nk + deg + 1)
    B = bspl(x, knots, deg)
    out = np.zeros_like(B)
    for t in range(onset, len(B)):
        out[t] = B[t - onset]
    return out


def rowkron(A, B):
    return np.array([np.kron(a, b) for a, b in zip(A, B)]).reshape(A.shape[0], A.shape[1] * B.shape[1])


def diffpen(n, m):
    """Penalty on m-th order differences of n coefficients: (n x n), binomial coefficients."""
    D = np.zeros((n - m, n))
    for r in range(n - m):
        for j in range(m + 1):
            D[r, r + j] = (-1) ** (m - j) * math.comb(m, j)
    return D.T @ D


def rank_of(A, tol=1e-8):
    s = np.linalg.svd(np.asarray(A, float), compute_uv=False)
    return int(np.sum(s > tol * max(1.0, s[0] if len(s) else 0.0)))


# ------------------------------------------------------------------------------------------------------------------------ data
SERIES = 6
LEVELS = {"fac": ["lo", "hi", "mid"], "cond": ["b", "a"], "sub": ["s3", "s1", "s4", "s2"], "grp": ["mid", "lo"]}


def make_data(na="none", n_per=10, salt=0, perm=False, lens=None):
    """Six series; covariates in generic position; factor levels appear in non-sorted order; all factor combinations occur."""
    lens = lens or [n_per + (j % 3) - 1 for j in range(SERIES)]
    n = sum(lens)
    ser = np.repeat(np.arange(len(lens)), lens)
    t = np.concatenate([np.arange(k) for k in lens]).astype(float) * 10.0
    d = pd.DataFrame(dict(
        y=vmc.gen(("y", salt, n), n, lo=-2, hi=3),
        x=vmc.gen(("x", salt, n), n, lo=0.0, hi=1.0),
        z=vmc.gen(("z", salt, n), n, lo=-4.0, hi=9.0),
        w=vmc.gen(("w", salt, n), n, lo=0.2, hi=2.0),
        n=np.array([(7 * j + salt) % 5 - 1 for j in range(n)], dtype="int64"),
        time=t,
        series=np.array([f"r{j:02d}" for j in ser], dtype=object),
        fac=np.array([LEVELS["fac"][(j * 5 + j // 3) % 3] for j in range(n)], dtype=object),
        cond=np.array([LEVELS["cond"][j % 2] for j in ser], dtype=object),
        sub=np.array([LEVELS["sub"][(j * 3 + j // 7) % 4] for j in range(n)], dtype=object),
    ))
    d["grp"] = np.array([LEVELS["grp"][(j * 7 + j // 5) % 2] for j in range(n)], dtype=object)  # shares labels with fac
    d["subcond"] = np.array([f"{a}.{b}" for a, b in zip(d["sub"], d["cond"])], dtype=object)
    if perm:
        d = d.iloc[np.argsort(vmc.gen(("rows", salt), n))].reset_index(drop=True)
    if na in ("y", "mix"):
        d.loc[[0, 3, n // 2, n - 1], "y"] = np.nan
    if na in ("x", "mix"):
        d.loc[[1, n // 3], "x"] = np.nan
    if na in ("fac",):
        d.loc[[2, n // 4], "fac"] = np.nan
    return d


# ----------------------------------------------------------------------------------------------------------------------- terms
def T(kind, *args, **kw):
    return [kind, list(args), kw]


def make_term(spec, onsets=None):
    from mssm.src.python import terms as TT
    from mssm.src.python.custom_types import ConstType, PenType
    from mssm.src.python.penalties import DifferencePenalty, IdentityPenalty
    kind, args, kw = spec
    kw = dict(kw)
    if "constraint" in kw:
        kw["constraint"] = ConstType[kw["constraint"]]
    pens = kw.pop("pens", None)
    if pens is not None:
        P, K = [], []
        for p in pens:
            if p == "I":
                P.append(IdentityPenalty(PenType.IDENTITY))
                K.append({})
            else:
                P.append(DifferencePenalty())
                K.append({"m": p})
        kw.update(penalty=P, pen_kwargs=K)
    if kind == "irf":
        kw["basis_kwargs"] = [dict(k) for k in kw["basis_kwargs"]]
        return TT.irf(args[0], np.array(onsets if kw.get("event_onset") is None else kw.pop("event_onset")), **kw)
    if kind == "ri":
        return TT.ri(args[0], **kw)
    if kind == "i":
        return TT.i()
    return getattr(TT, kind)(list(args[0]) if isinstance(args[0], (list, tuple)) else args[0], **kw)


class RTerm:
    """Reference description of one term on one data set (all rows, missing ones included)."""

    def __init__(self, spec, env, full_coding):
        self.spec, (self.kind, self.args, self.kw) = spec, spec
        self.env = env
        kw = self.kw
        n = env.n
        self.exact = True          # columns are fixed completely by the definition
        self.constraint = None
        self.pens = []
        self.te = False
        self.masks, self.lev = [np.ones(n, bool)], [None]
        self.id = kw.get("id")
        self.group = {"i": 0, "l": 0, "irf": 1, "f": 2, "fs": 2, "ri": 3, "rs": 3}[self.kind]
        self.penalized = self.group > 0 and kw.get("is_penalized", True)
        getattr(self, "_" + self.kind)(full_coding)

    # -- parametric
    def _i(self, full):
        self.base = np.ones((self.env.n, 1))
        self.names = ["Intercept"]

    def _lin(self, variables, full):
        env = self.env
        cols, names = [np.ones(env.n)], [""]
        for v in variables:
            nc, nn = [], []
            for c, nm in zip(cols, names):
                pre = nm + "_" if nm else ""
                if env.isfac(v):
                    for lv in env.levels(v)[0 if full else 1:]:
                        nc.append(c * (env.col(v) == lv))
                        nn.append(f"{pre}{v}_{lv}")
                else:
                    nc.append(c * env.num(v))
                    nn.append(f"{pre}{v}")
            cols, names = nc, nn
        return (np.array(cols).T if cols else np.zeros((env.n, 0))), names

    def _l(self, full):
        self.base, self.names = self._lin(self.args[0], full)

    def _ri(self, full):
        v = self.args[0]
        self.base, nm = self._lin([v], True)
        self.names = [f"ri({x})" for x in nm]
        self.pens = [dict(S=np.eye(self.base.shape[1]), blocks=[[0]], ids=[self.id])]

    def _rs(self, full):
        b, nm = self._lin(self.args[0], True)
        by = self.kw.get("by")
        self.base = b
        if by is None:
            self.names = [f"rs({x})" for x in nm]
            self.pens = [dict(S=np.eye(b.shape[1]), blocks=[[0]], ids=[self.id])]
        else:
            self.lev = self.env.levels(by)
            self.masks = [self.env.col(by) == lv for lv in self.lev]
            self.names = [f"rs({x}_{lv})" for lv in self.lev for x in nm]
            self.pens = [dict(S=np.eye(b.shape[1]), blocks=[[j] for j in range(len(self.lev))],
                              ids=[None if self.id is None else self.id + j for j in range(len(self.lev))])]

    # -- smooths
    def _smooth_common(self, variables, nks, prefix, sep_names):
        kw = self.kw
        by = kw.get("by", kw.get("rf"))
        if by is not None:
            sg = kw.get("by_subgroup")
            inside = np.ones(self.env.n, bool) if sg is None else (self.env.col(sg[0]) == sg[1])
            self.lev = self.env.levels(by) if sg is None else self.env.levels(by, self.env.train[sg[0]].values == sg[1])
            self.masks = [(self.env.col(by) == lv) & inside for lv in self.lev]
        if kw.get("binary") is not None:
            self.masks = [self.env.col(kw["binary"][0]) == kw["binary"][1]]

    def _f(self, full):
        kw, env = self.kw, self.env
        V = list(self.args[0])
        te = kw.get("te", False)
        nk = kw.get("nk") or (9 if len(V) == 1 else (5 if te else 4))
        ident = kw.get("identifiable", True)
        nks = list(nk) if isinstance(nk, (list, tuple)) else [nk] * len(V)
        if kw.get("binary") is not None and ident:
            ident = False
            if not te:
                nks = [k + 1 for k in nks]
        deg = kw.get("basis_kwargs", {}).get("deg", 3)
        raw = [k + 1 if (ident and not te) else k for k in nks]
        self.raw, self.nks, self.ident, self.te, self.V = raw, nks, ident, te, V
        self.marg = [basis(env.num(v), k, *env.rng(v), deg) for v, k in zip(V, raw)]
        B = self.marg[0]
        for m in self.marg[1:]:
            B = rowkron(B, m)
        self.plain = B
        self.base = B * env.num(kw["by_cont"])[:, None] if kw.get("by_cont") else B
        rp = kw.get("rp")
        if rp is None:
            rp = 0 if len(V) == 1 else 2
        if self.kind == "fs":
            rp = kw.get("rp", 1)
        self.rp = rp
        self.constraint = kw.get("constraint", "QR") if ident else None
        self.exact = self.constraint != "QR" and rp == 0
        self.m = (int(np.prod(nks)) - 1 if te and ident else int(np.prod(nks)))
        self._smooth_common(V, nks, "f", None)
        lab = "_".join(V) + (kw["binary"][0] if kw.get("binary") is not None else "")
        if self.lev == [None]:
            self.names = [f"f_{lab}_{j}" for j in range(self.m)]
        else:
            self.names = [f"f_{lab}_{j}_{lv}" for lv in self.lev for j in range(self.m)]
        tied = self.id is not None or self.kind == "fs"
        nl = len(self.lev)
        pens = kw.get("pens", [kw.get("m", 1)] if self.kind == "fs" else [2])
        penid = 0
        # Coordinates in which a tensor penalises "each marginal, identity in the others": function values on an even grid (rp=2),
        # the difference-coded coefficients (DIFF without rp) or the plain coefficients
        Mv, Wv = [np.eye(k) for k in raw], [np.eye(k) for k in raw]
        if len(V) > 1 and rp == 2:
            for q, v in enumerate(V):
                lo, hi = env.rng(v)
                kk = raw[q] if te or self.constraint is None else raw[q] - 1
                Wv[q] = basis(np.linspace(lo, hi, kk), raw[q], lo, hi, deg)
                if kk == raw[q]:
                    Mv[q] = np.linalg.inv(Wv[q])
                else:
                    if self.constraint == "QR":
                        Z = np.linalg.svd(self.marg[q][env.ok].sum(axis=0)[None, :])[2][1:].T
                    else:
                        Z = constraint_map(raw[q], self.constraint)
                    Mv[q] = Z @ np.linalg.inv(Wv[q] @ Z)
            if not te:
                M = np.eye(1)
                for q in Mv:
                    M = np.kron(M, q)
                self.M = M
        elif len(V) > 1 and self.constraint == "DIFF" and not te:
            Mv = [constraint_map(k, "DIFF") for k in raw]
            Wv = [np.linalg.pinv(q) for q in Mv]
        for p in pens:
            for vi in range(len(V)):
                K = np.eye(1)
                for vj in range(len(V)):
                    D = np.eye(raw[vj]) if p == "I" else diffpen(raw[vj], p)
                    K = np.kron(K, Wv[vj].T @ (Mv[vj].T @ D @ Mv[vj] if vj == vi else np.eye(Mv[vj].shape[1])) @ Wv[vj])
                self.pens.append(dict(S=K, order=p, var=vi, blocks=[list(range(nl))] if tied or nl == 1 else [[j] for j in range(nl)],
                                      ids=[self.id + penid if (self.lev == [None] and self.id is not None) else None] * (1 if tied or nl == 1 else nl)))
                penid += 1
        if not self.penalized:
            self.pens = []
        self.null = kw.get("penalize_null", False) or self.kind == "fs"

    def _fs(self, full):
        self.kw = dict(self.kw)
        self.kw.setdefault("nk", 9)
        self.kw["nk"] = self.kw["nk"] + 1
        self.kw["identifiable"] = False
        self._f(full)

    def _irf(self, full):
        kw, env = self.kw, self.env
        V = list(self.args[0])
        nk = kw.get("nk", 10)
        nks = list(nk) if isinstance(nk, (list, tuple)) else [nk] * len(V)
        on = env.onsets if kw.get("event_onset") is None else kw["event_onset"]
        out = []
        for s, rows in enumerate(env.series_rows):
            B = None
            for v, k, bk in zip(V, nks, kw["basis_kwargs"]):
                lo, hi = (bk["min_c"], bk["max_c"]) if "min_c" in bk else env.rng(v)
                b = basis_conv(env.num(v)[rows], on[s], k, lo, hi, bk.get("deg", 3))
                B = b if B is None else rowkron(B, b)
            out.append(B)
        self.base = np.concatenate(out, axis=0)
        m = self.base.shape[1]
        by = kw.get("by")
        if by is not None:
            self.lev = env.levels(by)
            self.masks = [env.col(by) == lv for lv in self.lev]
        nl = len(self.lev)
        tied = self.id is not None
        self.names = None
        self.m = m
        for vi in range(len(V)):
            K = np.eye(1)
            for vj in range(len(V)):
                K = np.kron(K, diffpen(nks[vj], kw.get("pens", [2])[0]) if vj == vi else np.eye(nks[vj]))
            self.pens.append(dict(S=K, order=2, var=vi, blocks=[list(range(nl))] if tied or nl == 1 else [[j] for j in range(nl)],
                                  ids=[self.id + vi if (by is None and tied) else None] * (1 if tied or nl == 1 else nl)))
        if not self.penalized:
            self.pens = []
        self.null = False


class Env:
    """Data seen by the reference: raw columns, levels (in coding order), training ranges."""

    def __init__(self, data, variables, codebook=None, series_id=None, onsets=None, lhs="y", train=None):
        self.d = data
        self.n = len(data)
        self.codebook = codebook or {}
        self.train = data if train is None else train
        cols = [lhs] + [v for v in variables]
        self.ok = ~data[cols].isna().any(axis=1).values if train is None else np.ones(self.n, bool)
        self.onsets = onsets
        if series_id is not None:
            s = data[series_id].values
            cut = [0] + [j for j in range(1, self.n) if s[j] != s[j - 1]] + [self.n]
            self.series_rows = [np.arange(a, b) for a, b in zip(cut[:-1], cut[1:])]

    def isfac(self, v):
        return self.train[v].dtype == object

    def col(self, v):
        return self.d[v].values

    def num(self, v):
        return self.d[v].values.astype(float)

    def rng(self, v):
        x = self.train[v].values.astype(float)
        return np.nanmin(x), np.nanmax(x)

    def levels(self, v, inside=None):
        c = self.train[v].values
        if inside is not None:
            c = c[inside]
        lv = sorted({a for a in c if not (isinstance(a, float) and np.isnan(a))})
        if v in self.codebook and inside is None:
            lv = sorted(lv, key=lambda a: self.codebook[v][a])
        return lv


def variables_of(specs):
    out = []
    for kind, args, kw in specs:
        if kind == "i":
            continue
        vs = [args[0]] if kind == "ri" else list(args[0])
        for k in ("by", "by_cont", "rf"):
            if kw.get(k):
                vs.append(kw[k])
        for k in ("binary", "by_subgroup"):
            if kw.get(k):
                vs.append(kw[k][0])
        out += [v for v in vs if v not in out]
    return out


def ref_terms(specs, env):
    """Reference terms in the order of the model-matrix columns; full coding of factors only while nothing spans the constant."""
    const = any(s[0] == "i" for s in specs)
    out = {}
    for j, s in enumerate(specs):
        if s[0] in ("i", "l"):
            out[j] = RTerm(s, env, not const)
            if s[0] == "l" and any(env.isfac(v) for v in s[1][0]):
                const = True
    for j, s in enumerate(specs):
        if j not in out:
            out[j] = RTerm(s, env, True)
    order = sorted(range(len(specs)), key=lambda j: (out[j].group, j))
    return order, out


def build_formula(specs, data, codebook=None, series_id=None, onsets=None, **kw):
    from mssm.src.python.formula import Formula, lhs, build_penalties, build_model_matrix
    tt = [make_term(s, onsets) for s in specs]
    F = Formula(lhs("y"), tt, data=data, codebook=codebook, series_id=series_id, print_warn=False, **kw)
    P = build_penalties(F)
    X = np.asarray(build_model_matrix(F).todense())
    return F, P, X


def dense(A):
    return np.asarray(A.todense()) if hasattr(A, "todense") else np.asarray(A)


def solve_map(base, cols):
    """M with cols = base M (least squares) and the residual."""
    M, *_ = np.linalg.lstsq(base, cols, rcond=1e-12)
    return M, np.max(np.abs(base @ M - cols)) if cols.size else 0.0


def constraint_rows(t, ok):
    """Linear functionals every admissible M must satisfy (C M = 0) for a sum-to-zero (QR) constrained smooth."""
    if t.te or len(t.V) == 1:
        return t.plain[ok].sum(axis=0)[None, :]
    rows = []
    for j, B in enumerate(t.marg):
        K = np.eye(1)
        for i in range(len(t.marg)):
            K = np.kron(K, t.marg[j][ok].sum(axis=0)[None, :] if i == j else np.eye(t.raw[i]))
        rows.append(K)
    return np.concatenate(rows)


def constraint_map(k, kind):
    if kind == "DROP":
        return np.delete(np.eye(k), k // 2, axis=1)
    # difference re-coding around the middle coefficient: column j holds b_{j+1} - b_j on the rotated index
    z = k // 2
    idx = [(z + j) % k for j in range(k)]
    M = np.zeros((k, k - 1))
    for j in range(k - 1):
        M[idx[j + 1], j] += 1
        M[idx[j], j] -= 1
    return np.concatenate([M[:, k - 1 - z:], M[:, :k - 1 - z]], axis=1)


def fixed_map(t):
    """The completely determined map of the DROP / DIFF constraints (None where the map is not determined)."""
    K = t.plain.shape[1]
    if t.constraint is None:
        return np.eye(K)
    if t.te or len(t.V) == 1:
        return constraint_map(K, t.constraint)
    M = np.eye(1)
    for k in t.raw:
        M = np.kron(M, constraint_map(k, t.constraint))
    return M


def check_matrix(ctx, specs, X, env, F=None, drop_ok=False):
    """C07: returns, per term, (first column, map M, reference term) or None after a failure."""
    order, terms = ref_terms(specs, env)
    ok = env.ok
    ci, out = 0, {}
    n_drop = 0
    for j in order:
        t = terms[j]
        nl = len(t.masks)
        m = t.base.shape[1] if t.exact and t.constraint is None else t.m
        if t.exact and t.constraint is not None:
            m = fixed_map(t).shape[1]
        width = m * nl
        dropped = None
        if drop_ok and F is not None and t.group == 2 and F.coef_per_term[j] < width:
            width = int(F.coef_per_term[j])
            dropped = m * nl - width
            n_drop += dropped
        if not ctx.expect(ci + width <= X.shape[1], "model matrix has too few columns", f"term {j} {t.spec} needs columns {ci}..{ci + width}, there are {X.shape[1]}"):
            return None
        blk = X[:, ci:ci + width]
        base = t.base[ok]
        if dropped is None:
            if t.exact:
                M = fixed_map(t) if t.constraint is not None else np.eye(t.base.shape[1])
            else:
                inmask = np.zeros((len(base), m))
                anyrow = np.zeros(len(base), bool)
                for b, mk in enumerate(t.masks):
                    r = mk[ok]
                    inmask[r] += blk[r, b * m:(b + 1) * m]
                    anyrow |= r
                M, res = solve_map(base[anyrow], inmask[anyrow])
                if rank_of(base[anyrow], 1e-6) == base.shape[1]:  # otherwise the map is not determined by these rows
                    ctx.expect(rank_of(M) == m, "the columns of a smooth are not independent combinations of its basis", f"term {j} {t.spec}: rank {rank_of(M)} of {m}")
                if t.constraint == "QR":
                    C = constraint_rows(t, ok)
                    ctx.expect(np.max(np.abs(C @ M)) < 1e-6 * max(1, np.abs(C).max() * np.abs(M).max()), "the smooth's columns are not orthogonal to the constant",
                               f"term {j} {t.spec}: {np.max(np.abs(C @ M))}")
                    if t.rp == 0:
                        ctx.close(M.T @ M, np.eye(m), "constraint map is not orthonormal", atol=1e-6)
                elif t.constraint is not None and not (t.te and t.rp):  # te: the constraint acts on re-parameterised coefficients
                    F0 = fixed_map(t)
                    _, res0 = solve_map(F0, M)
                    ctx.expect(res0 < 1e-6 * max(1, np.abs(M).max()), "re-parameterised columns leave the constrained function space", f"term {j} {t.spec} {res0}")
            for b, mk in enumerate(t.masks):
                want = (base @ M) * mk[ok][:, None]
                ctx.close(blk[:, b * m:(b + 1) * m], want, f"columns of term {t.kind} differ from the term's definition", rtol=1e-6, atol=1e-7 * max(1, np.abs(want).max()),
                          detail=f"term {j} {t.spec} level {t.lev[b] if t.lev != [None] else '-'}")
            Ms = [M] * nl
        else:
            # columns removed because lower-order terms already span them: each kept column still is a function of its own level's block
            Ms, start = [], 0
            live = [np.flatnonzero(np.any(np.abs(blk[mk[ok]]) > 1e-12, axis=0)) for mk in t.masks]
            for b, mk in enumerate(t.masks):
                cols = live[b]
                ctx.expect(len(cols) == 0 or (cols == np.arange(start, start + len(cols))).all(), "kept columns of a level are not contiguous", f"term {j} {t.spec} {cols}")
                start += len(cols)
                r = mk[ok]
                M, res = solve_map(base[r], blk[r][:, cols])
                ctx.expect(res < 1e-6 * max(1, np.abs(blk).max()), "kept columns are not functions of the term's covariates", f"term {j} {t.spec} {res}")
                oth = np.setdiff1d(np.arange(width), cols)
                ctx.expect(np.abs(blk[r][:, oth]).max(initial=0) == 0, "column of another level is non-zero in this level's rows", f"term {j} {t.spec}")
                ctx.expect(rank_of(M) == len(cols), "kept columns are dependent", f"term {j}")
                if t.constraint == "QR":
                    C = constraint_rows(t, ok)
                    ctx.expect(np.max(np.abs(C @ M), initial=0) < 1e-6 * max(1, np.abs(C).max() * np.abs(M).max(initial=0)), "the smooth's columns are not orthogonal to the constant", f"term {j} {t.spec}")
                elif t.constraint is not None and not (t.te and t.rp):  # te: the constraint acts on re-parameterised coefficients
                    _, res0 = solve_map(fixed_map(t), M)
                    ctx.expect(res0 < 1e-6 * max(1, np.abs(M).max()), "columns leave the constrained function space", f"term {j} {t.spec} {res0}")
                Ms.append(M)
            ctx.expect(start == width, "columns of a by-smooth belong to no level", f"term {j} {t.spec} {start} {width}")
        out[j] = (ci, width, Ms, t, dropped)
        ctx.trans(width)
        ci += width
    ctx.expect(ci == X.shape[1], "model matrix has extra columns", f"{X.shape[1]} instead of {ci}")
    ctx.expect(X.shape[0] == int(ok.sum()), "model matrix has one row per complete observation", f"{X.shape[0]} vs {int(ok.sum())}")
    ctx.state(X.shape[0])
    ctx.trace()
    return order, out, n_drop


# ------------------------------------------------------------------------------------------------------------------- penalties
def embed(n, parts):
    E = np.zeros((n, n))
    for start, S in parts:
        E[start:start + S.shape[0], start:start + S.shape[0]] += S
    return E


def expected_penalties(t, ci, Ms, n_coef):
    """List of (kind, dense matrix, scale_is_free, id, first column) for one term."""
    offs = [ci]
    for M in Ms:
        offs.append(offs[-1] + M.shape[1])
    free = t.kind in ("f", "fs") and len(getattr(t, "V", [1])) > 1 and t.kw.get("scale_te", True)
    out = []
    for p in t.pens:
        for bl, pid in zip(p["blocks"], p["ids"]):
            E = embed(n_coef, [(offs[b], Ms[b].T @ p["S"] @ Ms[b]) for b in bl])
            out.append(("pen", E, free, pid, offs[bl[0]]))
    if getattr(t, "null", False) and t.pens:
        for bl in t.pens[0]["blocks"]:
            parts = []
            for b in bl:
                S = sum((Ms[b].T @ p["S"] @ Ms[b]) / max(np.trace(Ms[b].T @ p["S"] @ Ms[b]), 1e-300) for p in t.pens)
                e, U = np.linalg.eigh((S + S.T) / 2)
                U0 = U[:, e < 1e-9 * max(e.max(), 1e-300) * 100]
                parts.append((offs[b], U0 @ U0.T))
            out.append(("null", embed(n_coef, parts), False, None, offs[bl[0]]))
    return out


def check_penalties(ctx, specs, P, order, out, n_coef, tol=1e-6):
    exp_all, used = 0, set()
    for j in order:
        ci, width, Ms, t, dropped = out[j]
        mine = [k for k, p in enumerate(P) if p.term == j]
        if not t.penalized:
            ctx.expect(not mine, "an unpenalised term has a penalty", f"term {j} {t.spec}")
            continue
        for kind, E, free, pid, first in expected_penalties(t, ci, Ms, n_coef):
            exp_all += 1
            sc_t = np.trace(E)
            if kind == "null" and np.abs(E).max() == 0:
                exp_all -= 1
                continue
            cand = []
            for k in mine:
                if k in used:
                    continue
                A = dense(P[k].S_J_emb)
                s = (np.trace(A) / sc_t) if free else 1.0
                if A.shape == E.shape and s > 0 and np.max(np.abs(A - s * E)) < tol * max(1e-3, s * np.abs(E).max()) * (10 if free else 1):
                    cand.append(k)
            if not cand and kind == "null":
                # natural parameterisation: the null space is penalised by one penalty per dimension
                parts = [k for k in mine if k not in used and P[k].start_index == first and
                         np.max(np.abs(dense(P[k].S_J_emb) @ dense(P[k].S_J_emb) - dense(P[k].S_J_emb))) < 1e-8
                         and np.max(np.abs(dense(P[k].S_J_emb) @ E - dense(P[k].S_J_emb))) < 1e-6]
                A = sum((dense(P[k].S_J_emb) for k in parts), np.zeros((n_coef, n_coef)))
                if parts and np.max(np.abs(A - E)) < 1e-6:
                    used.update(parts)
                    for k in parts:
                        _one_penalty(ctx, P[k], dense(P[k].S_J_emb), None, first, j, t)
                    continue
            if not cand:
                detail = []
                for k in mine:
                    A = dense(P[k].S_J_emb)
                    detail.append(f"[{k}] shape {A.shape} nonzero rows {np.flatnonzero(np.abs(A).sum(0))[[0, -1]].tolist() if np.abs(A).sum() else []} trace {np.trace(A):.6g}")
                ctx.fail("no penalty measures the term's own functions over the term's own columns",
                         f"term {j} {t.spec}: expected {kind} over columns {np.flatnonzero(np.abs(E).sum(0)).tolist()[:3]}.. trace {sc_t:.6g}; present: {'; '.join(detail)}")
                continue
            k = cand[0]
            for kk in cand:      # prefer the one at the right place / id
                if P[kk].start_index == first and P[kk].id == pid:
                    k = kk
                    break
            used.add(k)
            _one_penalty(ctx, P[k], dense(P[k].S_J_emb), pid, first, j, t)
            if free and t.constraint in (None, "QR", "DROP", "DIFF") and not (t.te and t.ident) and dropped is None:
                ev = np.linalg.eigvalsh(dense(P[k].S_J))
                ctx.expect(abs(ev.max() - 1) < 1e-6, "scaled tensor penalty's largest eigenvalue is not one", f"{ev.max()}")
    # an empty null space may be represented by a zero penalty of rank 0
    extra = [k for k in range(len(P)) if k not in used and not (P[k].rank == 0 and np.abs(dense(P[k].S_J_emb)).max() == 0 and np.abs(dense(P[k].D_J_emb)).max(initial=0) == 0)]
    ctx.expect(not extra, "penalty that belongs to no term", f"{[(k, P[k].term, P[k].start_index, str(P[k].type)) for k in extra]}")
    ctx.trans(exp_all)


def _one_penalty(ctx, p, A, pid, first, j, t):
    n = A.shape[0]
    where = f"term {j} {t.spec}"
    ctx.close(A, A.T, "penalty is not symmetric", atol=1e-8 * max(1, np.abs(A).max()))
    D = dense(p.D_J_emb)
    ctx.close(D @ D.T, A, "penalty root does not reproduce the penalty", atol=1e-6 * max(1e-3, np.abs(A).max()), rtol=1e-6, detail=where)
    ctx.expect(p.start_index == first, "penalty's declared start column", f"{p.start_index} instead of {first} ({where})")
    ev = np.linalg.eigvalsh((A + A.T) / 2)
    ctx.expect(ev.min() > -1e-8 * max(ev.max(), 1), "penalty is not positive semi-definite", f"{ev.min()} {where}")
    r = int(np.sum(ev > ev.max() * 1e-9)) if ev.max() > 0 else 0
    ctx.expect(p.rank == r, "declared penalty rank is not its rank", f"declared {p.rank}, rank {r} ({where})")
    S = dense(p.S_J)
    E = embed(n, [(p.start_index + q * S.shape[0], S) for q in range(p.rep_sj)]) if p.start_index + p.rep_sj * S.shape[0] <= n else None
    ctx.expect(E is not None and np.max(np.abs(E - A)) <= 1e-8 * max(1, np.abs(A).max()), "replicated penalty block does not reproduce the embedded penalty", where)
    ctx.expect(p.id == pid, "penalty's smoothing-parameter id", f"{p.id} instead of {pid} ({where})")


# ------------------------------------------------------------------------------------------------------------------- universes
ONS = [0, 3, 1, 5, 2, 4]
ONS2 = [2, 0, 4, 1, 6, 3]
BK = [{"max_c": 60.0, "min_c": 0.0, "convolve": True}]

U_LIN = [T("i"), T("l", ["x"]), T("l", ["n"]), T("l", ["fac"]), T("l", ["cond"]), T("l", ["x", "z"]), T("l", ["fac", "x"]), T("l", ["x", "fac"]), T("l", ["fac", "cond"]),
         T("l", ["fac", "cond", "x"]), T("l", ["x", "z", "w"])]
U_SM = [T("f", ["x"], nk=5), T("f", ["z"], nk=4), T("f", ["x"], nk=5, constraint="DROP"), T("f", ["x"], nk=5, constraint="DIFF"), T("f", ["x"], nk=5, identifiable=False),
        T("f", ["x"], nk=6, basis_kwargs={"deg": 2}), T("f", ["n"], nk=4, pens=[1]), T("f", ["x"], nk=5, rp=1), T("f", ["x"], nk=5, id=3), T("f", ["z"], nk=5, id=3),
        T("f", ["x"], nk=5, by="fac"), T("f", ["x"], nk=4, by="fac", id=1), T("f", ["x"], nk=4, by="cond", penalize_null=True), T("f", ["x"], nk=4, by="cond", id=1, penalize_null=True),
        T("f", ["x"], nk=5, by_cont="w"), T("f", ["x"], nk=4, by="cond", by_cont="w"), T("f", ["x"], nk=5, binary=["fac", "mid"]), T("f", ["x"], nk=5, penalize_null=True),
        T("f", ["x"], nk=5, pens=[2, 1]), T("f", ["x"], nk=5, pens=["I"]), T("f", ["x"], nk=5, pens=[3]), T("f", ["x"], nk=5, by="cond", rp=1), T("f", ["x"], nk=5, by="fac", id=1, rp=1, penalize_null=True),
        T("f", ["z"], nk=5, is_penalized=False), T("f", ["z"], nk=4, by="cond", is_penalized=False)]
U_TP = [T("f", ["x", "z"], nk=3, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=4, te=True), T("f", ["x", "z"], nk=[4, 3], basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 5], te=True, rp=0),
        T("f", ["x", "z"], nk=3, rp=0, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[3, 4], constraint="DROP", basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 4], constraint="DIFF"), T("f", ["x", "z"], nk=[3, 4], rp=0, constraint="DIFF", basis_kwargs={"deg": 2}),
        T("f", ["x", "z"], nk=[4, 3], te=True, by="cond", basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=3, by="cond", id=2, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=3, id=4, basis_kwargs={"deg": 2}),
        T("f", ["x", "z"], nk=3, scale_te=False, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=3, te=True, penalize_null=True, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, by="cond", id=2, penalize_null=True, basis_kwargs={"deg": 2}),
        T("f", ["x", "z"], nk=3, te=True, identifiable=False, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=3, te=True, by_cont="w", basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[3, 4], te=True, binary=["fac", "hi"], basis_kwargs={"deg": 2}),
        T("f", ["x", "z"], nk=[2, 2], binary=["fac", "hi"], basis_kwargs={"deg": 1}), T("f", ["x", "z"], nk=[3, 4], te=True, constraint="DROP", basis_kwargs={"deg": 2}), T("f", ["x", "z", "w"], nk=2, basis_kwargs={"deg": 1}),
        T("f", ["x", "z", "w"], nk=[3, 4, 3], te=True, basis_kwargs={"deg": 1}), T("f", ["x", "z"], nk=[4, 3], pens=[2, 1], rp=0, basis_kwargs={"deg": 2})]
U_RE = [T("ri", "sub"), T("ri", "fac"), T("ri", "sub", id=7), T("ri", "cond", id=7), T("rs", ["x"]), T("rs", ["sub"]), T("rs", ["sub", "x"]), T("rs", ["x", "sub"]), T("rs", ["fac", "cond"]),
        T("rs", ["sub", "x"], by="fac"), T("rs", ["x"], by="fac"), T("rs", ["fac", "cond", "x"], by="sub"), T("rs", ["sub"], by="cond", id=20), T("rs", ["x"], id=7), T("rs", ["x", "z"])]
U_FS = [T("fs", ["x"], rf="sub", nk=5), T("fs", ["x"], rf="sub", nk=5, rp=0), T("fs", ["z"], rf="fac", nk=4, m=2), T("fs", ["x"], rf="subcond", nk=4, by_subgroup=["cond", "a"]), T("fs", ["x"], rf="subcond", nk=4, by_subgroup=["cond", "b"]),
        T("fs", ["x"], rf="sub", nk=4, by_cont="w")]
U_IR = [T("irf", ["time"], nk=6, basis_kwargs=BK), T("irf", ["time"], nk=5, event_onset=ONS2, basis_kwargs=BK, id=5), T("irf", ["time"], nk=5, by="cond", basis_kwargs=BK), T("irf", ["time"], nk=4, by="cond", id=2, basis_kwargs=BK),
        T("irf", ["time", "time"], nk=[4, 5], basis_kwargs=BK * 2), T("irf", ["time"], nk=5, basis_kwargs=BK, is_penalized=False), T("irf", ["time"], nk=5, by="cond", basis_kwargs=BK, is_penalized=False)]
UNI = U_LIN + U_SM + U_TP + U_RE + U_FS + U_IR
CORE = [T("i"), T("l", ["fac"]), T("l", ["fac", "x"]), T("f", ["x"], nk=5), T("f", ["z"], nk=4, by="fac"), T("f", ["z"], nk=4, by="cond", id=1), T("f", ["x", "z"], nk=[3, 4], basis_kwargs={"deg": 2}),
        T("fs", ["x"], rf="sub", nk=4), T("irf", ["time"], nk=5, basis_kwargs=BK), T("ri", "sub"), T("rs", ["sub", "x"], by="cond"), T("f", ["w"], nk=5, rp=1, penalize_null=True), T("l", ["cond"])]
NEST = [  # lower-order smooths next to a tensor that contains them
    [T("f", ["x"], nk=5), T("f", ["z"], nk=5), T("f", ["x", "z"], nk=4, te=True)],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}, by="cond"), T("f", ["x", "z"], nk=[4, 3], te=True, by="cond", basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}, by="cond"), T("f", ["x", "z"], nk=[4, 3], te=True, by="cond", id=1, basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}), T("f", ["z"], nk=2, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, rp=0, basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}, by="fac"), T("f", ["z"], nk=2, by="fac", basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=3, te=True, by="fac", rp=0, basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, penalize_null=True, basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, constraint="DROP", basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, binary=["fac", "hi"], basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, binary=["fac", "hi"], basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, by_cont="w", basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, by_cont="w", basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}), T("f", ["x", "z"], nk=[4, 3], te=True, basis_kwargs={"deg": 2}), T("f", ["x", "z", "w"], nk=[3, 3, 3], te=True, basis_kwargs={"deg": 1})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}, by="cond"), T("f", ["x", "z"], nk=[4, 3], te=True, by="cond", penalize_null=True, basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}, by="grp"), T("f", ["x", "z"], nk=[3, 3], te=True, by="fac", basis_kwargs={"deg": 2})],
    [T("f", ["x"], nk=3, basis_kwargs={"deg": 2}, by="fac"), T("f", ["x", "z"], nk=[3, 3], te=True, by="grp", basis_kwargs={"deg": 2})],
]


def legal(specs):
    """Left out: unpenalised smooths after penalised ones (documented); two tensors of one covariate set (one can be wholly redundant)."""
    pen_seen = False
    for g in (1, 2):
        for s in specs:
            if {"irf": 1, "f": 2, "fs": 2}.get(s[0]) == g:
                if not s[2].get("is_penalized", True):
                    if pen_seen:
                        return False
                else:
                    pen_seen = True
    multi = [sorted(s[1][0]) for s in specs if s[0] == "f" and len(s[1][0]) > 1]
    return all(multi.count(v) == 1 for v in multi)


def overlapping(specs):
    """True if the nesting check of the package may remove columns (a variable occurs in several smooths)."""
    vs = [set(s[1][0]) for s in specs if s[0] == "f"]
    return any(a & b for j, a in enumerate(vs) for b in vs[:j])
