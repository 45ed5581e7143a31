"""C04: posterior state sampling: every outcome of the random draws is enumerated, the induced law is compared with the exact posterior."""
import collections
import ctypes
import glob
import importlib.machinery
import importlib.util
import os

import numpy as np
import build
import hsmm_ref as H
import mssm.src.python.hsmm as HM
import c01

LEVEL = "model_checking"
ASSUMPTIONS = ["std::discrete_distribution is replaced (at compile time, by a force-included header) by scripted choice points with the same normalisation rule.",
               "n_cores=1 for scripted runs (the script lives in the process)."]
LIB = None


def load():
    global LIB
    d = build.ensure_stubbed("hsmm", sorted(os.path.relpath(p, build.REPO) for p in glob.glob(os.path.join(build.REPO, "src/mssm/src/cpp/hsmm/*.cpp"))),
                             os.path.join(build.VERIF, "lib", "stub_discrete.h"), "stub-hsmm")
    path = glob.glob(os.path.join(d, "hsmm*.so"))[0]
    spec = importlib.util.spec_from_file_location("vstub.hsmm", path, loader=importlib.machinery.ExtensionFileLoader("vstub.hsmm", path))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    LIB = ctypes.CDLL(path)
    LIB.vmc_prob.restype = ctypes.c_double
    return mod


REAL = HM.hsmm
STUB = load()


def scripted(fn, script):
    arr = (ctypes.c_int * max(1, len(script)))(*script)
    LIB.vmc_set(arr, len(script))
    out = fn()
    pts, k = [], 0
    for i in range(LIB.vmc_points()):
        n = LIB.vmc_size(i)
        pts.append([LIB.vmc_prob(k + a) for a in range(n)])
        k += n
    return out, pts


def enumerate_runs(fn, limit=200000):
    """Depth-first enumeration of all scripts; yields (result, probability of the script, number of choice points)."""
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        out, pts = scripted(fn, pre)
        choices, p = [], 1.0
        for i, pr in enumerate(pts):
            if i < len(pre):
                ch = pre[i]
            else:
                pos = [a for a, v in enumerate(pr) if v > 0]
                ch = pos[0] if pos else 0
                for a in pos[1:]:
                    stack.append(choices + [a])
            choices.append(ch)
            p *= pr[ch] if ch < len(pr) else float("nan")
        n += 1
        if n > limit:
            raise RuntimeError("script enumeration exceeded its bound")
        yield out, p, len(pts)


def posterior(m, q):
    P, lp = m.series_logp(q)
    if P.P == 0:
        return P, None
    tot = H.lse(lp)
    if np.isneginf(tot):
        return P, None
    w = np.exp(lp - tot)
    post = collections.defaultdict(float)
    for p in range(P.P):
        if w[p] > 0:
            post[(tuple(P.states[p].tolist()), int(P.ed[p]))] += w[p]
    return P, post


def case_law(ctx, c):
    m = H.Model(c)
    ref = []
    for q in m.quantities():
        P, post = posterior(m, q)
        if post is None:
            ctx.outcome("impossible")
            return
        ref.append(post)
    k = c.get("k", 1)
    HM.hsmm = STUB
    try:
        for s in range(len(ref)):
            # one series at a time: earlier/later series take their default outcome
            law = collections.defaultdict(float)
            if len(ref) == 1:
                f = lambda: m.fam.sample_posterior_states(*m.args(), n_samples=k, seed=3, n_cores=1)
                runs = enumerate_runs(f)
            else:
                runs = series_runs(m, k, s)
            points = 0
            for out, p, npts in runs:
                eds, states = out[s]
                eds = np.asarray(eds).ravel()
                states = np.asarray(states)
                key = tuple((tuple(states[:, i].tolist()), int(eds[i])) for i in range(k))
                law[key] += p
                points += npts
                ctx.state()
                ctx.trans(npts)
                ctx.trace()
            if points == 0:
                ctx.skipped += 1      # the sampler no longer draws through std::discrete_distribution
                continue
            want = collections.defaultdict(float)
            if k == 1:
                for kk, v in ref[s].items():
                    want[(kk,)] = v
            else:
                for a, va in ref[s].items():
                    for b, vb in ref[s].items():
                        want[(a, b)] = va * vb
            ctx.close(sum(law.values()), 1.0, "probabilities of the draws sum to one", rtol=1e-8)
            for kk in set(law) | set(want):
                if not ctx.expect(abs(law.get(kk, 0.0) - want.get(kk, 0.0)) <= 1e-9 + 1e-7 * want.get(kk, 0.0),
                                  "sampling probability of a state sequence differs from its posterior probability",
                                  f"series {s} sequence {kk}: sampled with {law.get(kk, 0.0)}, posterior {want.get(kk, 0.0)}"):
                    break
            ctx.outcome(tuple(sorted(law)))
    finally:
        HM.hsmm = REAL


def series_runs(m, k, s):
    """All outcomes of series s, other series on their default draws."""
    f = lambda: m.fam.sample_posterior_states(*m.args(), n_samples=k, seed=3, n_cores=1)
    _, pts = scripted(f, [])
    per = [k * (L + 1) for L in m.lens]
    if sum(per) != len(pts):
        return enumerate_runs(f)
    lo = sum(per[:s])

    def default(pr):
        pos = [a for a, v in enumerate(pr) if v > 0]
        return pos[0] if pos else 0
    head = [default(p) for p in pts[:lo]]

    def gen_():
        stack = [[]]
        while stack:
            pre = stack.pop()
            out, pts2 = scripted(f, head + pre)
            choices, p = [], 1.0
            for i in range(per[s]):
                pr = pts2[lo + i]
                if i < len(pre):
                    ch = pre[i]
                else:
                    pos = [a for a, v in enumerate(pr) if v > 0]
                    ch = pos[0] if pos else 0
                    for a in pos[1:]:
                        stack.append(choices + [a])
                choices.append(ch)
                p *= pr[ch]
            yield out, p, per[s]
    return gen_()


def case_seed(ctx, c):
    """The compiled sampler itself: draws are admissible and a function of the seed."""
    m = H.Model(c)
    ref = [posterior(m, q)[1] for q in m.quantities()]
    if any(r is None for r in ref):
        return
    runs = {}
    for seed in (0, 1, 7):
        a = m.fam.sample_posterior_states(*m.args(), n_samples=25, seed=seed)
        b = m.fam.sample_posterior_states(*m.args(), n_samples=25, seed=seed, n_cores=1)
        for s in range(len(ref)):
            ea, sa = (np.asarray(x) for x in a[s])
            eb, sb = (np.asarray(x) for x in b[s])
            ctx.expect(np.array_equal(ea, eb) and np.array_equal(sa, sb), "same seed must give the same samples", f"seed {seed} series {s}")
            ctx.expect(sa.shape == (m.lens[s], 25) and ea.shape == (25,), "one column per sample", f"{sa.shape} {ea.shape}")
            for i in range(25):
                key = (tuple(sa[:, i].tolist()), int(ea[i]))
                ctx.expect(key in ref[s], "sampled sequence is not admissible", f"series {s}: {key}")
                ctx.outcome(key)
            runs[(seed, s)] = (ea, sa)
        ctx.trace()
        ctx.state(25 * len(ref))


def run(chk):
    sp = []
    for c in c01.space(chk.thorough):
        if c["y"] == "zero" or c["cores"] > 1:
            continue
        if c["kind"] == "hsmm":
            if max(c["lens"]) > 5 or (c["M"] > 1 and c["shared"]) or c["M"] > 2 or c["n_S"] > 3:
                continue
            if c["M"] > 1 and not chk.thorough and (c["ewl"] != c["eil"]):
                continue
        elif c["shared"] == "mu" and c["M"] == 2 and c["n_S"] == 3 and c["w"] == 2 and not c["reuse"] and not c["ewl"]:
            pass
        elif (c["shared"] or c["reuse"] or c["M"] > 1 and c["n_S"] > 3) and not chk.thorough:
            continue
        sp.append(c)
    chk.explore("every-draw", sp, H.with_known(case_law), bounds="all outcomes of every draw; n_S<=5, D<=5, series length<=9", min_outcomes=30)
    two = [dict(c, k=2) for c in sp if c["kind"] == "hsmm" and c["M"] == 1 and sum(c["lens"]) <= 3 and len(c["lens"]) == 1 and c["D"] <= 3]
    two += [dict(H.default_case(kind="hmp", Tpi="fix", swf=True, ewl=a, eil=b, n_S=3, D=4, lens=[6], w=2, rho=r), k=2) for a in (False, True) for b in (False, True) for r in (None, 0.4)]
    chk.explore("two-samples-independent", two, H.with_known(case_law), bounds="all outcomes of every draw, 2 samples, series length<=6", min_outcomes=10)
    chk.explore("seeded-draws", [c for c in c01.space(False) if c["y"] != "zero" and (c["cores"] > 1 or c["D"] == 3) and c["n_S"] < 5][:: (1 if chk.thorough else 2)], H.with_known(case_seed),
                bounds="3 seeds x 25 draws per configuration", min_outcomes=20)
