"""Bounded exhaustive exploration engine.

A check enumerates a finite space of cases (each a JSON value), runs the *real* code of /repo on every one of them, and compares
with a reference model.  Cases run in forked workers; a crash, a hang or an exception of the code under test is a violation.
"""
import hashlib
import itertools
import json
import os
import re
import select
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")


def jdefault(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, set):
        return sorted(o)
    return str(o)


def gen(key, *shape, lo=-1.0, hi=1.0):
    """Fixed 'generic position' numbers: a deterministic function of key (no run-time randomness)."""
    h = int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "little")
    return np.random.default_rng(h).uniform(lo, hi, size=shape if shape else None)


def product(**dims):
    """All combinations, as dicts, simplest first (dims are listed simplest value first)."""
    names = list(dims)
    combos = list(itertools.product(*[list(enumerate(dims[n])) for n in names]))
    combos.sort(key=lambda c: (sum(i for i, _ in c),))
    for c in combos:
        yield {n: v for n, (_, v) in zip(names, c)}


class Ctx:
    """What one case reports."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.fails = []
        self.known_hits = []
        self.outcomes = set()
        self.skipped = 0

    def state(self, n=1):
        self.states += int(n)

    def trans(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, x):
        if isinstance(x, (float, np.floating)):
            x = round(float(x), 9)
        elif isinstance(x, np.ndarray):
            x = np.round(np.asarray(x, float), 7).tobytes() if x.dtype.kind in "fiub" else x.tobytes()
        self.outcomes.add(hashlib.blake2b(repr(x).encode(), digest_size=6).hexdigest())

    def fail(self, what, detail=""):
        self.fails.append((what, str(detail)[:1500]))

    def expect(self, ok, what, detail=""):
        self.evals += 1
        if not bool(ok):
            self.fail(what, detail() if callable(detail) else detail)
        return bool(ok)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, detail=""):
        self.evals += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.dtype.kind not in "fiubc":
            self.fail(what, f"non-numeric result {got!r}"[:400])
            return False
        if got.shape != want.shape:
            self.fail(what, f"shape {got.shape} instead of {want.shape} {detail}")
            return False
        if got.size == 0:
            return True
        got = got.astype(complex if got.dtype.kind == "c" else float)
        want = want.astype(complex if want.dtype.kind == "c" else float)
        both_nan = np.isnan(got) & np.isnan(want)
        with np.errstate(all="ignore"):
            scale = np.max(np.abs(want[np.isfinite(want)])) if np.isfinite(want).any() else 0.0
            ok = (np.abs(got - want) <= atol + rtol * np.maximum(np.abs(want), 1e-3 * scale)) | (got == want) | both_nan
        if ok.all():
            return True
        bad = np.argwhere(~ok)[0]
        ix = tuple(int(b) for b in bad)
        self.fail(what, f"at {ix}: got {got[ix]!r}, reference {want[ix]!r} ({int((~ok).sum())} of {ok.size} entries differ) {detail}")
        return False

    def known(self, kid, detail=""):
        """The case exhibits exactly the listed deviation `kid` (the caller has verified that)."""
        self.known_hits.append((kid, str(detail)[:400]))

    def pack(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces, evals=self.evals, fails=self.fails[:8],
                    nfails=len(self.fails), known=self.known_hits[:8], outcomes=sorted(self.outcomes), skipped=self.skipped)


class Explore:
    def __init__(self, name, cases, fn, timeout, bounds, exhaustive, optional_raise=()):
        self.name, self.cases, self.fn, self.timeout, self.bounds, self.exhaustive = name, cases, fn, timeout, bounds, exhaustive


class Check:
    def __init__(self, pid, level, tier, seed, assumptions=()):
        self.pid, self.level, self.tier, self.seed = pid, level, tier, seed
        self.thorough = tier == "thorough"
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.totals = dict(states=0, transitions=0, traces=0, evals=0, cases=0, skipped=0)
        self.per = []
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.outcomes = set()
        self.nontrivial = 0
        self.rule = ""
        self.exhaustive = True
        self.replay = None
        self.jobs = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
        with open(KNOWN_FILE) as fh:
            kf = json.load(fh)
        self.known_ids = {f["id"]: f for f in kf["findings"] if f["property"] == pid and f.get("status") == "known"}

    # ------------------------------------------------------------------ exploration
    def explore(self, name, cases, fn, bounds="", timeout=240, min_outcomes=None):
        cases = list(cases)
        if self.replay is not None:
            if self.replay["explore"] != name:
                return
            cases = [self.replay["case"]]
        only = os.environ.get("VERIF_ONLY")
        if only and not re.search(only, name):
            return
        t0 = time.time()
        tot = dict(states=0, transitions=0, traces=0, evals=0, skipped=0)
        outs, nviol, done, nontriv = set(), 0, 0, 0
        for idx, res in self._run(cases, fn, timeout):
            done += 1
            for k in tot:
                tot[k] += res.get(k, 0)
            new = set(res.get("outcomes", ())) - outs
            outs |= new
            nontriv += bool(new) if res.get("outcomes") else bool(res.get("evals"))
            for kid, det in res.get("known", ()):
                if kid in self.known_ids:
                    self.known_hits.setdefault(kid, []).append((name, det))
                else:
                    res.setdefault("fails", []).append((kid, det))
            if res.get("fails"):
                nviol += 1
                what, det = res["fails"][0]
                self.violations.append(dict(explore=name, case=cases[idx], what=what, detail=det, all=res["fails"]))
                if nviol >= int(os.environ.get("VERIF_MAXFAIL", "25")):
                    break
        complete = done == len(cases)
        if min_outcomes is not None and not nviol and self.replay is None and complete and len(outs) < min_outcomes:
            print(f"WARNING: {name}: only {len(outs)} distinct outcomes (expected at least {min_outcomes})", flush=True)
            self.assumptions.append(f"exploration {name} reached only {len(outs)} distinct outcomes")
        for k in tot:
            self.totals[k] += tot[k]
        self.totals["cases"] += done
        self.nontrivial += nontriv
        self.outcomes |= {name + o for o in outs}
        if not complete:
            self.exhaustive = False
        if cases:
            self.samples.append(dict(explore=name, first=cases[0], last=cases[-1]))
        self.per.append(dict(explore=name, cases=done, of=len(cases), bounds=bounds, distinct_outcomes=len(outs),
                             seconds=round(time.time() - t0, 1), violations=nviol, **tot))
        print(f"[{self.pid}] {name}: {done}/{len(cases)} cases, states={tot['states']} transitions={tot['transitions']} "
              f"traces={tot['traces']} comparisons={tot['evals']} outcomes={len(outs)} violations={nviol} "
              f"({time.time() - t0:.1f}s)", flush=True)

    def _one(self, fn, case):
        ctx = Ctx()
        try:
            with np.errstate(all="ignore"):
                fn(ctx, case)
        except BaseException as e:   # the code under test raised (or the model could not follow it)
            tb = traceback.format_exc().strip().splitlines()
            ctx.fail(f"exception {type(e).__name__}: {str(e)[:300]}", " | ".join(tb[-6:]))
        return ctx.pack()

    def _run(self, cases, fn, timeout):
        n = len(cases)
        if n == 0:
            return
        if self.jobs <= 1 or os.environ.get("VERIF_INLINE"):
            for i, c in enumerate(cases):
                yield i, self._one(fn, c)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        workers = {}

        def spawn():
            r_in, w_in = os.pipe()
            r_out, w_out = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(w_in)
                    os.close(r_out)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(dn, 2)
                    fin = os.fdopen(r_in, "r")
                    fout = os.fdopen(w_out, "w")
                    for line in fin:
                        i = int(line)
                        fout.write(json.dumps([i, self._one(fn, cases[i])], default=jdefault) + "\n")
                        fout.flush()
                finally:
                    os._exit(0)
            os.close(r_in)
            os.close(w_out)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            workers[r_out] = dict(pid=pid, w=w_in, r=r_out, case=None, t=0.0, buf=b"")
            return workers[r_out]

        def kill(w):
            try:
                os.killpg(w["pid"], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(w["pid"], 0)
            except OSError:
                pass
            os.close(w["r"])
            try:
                os.close(w["w"])
            except OSError:
                pass
            workers.pop(w["r"], None)

        nxt = 0

        def feed(w):
            nonlocal nxt
            if nxt < n:
                w["case"], w["t"] = nxt, time.time()
                os.write(w["w"], f"{nxt}\n".encode())
                nxt += 1
            else:
                w["case"] = None

        try:
            for _ in range(min(self.jobs, n)):
                feed(spawn())
            while any(w["case"] is not None for w in workers.values()):
                rl, _, _ = select.select(list(workers), [], [], 5.0)
                for r in rl:
                    w = workers[r]
                    data = os.read(r, 1 << 20)
                    if not data:
                        i = w["case"]
                        kill(w)
                        if i is not None:
                            yield i, dict(fails=[("crash of the process running the code under test", "")], evals=1)
                            feed(spawn())
                        continue
                    w["buf"] += data
                    while b"\n" in w["buf"]:
                        line, w["buf"] = w["buf"].split(b"\n", 1)
                        i, res = json.loads(line)
                        feed(w)
                        yield i, res
                now = time.time()
                for w in list(workers.values()):
                    if w["case"] is not None and now - w["t"] > timeout:
                        i = w["case"]
                        kill(w)
                        yield i, dict(fails=[(f"no answer within {timeout} s", "")], evals=1)
                        feed(spawn())
        finally:
            for w in list(workers.values()):
                kill(w)

    # ------------------------------------------------------------------ reporting
    def finish(self):
        if self.replay is None:
            cov = dict(samples=self.samples[:12], explorations=self.per, exhaustive=bool(self.exhaustive and not self.violations),
                       comparisons=self.totals["evals"], distinct_outcomes=len(self.outcomes))
            if self.level == "model_checking":
                cov.update(states=self.totals["states"], transitions=self.totals["transitions"],
                           traces_validated_against_impl=self.totals["traces"], cases=self.totals["cases"])
            else:
                cov.update(evaluations=self.totals["cases"], distinct_nontrivial=self.nontrivial, rule=self.rule,
                           states=self.totals["states"], transitions=self.totals["transitions"],
                           traces_validated_against_impl=self.totals["traces"])
            ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                      assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
            d = os.path.join(VERIF, "evidence")
            os.makedirs(d, exist_ok=True)
            tmp = os.path.join(d, f".{self.pid}.tmp")
            with open(tmp, "w") as fh:
                json.dump(ev, fh, indent=1, default=jdefault)
            os.replace(tmp, os.path.join(d, f"{self.pid}.json"))
        for kid, hits in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {kid}: {self.known_ids[kid]['what']} ({len(hits)} explored cases, "
                  f"e.g. {hits[0][0]} {hits[0][1]})")
        if not self.violations:
            print(f"OK property={self.pid} tier={self.tier} cases={self.totals['cases']} comparisons={self.totals['evals']} "
                  f"wall={time.time() - self.t0:.1f}s")
            return 0
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        if os.environ.get("VERIF_DUMP"):
            with open(os.path.join(VERIF, "evidence", f"dump-{self.pid}.json"), "w") as fh:
                json.dump(self.violations, fh, default=jdefault)
        for i, v in enumerate(self.violations[:5]):
            path = os.path.join(d, f"{self.pid}-{i}.json")
            if self.replay is None:
                with open(path, "w") as fh:
                    json.dump(dict(property=self.pid, tier=self.tier, **v), fh, indent=1, default=jdefault)
            print(f"  {v['explore']} {json.dumps(v['case'], default=jdefault)}\n    {v['what']}: {v['detail']}")
            print(f"VIOLATION property={self.pid} replay={path}")
        if len(self.violations) > 5:
            print(f"  ... {len(self.violations)} failing cases in total (exploration stops after a bounded number)")
        return 1
