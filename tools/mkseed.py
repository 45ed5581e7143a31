"""Development aid: python tools/mkseed.py ID...   builds seeded/<ID>/ from tools/seeds/<ID>.py and validates it in a scratch copy of /repo.

A spec defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...] and DEMO (python source); optionally FILES={name: text}."""
import json, os, runpy, shutil, subprocess, sys, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CONDA_PREFIX="/usr", SETUPTOOLS_SCM_PRETEND_VERSION="1.2.5", CC="ccache gcc", CXX="ccache g++", CCACHE_DIR="/opt/ccache", CCACHE_COMPILERCHECK="content",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
HELP = os.path.join(V, "tools", "seeds", "helpers")


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def make(i, tests=True):
    spec = runpy.run_path(os.path.join(V, "tools", "seeds", i + ".py"))
    out = os.path.join(V, "seeded", i)
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        sh(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), w + "/repo"], "/")
        r = w + "/repo"
        for f, a, b in spec["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        d = sh(["git", "diff"], r).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"])
        for n in spec.get("HELPERS", []):
            shutil.copy(os.path.join(HELP, n), os.path.join(out, n))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        env = dict(ENV, PYTHONPATH=r + "/src")
        b = sh(["/opt/venv/bin/python", "setup.py", "-q", "build_ext", "--inplace", "--parallel", "8"], r)
        assert b.returncode == 0, b.stderr[-3000:]
        x = sh(["/opt/venv/bin/python", "-c", "import mssm,hsmm;print(mssm.__file__,hsmm.__file__)"], "/", env)
        assert x.stdout.count(r) == 2, x.stdout + x.stderr
        changed = sh(["bash", os.path.join(out, "demo.sh")], r, env, 300)
        same = sh(["bash", os.path.join(out, "demo.sh")], "/repo", ENV, 300)
        msg = f"{i}: demo unchanged={same.returncode} changed={changed.returncode}"
        ok = same.returncode == 0 and changed.returncode != 0
        if same.returncode:
            msg += "\n" + (same.stdout + same.stderr)[-1500:]
        msg += "  [" + (changed.stdout + changed.stderr).strip()[-300:].replace("\n", " | ") + "]"
        if tests and ok:
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "-rA", "tests/test_hsmm.py"], r, env)
            passed = {m.replace("/", ".").replace(".py::", ".").rstrip() for m in re.findall(r"^PASSED (\S+)", t.stdout, re.M)}
            missing = [s for s in STABLE if s not in {p for p in passed}]
            msg += f"\n   stable tests missing: {missing}"
            ok = ok and not missing
        print(("OK  " if ok else "BAD ") + msg, flush=True)
    finally:
        shutil.rmtree(w)
    return ok


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    if len(a) > 1:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda i: subprocess.run([sys.executable, __file__, i] + [x for x in sys.argv[1:] if x.startswith("-")]), a))
    else:
        make(a[0], "--notests" not in sys.argv)
