"""Builds the C++ extensions of /repo's *current working tree* out of tree, with the repository's own setup.py.

The output directory is keyed by a hash over every C++ source and setup.py, so a changed tree is always rebuilt.
Nothing is written to /repo.  ccache (if present) is used read-only and goes by content.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")


def _hash(extra=""):
    h = hashlib.sha256()
    files = [os.path.join(REPO, "setup.py")]
    for root, dirs, fs in os.walk(os.path.join(REPO, "src", "mssm", "src", "cpp")):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    e.update(CONDA_PREFIX="/usr", SETUPTOOLS_SCM_PRETEND_VERSION="1.2.5", PYTHONDONTWRITEBYTECODE="1")
    if shutil.which("ccache") and os.path.isdir("/opt/ccache"):
        e.update(CC="ccache gcc", CXX="ccache g++", CCACHE_DIR="/opt/ccache", CCACHE_COMPILERCHECK="content",
                 CCACHE_READONLY="1", CCACHE_NOSTATS="1", CCACHE_TEMPDIR=os.path.join(CACHE, "cctmp"))
    return e


def _locked(key, fn):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "DONE")):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            fn(out)
            open(os.path.join(out, "DONE"), "w").close()
    return out


def ensure_ext():
    """Compile all extension modules; returns the directory holding the .so files."""
    def do(out):
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--force", "--parallel", "8",
                            "--build-lib", out, "--build-temp", tmp], cwd=REPO, env=_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(tmp, ignore_errors=True)
        if r.returncode:
            raise RuntimeError("building the extensions failed:\n" + r.stdout[-4000:])
    return _locked("ext-" + _hash(), do)


def ensure_stubbed(module, sources, stub, name):
    """Compile one extension module with a header force-included before everything else (scripted randomness)."""
    with open(stub) as fh:
        text = fh.read()

    def do(out):
        import pybind11
        import sysconfig
        inc = ["-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"], "-I/usr/include/eigen3"]
        objs, procs = [], []
        for s in sources:
            o = os.path.join(out, os.path.basename(s) + ".o")
            objs.append(o)
            procs.append(subprocess.Popen(["g++", "-O1", "-std=c++14", "-fPIC", "-fvisibility=hidden", *inc, "-include", stub,
                                           "-c", os.path.join(REPO, s), "-o", o], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True))
        for p in procs:
            txt, _ = p.communicate()
            if p.returncode:
                raise RuntimeError("stubbed build failed:\n" + txt[-4000:])
        subprocess.check_call(["g++", "-shared", "-o", os.path.join(out, module + sysconfig.get_config_var("EXT_SUFFIX")), *objs])
        for o in objs:
            os.remove(o)
    return _locked(name + "-" + _hash(text), do)


def setup_path():
    """Make `import mssm` and the extension modules resolve to the current tree."""
    d = ensure_ext()
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(REPO, "src")]
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(0, d)
    return d


if __name__ == "__main__":
    print(ensure_ext())
