"""Build the code under test from /repo's current working tree in a scratch directory.

Nothing is written under /repo.  (-O0 in the quick tier: a quarter of the time, the same semantics; -O2, the
project's own level, in the thorough tier.)  The scratch tree holds the tracked and the new, not ignored
files of the working tree; every *.pyx outside for_docs becomes an extension, compiled with the
flags of setup_compile.py.  With CPV_BUILD_CACHE set (development only) a finished tree is kept
under that directory, keyed by the content of all its sources.
"""
import concurrent.futures, glob, hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("CPV_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME"):
        e.pop(k, None)
    e.update({
        "HOME": "/root", "LANG": "C.UTF-8",
        "PATH": "/opt/venv/bin:/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "CCACHE_DIR": "/opt/ccache", "CCACHE_READONLY": "1", "CCACHE_NOSTATS": "1",
        "CFLAGS": "-fno-strict-overflow -Wsign-compare -DNDEBUG -g0 -O2 -Wall -Wno-maybe-uninitialized",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
        "OMP_WAIT_POLICY": "passive", "OPENBLAS_NUM_THREADS": "1",
    })
    e.setdefault("OMP_NUM_THREADS", "3")
    return e


def source_files():
    p = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co",
                        "--exclude-standard", "-z", "cosmic_profiles", "setup_compile.py"],
                       capture_output=True)
    files = []
    if p.returncode == 0:
        files = [f for f in p.stdout.decode().split("\0") if f]
    if not files:
        for root, _, names in os.walk(os.path.join(REPO, "cosmic_profiles")):
            for n in names:
                if n.endswith((".py", ".pyx", ".pxd", ".pxi", ".h")):
                    files.append(os.path.relpath(os.path.join(root, n), REPO))
    keep = []
    for f in files:
        full = os.path.join(REPO, f)
        if not os.path.isfile(full) or "/for_docs/" in f or "/tests/" in f:
            continue
        if f.startswith("cosmic_profiles/") and f.endswith((".so", ".c")):
            continue
        keep.append(f)
    return sorted(set(keep))


CY = r"""
import sys
from Cython.Build import cythonize
from Cython.Compiler import Options
cythonize([sys.argv[1]], quiet=True, force=True)
"""


def _compile(tree, pyx, e, inc, pyinc, ldflags):
    r = subprocess.run([VENV_PY, "-c", CY, pyx], cwd=tree, env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cython failed for %s:\n%s" % (pyx, (r.stdout + r.stderr)[-3000:]))
    c = pyx[:-4] + ".c"
    o = pyx[:-4] + ".o"
    so = pyx[:-4] + ".so"
    opt = "-O2" if os.environ.get("VERIF_TIER") == "thorough" else "-O0"
    cmd = ["gcc"] + e["CFLAGS"].replace("-O2", opt).split() + ["-w", "-fPIC", "-fopenmp", "-I" + inc, "-I.", "-I" + pyinc, "-c", c, "-o", o]
    r = subprocess.run(cmd, cwd=tree, env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("gcc failed for %s:\n%s" % (c, r.stderr[-3000:]))
    r = subprocess.run(["gcc", "-shared", "-fopenmp", o, "-o", so], cwd=tree, env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("link failed for %s:\n%s" % (c, r.stderr[-3000:]))
    os.remove(os.path.join(tree, o))


def _build_into(tree, files):
    for f in files:
        d = os.path.join(tree, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(os.path.join(REPO, f), d)
    e = env()
    out = subprocess.run([VENV_PY, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()['include'])"],
                         env=e, capture_output=True, text=True, check=True).stdout.split("\n")
    pyx = [f for f in files if f.endswith(".pyx")]
    pyx.sort(key=lambda f: -os.path.getsize(os.path.join(tree, f)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(_compile, tree, f, e, out[0], out[1], None) for f in pyx]
        errs = [f.exception() for f in futs if f.exception()]
    if errs:
        raise errs[0]
    for p in pyx:
        os.remove(os.path.join(tree, p[:-4] + ".c"))


class Build:
    """Context manager: .tree is a directory to put on PYTHONPATH."""

    def __init__(self):
        self.tmp = None

    def __enter__(self):
        files = source_files()
        cache = os.environ.get("CPV_BUILD_CACHE")
        if cache:
            h = hashlib.sha256((os.environ.get('VERIF_TIER') == 'thorough') * b'O2')
            for f in files:
                h.update(f.encode() + b"\0" + open(os.path.join(REPO, f), "rb").read() + b"\0")
            self.tree = os.path.join(cache, h.hexdigest()[:24])
            if not os.path.exists(os.path.join(self.tree, ".ok")):
                shutil.rmtree(self.tree, ignore_errors=True)
                os.makedirs(self.tree)
                _build_into(self.tree, files)
                open(os.path.join(self.tree, ".ok"), "w").close()
            return self
        self.tmp = tempfile.mkdtemp(prefix="cpv-build-")
        self.tree = self.tmp
        try:
            _build_into(self.tree, files)
        except BaseException:
            shutil.rmtree(self.tmp, ignore_errors=True)
            raise
        return self

    def __exit__(self, *a):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    with Build() as b:
        print(b.tree, round(time.time() - t, 1))
        e = env(); e["PYTHONPATH"] = b.tree
        print(subprocess.run([VENV_PY, "-c", "import cosmic_profiles;print(cosmic_profiles.__file__);import cosmic_profiles.shape_profs.shape_profs_classes as m;print(m.__file__)"], env=e, cwd="/", capture_output=True, text=True))
