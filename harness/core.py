"""Shared machinery of the checks: build, TLC runs, drivers for the real code, verdicts, evidence."""
import json, math, os, pickle, random, re, shutil, struct, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class CodeError(Exception):
    """The code under test crashed, never came back or answered in a form that cannot be judged."""
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key


# ---------------------------------------------------------------- reals in JSON
def R(x):
    """A double as the pair of 32-bit halves module R works on."""
    x = float(x)
    if x == 0.0:
        x = 0.0
    if math.isnan(x):
        x = math.nan
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return [hi, lo]


def RS(seq):
    return [R(x) for x in seq]


def RM(mat):
    return [RS(r) for r in mat]


def unR(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.states = int(m[-1][1]) if m else 0
        self.transitions = int(m[-1][0]) if m else 0
        if not m:
            m = re.findall(r"(\d+) states checked", out) or re.findall(r"number of states generated: (\d+)", out)
            if m:
                self.transitions = self.states = int(m[-1])
        # printed strings:  "TAG|..."
        self.prints = [json.loads('"%s"' % l) for l in re.findall(r'^"((?:[^"\\]|\\.)*)"$', out, re.M)]

    def tagged(self, tag):
        seen, r = set(), []
        for p in self.prints:
            if p.startswith(tag + "|") and p not in seen:
                seen.add(p)
                r.append(p.split("|", 1)[1])
        return r


def r_class(dst):
    """The compiled Java side of module R."""
    cache = os.path.join(ROOT, ".cache", "R")
    src = os.path.join(ROOT, "spec", "lib", "R.java")
    key = B.hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    have = os.path.join(cache, key, "R.class")
    if not os.path.exists(have):
        r = subprocess.run(["javac", "-cp", JAR, "-d", dst, src], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac: " + r.stderr[-2000:])
        try:
            os.makedirs(os.path.dirname(have), exist_ok=True)
            tmp = have + ".%d" % os.getpid()
            shutil.copy(os.path.join(dst, "R.class"), tmp)
            os.replace(tmp, have)
        except OSError:
            pass
    else:
        shutil.copy(have, os.path.join(dst, "R.class"))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.tmp = tempfile.mkdtemp(prefix="cpv-%s-" % prop)
        self.t0 = time.time()
        self._build = None
        self.driven = False
        self._spec = None
        self.viol = []          # (key, message, replay object)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.assumptions = []

    # ---- pick by tier
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def np_rng(self, salt=0):
        import numpy as np
        return np.random.default_rng([self.seed, int(self.prop[1:]), salt])

    # ---- build of the code under test
    @property
    def tree(self):
        if self._build is None:
            t = time.time()
            self._build = B.Build()
            try:
                self._build.__enter__()
            except B.BuildError as e:
                self._build = None
                raise ToolError("build failed: %s" % e)
            self.cov["build_s"] = round(time.time() - t, 1)
        return self._build.tree

    def drive(self, script, payload, timeout=600, env=None, allow_fail=False, mpi=None):
        """Run harness/drv/<script>.py against the built tree; payload and result are pickled."""
        d = tempfile.mkdtemp(dir=self.tmp)
        with open(os.path.join(d, "in.pkl"), "wb") as f:
            pickle.dump(payload, f)
        e = B.env()
        e["PYTHONPATH"] = self.tree + os.pathsep + os.path.join(HERE, "drv")
        e.update(env or {})
        e["CPV_WORK"] = d
        if not self.thorough:
            timeout = min(timeout, 330)      # many times what the unchanged code needs
        cmd = [B.VENV_PY, "-W", "ignore", os.path.join(HERE, "drv", script + ".py"),
               os.path.join(d, "in.pkl"), os.path.join(d, "out.pkl")]
        if mpi:
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(mpi)] + cmd
        with open(os.path.join(d, "log"), "w") as lg:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=lg, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        out = os.path.join(d, "out.pkl")
        log = open(os.path.join(d, "log"), errors="replace").read()
        res = None
        if os.path.exists(out):
            with open(out, "rb") as f:
                res = pickle.load(f)
        self.driven = True
        if allow_fail:
            return res, rc, log
        if res is None or rc != 0:
            what = "driver %s ended with %s\n%s" % (script, rc, log[-3000:])
            env_trouble = any(w in log for w in ("MemoryError", "No space left", "Cannot allocate", "Resource temporarily unavailable"))
            if rc == "timeout":
                raise CodeError("hang", what)
            if not env_trouble and (rc in (-4, -6, -7, -8, -11) or "Traceback (most recent call last)" in log or "Segmentation fault" in log):
                raise CodeError("crash", what)
            raise ToolError(what)
        return res

    # ---- TLC
    def spec_dir(self):
        if self._spec is None:
            self._spec = tempfile.mkdtemp(prefix="spec-", dir=self.tmp)
            for d in (os.path.join(ROOT, "spec"), os.path.join(ROOT, "spec", "lib")):
                for f in os.listdir(d):
                    if f.endswith(".tla"):
                        os.symlink(os.path.join(d, f), os.path.join(self._spec, f))
            r_class(self._spec)
        return self._spec

    def tlc(self, module, cfg, cases=None, workers=None, args=(), timeout=800, ok_codes=(0,), count=True,
            env=None, heap="6g", judging=False):
        """Run TLC on spec/<module>.tla; cfg is the text of the configuration."""
        sd = self.spec_dir()
        wd = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        c = os.path.join(wd, "m.cfg")
        with open(c, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        if cases is not None:
            cf = os.path.join(wd, "cases.json")
            with open(cf, "w") as f:
                json.dump(cases, f)
            e["CASES"] = cf
        if workers is None:
            workers = 6
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", ":".join([sd, JAR, CM]),
               "tlc2.TLC", "-config", c, "-metadir", os.path.join(wd, "md"), "-workers", str(workers),
               "-nowarning", "-deadlock"] + list(args) + [os.path.join(sd, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=sd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        res = TlcResult(r.stdout + r.stderr, r.returncode, time.time() - t)
        shutil.rmtree(os.path.join(wd, "md"), ignore_errors=True)
        if res.rc not in ok_codes:
            if judging and "Attempted to" in res.out and "java.lang" not in res.out:
                raise CodeError("form", "recorded answers that module %s cannot read:\n%s" % (module, tail(res.out)))
            raise ToolError("TLC on %s ended with %d:\n%s" % (module, res.rc, tail(res.out)))
        if count:
            self.cov["states"] += res.states
            self.cov["transitions"] += res.transitions
            self.cov.setdefault("tlc_runs", []).append(
                {"module": module, "states": res.states, "transitions": res.transitions, "wall_s": round(res.wall, 1)})
        return res

    def model_check(self, module, cfg, **kw):
        """Model-check; a violated invariant is a broken specification, not a violation by the code."""
        res = self.tlc(module, cfg, **kw)
        if "No error has been found" not in res.out and "-simulate" not in str(kw.get("args")):
            raise ToolError("specification %s fails its own check:\n%s" % (module, tail(res.out)))
        return res

    def judge(self, module, cases, describe=None, cfg="SPECIFICATION Spec\n", tag="R", label=None, max_ambiguous=0.5,
              key=None, payload=None, **kw):
        """Trace check: the specification judges every recorded case and prints  R|<index>|<verdict>
        with verdict OK, AMBIGUOUS or a list of failed clauses.  Returns {index: verdict}."""
        if not cases:
            return {}
        res = self.tlc(module, cfg, cases=payload if payload is not None else cases, judging=True, **kw)
        self.last = res
        v = {}
        for p in res.tagged(tag):
            i, w = p.split("|", 1)
            v[int(i) - 1] = w if int(i) - 1 not in v or v[int(i) - 1] == "OK" else v[int(i) - 1] + "," + w
        missing = [i for i in range(len(cases)) if i not in v]
        if missing:
            raise ToolError("%s gave no verdict for cases %s\n%s" % (module, missing[:5], tail(res.out)))
        amb = [i for i in v if v[i] == "AMBIGUOUS"]
        if len(amb) > max_ambiguous * len(cases) and not any(v[i] not in ("OK", "AMBIGUOUS") for i in v):
            raise ToolError("%s: %d of %d cases ambiguous" % (module, len(amb), len(cases)))
        self.cov["traces_validated_against_impl"] += len(cases) - len(amb)
        self.cov["ambiguous_cases"] = self.cov.get("ambiguous_cases", 0) + len(amb)
        for i, c in enumerate(cases):
            if v[i] not in ("OK", "AMBIGUOUS"):
                d = describe(i) if describe else c
                k = key(i, v[i]) if key else v[i]
                self.violation(k, "%s: %s" % (label or module, v[i]), {"module": module, "clauses": v[i], "case": d,
                                                                       "encoded": c if len(json.dumps(c)) < 200000 else None})
        return v

    # ---- verdicts
    def violation(self, key, message, replay):
        self.viol.append((str(key), message, replay))

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def close(self):
        if self._build is not None:
            self._build.__exit__(None, None, None)
        shutil.rmtree(self.tmp, ignore_errors=True)


def tail(out, n=3000):
    return out[:1500] + "\n...\n" + out[-n:] if len(out) > n + 1500 else out


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o) if math.isfinite(o) else str(float(o))
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main(argv):
    import argparse, importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + a.prop.lower())
    ctx = Ctx(a.prop, tier, seed)
    rc = 2
    try:
        mod.run(ctx)
        rc = verdict(ctx, mod)
    except CodeError as e:
        ctx.violation(e.key, str(e)[:400], {"what": str(e)})
        rc = verdict(ctx, mod)
    except ToolError as e:
        print("ERROR %s: %s" % (a.prop, e))
        rc = verdict(ctx, mod, True)
    except FORM as e:
        traceback.print_exc()
        if ctx.driven:      # the unchanged code's answers never get here: these do not have the documented form
            ctx.violation("form", "answers the check cannot read: %s: %s" % (type(e).__name__, e), {"trace": traceback.format_exc()})
        else:
            print("ERROR %s: the check itself failed" % a.prop)
        rc = verdict(ctx, mod, True)
    except Exception:
        traceback.print_exc()
        print("ERROR %s: the check itself failed" % a.prop)
        rc = verdict(ctx, mod, True)
    finally:
        ctx.close()
    return rc


FORM = (ValueError, TypeError, LookupError, AttributeError, AssertionError, ArithmeticError)


def verdict(ctx, mod, failed=False):
    kf = [f for f in known_findings()["findings"] if f["property"] == ctx.prop]
    new, known = [], {}
    for k, msg, rep in ctx.viol:
        f = next((f for f in kf if f["key"] == k), None)
        if f:
            known[f["key"]] = f
        else:
            new.append((k, msg, rep))
    if failed and not new:
        return 2
    wall = round(time.time() - ctx.t0, 1)
    if not ctx.cov["samples"]:
        ctx.cov["samples"] = ["(none)"]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": jsonable(ctx.cov), "assumptions": ctx.assumptions or getattr(mod, "ASSUMPTIONS", []),
          "wall_s": wall, "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, f["what"]))
    for f in kf:
        if f["key"] not in known:
            print("note: known finding %r did not show in this run" % f["key"])
    if not new:
        print("OK property=%s tier=%s traces=%d states=%d wall=%.1fs" % (
            ctx.prop, ctx.tier, ctx.cov["traces_validated_against_impl"], ctx.cov["states"], wall))
        return 0
    rd = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s.json" % ctx.prop)
    with open(path, "w") as f:
        json.dump(jsonable([{"key": k, "message": m, "replay": r} for k, m, r in new[:int(os.environ.get("CPV_REPLAYS", "20"))]]), f, indent=1)
    for k, m, r in new[:8]:
        print("  %s [%s]" % (m, k))
    print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    return 1
