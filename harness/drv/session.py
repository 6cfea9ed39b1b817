"""Run sequences of API calls on the real code.

in.pkl:  list of sessions; a session is a list of operations
   ("set", name, value)                     keep a value under a name
   ("new", name, class, args, kwargs)       construct cosmic_profiles.<class>
   ("call", obj, method, args, kwargs)      call a method, record a copy of its result
   ("fn", dotted, args, kwargs)             call a function (dotted from cosmic_profiles)
   ("say", obj, method, args, kwargs)       call a method, record what it prints
   ("get", name)                            record a copy of a named value (to see caller data change)
   ("figs",) / ("tree", dir)                figures saved since the last time; names of all files
   ("render", yes)                          whether figures are really drawn from here on
   ("world", obj, dir)                  conversion factors, files and data as they are now
   ("del", name) / ("ls", dir) / ("mv", from, to)
Strings "$name" in arguments stand for named values.
out.pkl: for every session the list of ("ok", value) / ("err", type, message)
"""
import sys, os, pickle, importlib, copy, io, contextlib, traceback
import numpy as np
import cosmic_profiles
cosmic_profiles.__name__


def resolve(a, ns):
    if isinstance(a, str) and a.startswith("$"):
        return ns[a[1:]]
    if isinstance(a, (list, tuple)) and any(isinstance(x, str) and x.startswith("$") for x in a):
        return type(a)(resolve(x, ns) for x in a)
    if isinstance(a, dict) and any(isinstance(x, str) and x.startswith("$") for x in a.values()):
        return {k: resolve(v, ns) for k, v in a.items()}
    return a


def plain(v):
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v) if not hasattr(v, "_fields") else tuple(plain(x) for x in v)
    if hasattr(v, "__next__"):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if v is None or isinstance(v, (int, float, str, bool, np.generic)):
        return v
    if type(v).__module__.startswith("cosmic_profiles") and hasattr(v, "__dict__"):
        return {k: plain(x) for k, x in vars(v).items()}
    try:
        return np.array(v)
    except Exception:
        return repr(v)


def lookup(dotted):
    parts = ("cosmic_profiles." + dotted).split(".")
    for cut in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:cut]))
        except ImportError:
            continue
        for p in parts[cut:]:
            o = getattr(o, p)
        return o
    raise ImportError(dotted)


WATCH = []      # (operation, argument as passed, its pickled content)


def watched(args, kw):
    for a in list(args) + list(kw.values()):
        if isinstance(a, (np.ndarray, list, dict)) and len(WATCH) < 400:
            WATCH.append([len(WATCH), a, pickle.dumps(a)])


def changed():
    """Caller's arguments (of this or earlier operations) that no longer have the content they were passed with."""
    r = []
    for w in WATCH:
        now = pickle.dumps(w[1])
        if now != w[2]:
            r.append((w[0], repr(pickle.loads(w[2]))[:200], repr(w[1])[:200]))
            w[2] = now
    return r


def do(op, ns):
    k = op[0]
    if k == "say":
        with contextlib.redirect_stdout(io.StringIO()) as o:
            do(("call",) + tuple(op[1:]), ns)
        return o.getvalue()
    if k in ("new", "call", "fn"):
        i = {"new": 3, "call": 3, "fn": 2}[k]
        args = [resolve(a, ns) for a in (op[i] if len(op) > i else [])]
        kw = {a: resolve(b, ns) for a, b in (op[i + 1] if len(op) > i + 1 else {}).items()}
        watched(args, kw)
        if k == "new":
            ns[op[1]] = getattr(cosmic_profiles, op[2])(*args, **kw)
            return None
        f = getattr(ns[op[1]], op[2]) if k == "call" else lookup(op[1])
        return plain(f(*args, **kw))
    if k == "set":
        ns[op[1]] = op[2]
    elif k == "get":
        return copy.deepcopy(ns[op[1]])
    elif k == "del":
        del ns[op[1]]
    elif k == "mv":
        os.rename(op[1], op[2])
    elif k == "render":
        RENDER[0] = op[1]
    elif k == "figs":       # figures saved since the last time
        r = FIGS[:]
        del FIGS[:]
        return r
    elif k == "tree":       # names of all files
        return sorted(os.path.relpath(os.path.join(root, f), op[1]) for root, _, fs in os.walk(op[1]) for f in fs)
    elif k == "world":      # conversion factors, files, and a digest of an object's data and its masses and centres
        import hashlib
        f = [float(lookup("common.config." + g)(1.0)) for g in ("LengthInternalToOut", "MassInternalToOut", "VelInternalToOut",
                                                                 "LengthInToInternal", "MassInToInternal", "VelInToInternal")]
        h = hashlib.sha256()
        if op[1]:
            o = ns[op[1]]
            for v in (o.getXYZMasses(), o.getR200(), o.getIdxCat()):
                h.update(pickle.dumps(plain(v)))
            m = o.getMassesCenters([1, 0])
            # in internal units: the answer, whatever the output units
            h.update(np.round(np.log10(np.float64(m["mass"]) / f[1]), 4).tobytes())
        return f, do(("tree", op[2]), ns), h.hexdigest()[:16]
    elif k == "cwd":
        os.chdir(op[1])
    elif k == "ls":
        r = {}
        for root, _, files in os.walk(op[1]):
            for f in files:
                p = os.path.join(root, f)
                r[os.path.relpath(p, op[1])] = open(p, "rb").read() if len(op) < 3 else os.path.getsize(p)
        return r
    else:
        raise ValueError(k)


FIGS, RENDER = [], [False]


def shown(ax):
    """What a pair of axes shows, as plain arrays."""
    from matplotlib.patches import Rectangle
    r = {"lines": [(np.array(l.get_xdata(orig=True), float), np.array(l.get_ydata(orig=True), float)) for l in ax.lines if np.ndim(l.get_xdata()) and len(l.get_xdata()) > 0],
         "bars": [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if isinstance(p, Rectangle)], "polys": [], "points": [], "segments": [], "labels": [l() for l in (ax.get_xlabel, ax.get_ylabel, getattr(ax, "get_zlabel", None)) if l],
         "legend": [str(t) for t in ax.get_legend_handles_labels()[1]],
         "window": [list(map(float, l())) for l in (ax.get_xlim, ax.get_ylim, getattr(ax, "get_zlim", None)) if l]}
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            r["points"].append(np.array([np.ma.filled(np.ma.asarray(x, float), np.nan) for x in c._offsets3d]).T)
        elif hasattr(c, "_segments3d"):
            r["segments"].append(np.array(c._segments3d, float))
        else:
            r["polys"].append([np.array(p.vertices) for p in c.get_paths()])
    return r


def watch_figures(render):
    from matplotlib.figure import Figure
    real = Figure.savefig
    RENDER[0] = render

    def savefig(self, fname, *a, **k):
        FIGS.append((os.path.abspath(fname), [shown(ax) for ax in self.axes]))
        if RENDER[0]:
            return real(self, fname, *a, **k)
        open(fname, "w").close()
    Figure.savefig = savefig


def reset_units():
    # every session starts from the default unit systems and cache limits
    cosmic_profiles.updateInUnitSystem(length_in_cm='Mpc/h', mass_in_g='E+10Msun/h', velocity_in_cm_per_s=1e5, little_h=0.6774)
    cosmic_profiles.updateOutUnitSystem(length_in_cm='Mpc/h', mass_in_g='E+10Msun/h', velocity_in_cm_per_s=1e5, little_h=0.6774)


def one(s):
    import matplotlib.pyplot as plt
    ns, res = {}, []
    del WATCH[:]
    reset_units()
    for op in s:
        try:
            v = do(op, ns)
            res.append(("ok", v, changed()))
        except (Exception, SystemExit) as e:
            res.append(("err", type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:]))
    plt.close("all")
    return res


def forked(s):
    """The session in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(one(s), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else [("err", "Crash", "the process died", "")]


def main():
    sessions = pickle.load(open(sys.argv[1], "rb"))
    import matplotlib.pyplot as plt
    if isinstance(sessions, dict):      # {"sessions", "fork", "nofig", "jobs"}
        o, sessions = sessions, sessions["sessions"]
        if o.get("nofig"):
            from matplotlib.figure import Figure
            Figure.savefig = lambda self, *a, **k: None
        if o.get("figures"):
            watch_figures(o["figures"] == "render")
        if o.get("fork"):
            if o.get("jobs", 1) == 1:
                out = [forked(s) for s in sessions]
            else:       # several forked servers, each working through a share of the sessions
                n = o["jobs"]
                parts = [list(range(i, len(sessions), n)) for i in range(n)]
                pipes = []
                for p in parts:
                    r, w = os.pipe()
                    if os.fork() == 0:
                        try:
                            os.close(r)
                            with os.fdopen(w, "wb") as f:
                                pickle.dump([forked(sessions[i]) for i in p], f)
                        finally:
                            os._exit(0)
                    os.close(w)
                    pipes.append(r)
                out = [None] * len(sessions)
                for p, r in zip(parts, pipes):
                    with os.fdopen(r, "rb") as f:
                        for i, x in zip(p, pickle.loads(f.read())):
                            out[i] = x
                for _ in parts:
                    os.wait()
            with open(sys.argv[2], "wb") as f:
                pickle.dump(out, f)
            return
    out = [one(s) for s in sessions]
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
