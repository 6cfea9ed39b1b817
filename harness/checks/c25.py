"""C25: sessions of plotting calls; the figures as saved and the files that appear are judged by PlotTrace."""
import re
import numpy as np
import clouds, gadget_io, katz
from core import *

PAT = re.compile(r"^(qM|sM|TM|RhoProfM)(-?\d+\.\d\d)(.*)$")
STEM = re.compile(r"^(LocalTCount|GlobalTCount|EpsCount|RhoProf_|LocalObj\d+|GlobalObj\d+|q|s|T)(.*)$")
MODELS = {"nfw": lambda r, p: 1 / ((r / p["r_s"]) * (1 + r / p["r_s"]) ** 2), "hernquist": lambda r, p: 1 / ((r / p["r_s"]) * (1 + r / p["r_s"]) ** 3),
          "einasto": lambda r, p: np.exp(-2 / 0.2 * ((r / p["r_s"]) ** 0.2 - 1))}


def name(path):
    f = os.path.basename(path)
    if not f.endswith(".pdf"):
        return {"stem": f, "num": [], "tail": ""}
    f = f[:-4]
    m = PAT.match(f)
    if m:
        return {"stem": m.group(1), "num": [R(float(m.group(2)))], "tail": m.group(3)}
    m = STEM.match(f)
    return {"stem": m.group(1), "num": [], "tail": m.group(2)} if m else {"stem": f, "num": [], "tail": ""}


def band(sh, x):
    """Lower and upper edge of the filled band at the abscissae x (nan where there is none)."""
    lo, hi = np.full(len(x), np.nan), np.full(len(x), np.nan)
    v = np.concatenate([p for c in sh["polys"] for p in c] or [np.zeros((0, 2))])
    for k, a in enumerate(x):
        y = v[v[:, 0] == a, 1]
        if len(y):
            lo[k], hi[k] = y.min(), y.max()
    return lo, hi


def curve(sh, x):
    lines = [l for l in sh["lines"] if len(l[0]) == len(x) and np.array_equal(l[0], x)]
    lo, hi = band(sh, x)
    return {"x": RS(lines[0][0]) if lines else [], "mid": RS(lines[0][1]) if lines else [], "lo": RS(lo), "hi": RS(hi)}


SUPER = {c: str(k) for k, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
SUPER["⁻"] = "-"
MASS = re.compile(r"(E\+10|10\^10)?M_?(sun|odot)(/h)?")
LEN = re.compile(r"([kMG])pc(/h)?")


def units_in(labels):
    """Names of units the labels of the axes state."""
    out = []
    for t in labels:
        t = re.sub(r"\\mathrm|[\\ ${}]", "", t)
        for m in MASS.finditer(t):
            out.append(("E+10" if m.group(1) else "") + "Msun" + (m.group(3) or ""))
        for m in LEN.finditer(MASS.sub(" ", t)):
            out.append(m.group(0))
    return out


def written(t):
    """The numbers written in a text."""
    t = "".join(SUPER.get(c, "^" + SUPER[c] if 0 else c) for c in re.sub("10([%s]+)" % "".join(SUPER), lambda m: "E" + "".join(SUPER[c] for c in m.group(1)), t))
    t = re.sub("[^0-9a-zA-Z.+-]*[✕×][^0-9a-zA-Z.+-]*", "", t)
    return [float(x) for x in re.findall(r"(?<![A-Za-z_])[0-9]+\.[0-9]+(?:E-?[0-9]+)?", t)]


def stated(sh):
    """What labels and legends state: units, range of masses, semi-axes."""
    rng = [written(t) for t in sh["legend"] if t.startswith("$M:")]
    axs = [written(t) for t in sh["legend"] if re.search(r"\ba = ", t)]
    return {"units": units_in(sh["labels"]), "ranges": [RS(r) for r in rng if len(r) == 2], "axes": [RS(a) for a in axs if len(a) == 3]}


def whose(pts, x, L):
    """Which particle (1-based) each point shown is: the nearest in the box."""
    from scipy.spatial import cKDTree
    fold = lambda a: np.minimum(np.mod(np.asarray(a, float), L), np.nextafter(L, 0))
    pts = np.asarray(pts, float)
    if not np.isfinite(pts).all():
        return []
    return [int(k) + 1 for k in cKDTree(fold(x), boxsize=L).query(fold(pts))[1]]


def make(ctx, rng, k):
    """A session: (operations, what is known about each)."""
    d = os.path.join(ctx.tmp, "plots%d" % k)
    os.makedirs(os.path.join(d, "work"))
    relative = bool(k % 2)
    viz, dest = (os.path.join("viz", "deep"), os.path.join(d, "work", "viz", "deep")) if relative else (os.path.join(d, "out", "viz"),) * 2
    L = 20.0
    counts = {9: [int(t) for t in rng.integers(12, 30, 30)], 10: [6200, 40, 5001]}.get(k % 24, [])      # sizes far from the usual ones
    nh = len(counts) or int(rng.integers(3, 9))
    halos = []
    for h in range(nh):
        x = katz.make_halo(rng, counts[h]) if counts else katz.make_halo(rng, int(rng.integers(40, 130)) if rng.random() < 0.75 else int(rng.integers(12, 30)))
        x["m"] = x["m"] * 10.0 ** rng.uniform(0, 2)
        x["pos"] = rng.uniform(0, L, 3)
        halos.append(x)
    xyz, vel, m, cat = katz.catalogue(rng, halos, L)
    r200 = rng.uniform(0.7, 1.3, nh)
    com = k % 3 > 0
    snap, out = "%03d" % int(rng.integers(0, 120)), (str(rng.choice(["Mpc/h", "kpc/h"])), str(rng.choice(["E+10Msun/h", "Msun/h"])))
    lf, mf = (1.0 if out[0] == "Mpc/h" else 1e3), (1.0 if out[1] == "E+10Msun/h" else 1e10)      # internal -> out
    ops, recs = [], []

    def op(o, rec=None):
        ops.append(o)
        recs.append(rec)
    op(("render", k < 3))
    op(("fn", "updateOutUnitSystem", [], {"length_in_cm": out[0], "mass_in_g": out[1], "velocity_in_cm_per_s": 1e5, "little_h": 0.6774}))
    op(("cwd", os.path.join(d, "work")))
    suffix = "_"
    if k % 4 == 3:
        obj, t = [("dm", 1), ("stars", 4), ("gas", 0)][int(rng.integers(0, 3))]
        suffix = "_%s_" % obj
        order = np.concatenate([np.array(c) for c in cat])
        sp, gd = os.path.join(d, "snap"), os.path.join(d, "groups")
        gadget_io.write_snapshot(sp, {t: dict(pos=xyz[order], vel=vel[order], mass=m[order], ids=np.arange(len(m), dtype=np.uint64))}, boxsize=L)
        n = [len(c) for c in cat]
        gadget_io.write_groups(gd, [dict(group_len=n, nsubs=[1] * nh, rvir=r200, r200=r200, sub_len=n, ptype=t)])
        op(("new", "o", "DensShapeProfsGadget", [sp, gd, obj, snap, viz, viz], {"MIN_NUMBER_PTCS": 5, "CENTER": "com" if com else "mode"}))
    else:
        op(("new", "o", "DensShapeProfs", [xyz, m, cat, r200, L, snap, viz, viz], {"MIN_NUMBER_PTCS": 5, "CENTER": "com" if com else "mode"}))
    op(("call", "o", "getXYZMasses", []), "xyz")
    op(("call", "o", "getIdxCat", []), "cat")
    op(("call", "o", "getR200", []), "r200")
    cfgs = [katz.config(rng, int(rng.integers(2, 7))) for _ in range(2)]
    for c in cfgs:
        if rng.random() < 0.3:
            c["IT_MIN"] = int(rng.choice([60, 100, 10000]))
    sels = [[int(x) for x in rng.permutation(nh)[:int(rng.integers(1, nh + 1))]] for _ in range(2)]
    if counts:
        sels = [[int(x) for x in rng.permutation(nh)], [0] if nh == 3 else [int(x) for x in rng.permutation(nh)[:25]]]
    op(("call", "o", "getMassesCenters", [list(range(nh))]), "masses")
    for a in (0, 1):
        op(("call", "o", "getShapeCatLocal", [sels[a], cfgs[a]]), ("local", a))
        op(("call", "o", "getShapeCatGlobal", [sels[a], cfgs[a]]), ("global", a))
    for a in (0, 1):        # the ellipticities behind the histograms, also in a turned frame
        t = 0.0 if a else float(rng.uniform(-7, 7))
        op(("fn", "shape_profs.shape_profs_tools.getEpsilon", [np.concatenate([cat[h] for h in sels[a]]).astype(np.int64), np.array([len(cat[h]) for h in sels[a]], np.int64), xyz, m, L, "com" if com else "mode"]
            + ([t] if a == 0 else [])), {"a": a, "call": "eps", "turn": t, "inputs": (xyz, m, cat, L)})
    calls = ["shapes", "tlocal", "tglobal", "eglobal", "elocal", "dens", "vlocal", "vglobal"]
    op(("figs",))
    for c in [str(x) for x in rng.permutation(calls)] + [str(x) for x in rng.permutation(calls)[:2]]:
        a = int(rng.integers(0, 2))
        sel, cfg = sels[a], cfgs[a]
        nb, frac = int(rng.integers(2, 12)), float(rng.uniform(0.3, 1.0))
        q = {"a": a, "call": c, "nb": nb, "frac": frac, "snap": snap, "suffix": suffix, "units": list(out)}
        if c == "shapes":
            q["nb"] = int(rng.integers(1, 4))
            o = ("plotShapeProfs", [q["nb"], sel, cfg])
        elif c == "tlocal":
            o = ("plotLocalTHist", [nb, frac, sel, cfg])
        elif c == "tglobal":
            o = ("plotGlobalTHist", [nb, sel, cfg])
        elif c == "eglobal":
            o = ("plotGlobalEpsHist", [nb, sel])
        elif c == "elocal":
            if k % 6 in (2, 4):       # exactly one particle, or none, of the first halo counts
                p = xyz[cat[sel[0]]]
                p = p - p[0] - L * np.round((p - p[0]) / L)
                near = np.sort(np.linalg.norm(p - np.average(p, axis=0, weights=m[cat[sel[0]]]), axis=1))
                frac = q["frac"] = float((near[0] + near[1] if k % 6 == 2 else near[0]) / 2 / r200[sel[0]])
            o = ("plotLocalEpsHist", [frac, nb, sel])
        elif c[0] == "v":
            o = ("vizLocalShapes" if c == "vlocal" else "vizGlobalShapes", [sel[:2], cfg])
        else:
            q["nb"] = nb = int(rng.integers(1, 4))
            n = len(sel)
            rr, rf = np.sort(rng.uniform(0.05, 1.2, int(rng.integers(2, 7)))), np.geomspace(0.08, 1.0, 9)
            rho = 10.0 ** rng.normal(3, 1, (n, len(rr)))
            if rng.random() < 0.3:
                rho[int(rng.integers(0, n)), int(rng.integers(0, len(rr)))] = 0.0
            mass = np.array([sum(m[i] for i in cat[h]) for h in sel])
            by = np.argsort(mass)
            ch = (n + nb - 1) // nb
            groups = [by[i:i + ch] for i in range(0, n, ch)]
            prof = str(rng.choice(list(MODELS)))
            fit, want = np.zeros((n, len(rf))), []
            for g in groups:
                av = np.mean(np.array([r200[sel[i]] for i in g]))
                amp = 10.0 ** rng.uniform(-0.3, 0.3, len(g)) * 10.0 ** rng.uniform(2, 5)
                base = MODELS[prof](rf * av, {"r_s": float(rng.uniform(0.2, 0.6)) * av})
                fit[g] = amp[:, None] * base
                want.append(RS(np.median(amp) * base))
            want = [want[0] if len(groups) == 1 else []] + want
            if rng.random() < 0.25:         # an ellipsoidal profile of a halo without shape
                i = int(rng.integers(0, n))
                rho[i] = fit[i] = np.nan
                want = [[] for _ in want]
            q.update(rr=rr, rf=rf, rho=rho, want=want, fit=fit)
            o = ("plotDensProfs", [rho, rr, fit, rf, {"profile": prof}, nb, sel])
        op(("tree", d))
        op(("call", "o") + o, q)
        op(("tree", d))
        op(("figs",))
    return {"d": d, "dest": dest, "ops": ops, "recs": recs, "L": L * lf, "com": com, "sels": sels, "mf": mf, "nh": nh, "n": k, "cfgs": cfgs,
            "cfg": [jsonable(c) for c in cfgs]}


def case(ctx, s, res):
    known, calls, where = {}, [], {"session": s["n"], "selections": s["sels"], "katz_config": s["cfg"], "com": s["com"]}
    it = list(zip(s["ops"], s["recs"], res))
    for j, (o, rec, v) in enumerate(it):
        if v[0] != "ok":
            w = rec["call"] if isinstance(rec, dict) else str(rec)
            ctx.violation("exception " + w, "%s raised %s: %s" % (o[2] if len(o) > 2 else o, v[1], v[2]), dict(where, call=[str(x)[:300] for x in o], traceback=v[3]))
            if not isinstance(rec, dict):
                return None
            continue
        if rec is None:
            continue
        if not isinstance(rec, dict):
            known[rec] = v[1]
            continue
        if rec["call"] == "eps":
            x, ms, ct, l = rec["inputs"]
            got = np.ravel(np.asarray(v[1], complex))
            calls.append({"kind": "eps", "cos2": R(np.cos(2 * rec["turn"])), "sin2": R(np.sin(2 * rec["turn"])), "len": R(l), "figs": [],
                          "halos": [{"x": RM(x[ct[h]]), "m": RS(ms[ct[h]]), "kind": "com" if s["com"] else "mode"} for h in s["sels"][rec["a"]]],
                          "got": [RS([g.real, g.imag]) for g in got]})
            continue
        before, after, figs = it[j - 1][2][1], it[j + 1][2][1], it[j + 2][2][1]
        xyz, mass = known["xyz"]
        idx, size = known["cat"]
        off = np.concatenate(([0], np.cumsum(size)))
        r200, mc = known["r200"], known["masses"]
        sel, c = s["sels"][rec["a"]], rec["call"]
        kind = "com" if s["com"] else "mode"
        parts = lambda h: idx[off[h]:off[h + 1]]
        M = [float(mc["mass"][h]) / s["mf"] * 1e10 for h in sel]
        q = {"suffix": rec["suffix"], "snap": rec["snap"], "before": before, "after": after, "units": rec["units"], "figs": []}
        cat = known[("local" if c in ("shapes", "tlocal", "vlocal") else "global", rec["a"])]
        two = lambda a: np.asarray(a, float).reshape(len(sel), -1)
        for p, axes in figs:
            f = {"file": os.path.relpath(p, s["d"]), "name": name(p)}
            if os.path.dirname(os.path.realpath(p)) != os.path.realpath(s["dest"]):
                ctx.violation("place " + c, "%s wrote %s, not under the visualisation directory" % (o[2], p), where)
            sh = axes[0]
            f["window"] = RM(sh["window"])
            f["says"] = stated(sh)
            if c == "shapes":
                f["shown"] = curve(sh, np.asarray(s["ops"][j][3][2]["ROverR200"], float))
            elif c in ("tlocal", "tglobal", "elocal", "eglobal"):
                f["shown"] = {"bars": [RS(b) for b in sh["bars"]]}
            elif c == "dens":
                f["shown"] = curve(sh, rec["rr"])
                l = [l for l in sh["lines"] if len(l[0]) == len(rec["rf"]) and np.array_equal(l[0], rec["rf"])]
                f["shown"].update(xfit=RS(l[0][0]) if l else [], yfit=RS(l[0][1]) if l else [])
            else:
                n = len(parts(sel[len(q["figs"])])) if len(q["figs"]) < len(sel) else 0
                pts = [x for x in sh["points"] if len(x) == n] or [x for x in sh["points"] if n > len(x) > 1000]
                cen = [x for x in sh["points"] if len(x) == 1]
                pick = whose(pts[0], xyz[parts(sel[len(q["figs"])])], s["L"]) if pts else []
                f["shown"] = {"pts": RM(pts[0]) if pts else [], "pick": pick, "centre": RS(cen[0][0]) if cen else RS([np.nan] * 3),
                              "surfaces": [RM(x[::23]) for x in sh["points"] if len(x) > 1 and not (pts and x is pts[0])], "arrows": [RM(x[0]) for x in sh["segments"] if len(x)]}
            q["figs"].append(f)
        if c == "shapes":
            q.update(kind="shapes", grid=RS(s["ops"][j][3][2]["ROverR200"]), d=RM(two(cat["d"])), q=RM(two(cat["q"])), s=RM(two(cat["s"])), r200=RS(r200[sel]), m=RS(M), nb=rec["nb"])
        elif c in ("tlocal", "tglobal"):
            q.update(kind="thist", local=c == "tlocal", grid=RS(s["cfgs"][rec["a"]]["ROverR200"]), q=RM(two(cat["q"])), s=RM(two(cat["s"])), frac=R(rec["frac"]), edges=rec["nb"])
        elif c in ("elocal", "eglobal"):
            hs = []
            for h in sel:
                hs.append({"x": RM(xyz[parts(h)]), "m": RS(mass[parts(h)]), "kind": kind, "rad": [R(r200[h] * rec["frac"])] if c == "elocal" else []})
            q.update(kind="ehist", local=c == "elocal", len=R(s["L"]), halos=hs, edges=rec["nb"])
        elif c == "dens":
            q.update(kind="dens", rr=RS(rec["rr"]), rho=RM(rec["rho"]), rrfit=RS(rec["rf"]), fit=rec["want"], m=RS(M), nb=rec["nb"])
        else:
            hs = []
            for e, h in enumerate(sel[:2]):
                g = cat[e] if c == "vlocal" else cat[e:e + 1]
                hs.append({"n": h, "x": RM(xyz[parts(h)]), "m": RS(mass[parts(h)]), "kind": kind, "d": RS(g["d"]), "q": RS(g["q"]), "s": RS(g["s"]),
                           "major": RM(g["major"]), "inter": RM(g["inter"]), "minor": RM(g["minor"])})
            q.update(kind="viz", local=c == "vlocal", len=R(s["L"]), halos=hs)
        calls.append(q)
    return {"calls": calls}, where


def run(ctx):
    q = ctx.tier == "quick"
    ctx.model_check("PlotsMC", "SPECIFICATION Spec\nCONSTANTS MaxValues = %d NEdges = 4 Grains = %d MaxCalls = %d\nINVARIANTS OnceEach Area Own\n" % ((3, 12, 2) if q else (4, 12, 3)), timeout=3000)
    rng = ctx.np_rng()
    ss = [make(ctx, rng, k) for k in range(ctx.n(24, 240))]
    res = ctx.drive("session", {"sessions": [s["ops"] for s in ss], "fork": True, "jobs": 8, "figures": "record"}, timeout=850 if q else 3000, env={"OMP_NUM_THREADS": "2"})
    made = [x for x in (case(ctx, s, r) for s, r in zip(ss, res)) if x]
    ctx.cov["plot_calls"] = sum(len(x[0]["calls"]) for x in made)
    ctx.cov["figures"] = sum(len(c["figs"]) for x in made for c in x[0]["calls"])
    cases, info = [x[0] for x in made], [x[1] for x in made]
    ctx.judge("PlotTrace", cases, lambda i: info[i], label="plots", key=lambda i, w: " ".join(sorted(set(w.split()))))
    ctx.sample(info[0])
