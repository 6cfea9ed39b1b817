"""C29: requests that are not well-formed are refused and change nothing; module Requests makes the requests and
RequestTrace judges what they did."""
import itertools, json, os
import numpy as np
import history, gadget_io, katz
from core import *

MASK = dict(missing="", flag="", number=False, text="")


class Maker:
    def __init__(self, ctx):
        self.w = history.World(ctx, 29)
        self.ctx = ctx
        self.rng = ctx.np_rng(29)
        # simulation output with gas, dark matter and stars, and group files
        rng = self.rng
        base = os.path.join(self.w.dir, "sim")
        os.makedirs(base)
        parts, glen = {}, np.zeros((2, 6), int)
        for t in (0, 1, 4):
            xs = [np.mod(katz.make_halo(rng, 24, scale=0.5)["x"] + c, self.w.L) for c in ([3, 4, 5], [12, 9, 8])]
            glen[:, t] = [len(x) for x in xs]
            x = np.vstack(xs)
            parts[t] = dict(pos=x, vel=rng.normal(size=x.shape), mass=rng.uniform(1, 2, len(x)), ids=np.arange(len(x)) + 1000 * t)
        self.snap, self.groups, self.nogroups = (os.path.join(base, n) for n in ("snap", "groups", "empty"))
        gadget_io.write_snapshot(self.snap, parts, self.w.L)
        gadget_io.write_groups(self.groups, [dict(group_len=glen, nsubs=[1, 1], rvir=[0.5, 0.6], r200=[0.6, 0.7], sub_len=glen)])
        os.makedirs(self.nogroups)

    def units(self, r, h, nums):
        a = [float(x) if n == "#" else n for n, x in zip(r["names"], nums)]
        return ("fn", "update%sUnitSystem" % {"in": "In", "out": "Out"}[r["fn"]], [],
                dict(length_in_cm=a[0], mass_in_g=a[1], velocity_in_cm_per_s=a[2], little_h=h))

    def op(self, r, array=False):
        w, fn, rng = self.w, r["fn"], self.rng
        if fn == "new":
            return ("new", "g", "DensShapeProfsGadget", [self.snap, self.groups if r["files"] else self.nogroups, r["kind"], "031",
                                                         os.path.join(w.dir, "out"), os.path.join(w.dir, "out"), r["rad"]], {"MIN_NUMBER_PTCS": 5})
        sel = [x // 2 if x % 2 == 0 else x / 2 for x in r["sel"]]
        if array:
            sel = np.array(sel) if sel else np.array([], int)
        k, c = r["katz"], dict(w.cfgs[0])
        if k["missing"]:
            del c[k["missing"]]
        if k["flag"]:
            c[k["flag"]] = int(c[k["flag"]])
        if k["number"]:
            c["ROverR200"] = 0.9
        if k["text"]:
            c[k["text"]] = "many"
        o = "o"
        names = {"loc": "getShapeCatLocal", "glo": "getShapeCatGlobal", "vloc": "getShapeCatVelLocal", "vglo": "getShapeCatVelGlobal",
                 "dloc": "dumpShapeCatLocal", "dglo": "dumpShapeCatGlobal", "dvloc": "dumpShapeVelCatLocal", "dvglo": "dumpShapeVelCatGlobal",
                 "viz": "vizLocalShapes", "vizg": "vizGlobalShapes"}
        if fn in names:
            return ("call", o, names[fn], [sel, c])
        if fn == "mc":
            return ("call", o, "getMassesCenters", [sel])
        rr = np.linspace(0.3, 1.1, r["nr"])
        if fn in ("sph", "ker", "ell"):
            return ("call", o, "estDensProfs", [rr, sel], dict(direct_binning=fn != "ker", spherical=fn != "ell", **({"katz_config": c} if fn == "ell" else {})))
        if fn in ("fit", "conc", "plotD"):
            m = r["method"]
            d = {}
            if m["profile"]:
                d["profile"] = m["profile"]
            for x in m["extra"]:
                d[x] = {"rho_s": 3e15, "r_s": 0.2, "alpha": 0.2, "beta": 3.0, "gamma": 1.0}.get(x, 0.2)
            if d.get("profile") == "alpha_beta_gamma" and "alpha" in d:
                d["alpha"] = 1.0
            if m["mini"]:
                d["min_method"] = m["mini"]
            if not m["dict"]:
                d = m["profile"]
            rho = np.vstack([w.rhofit[0][:1]] * r["rows"]) if r["rows"] else np.zeros((0, len(w.rfit)))
            if fn == "plotD":
                return ("call", o, "plotDensProfs", [rho, w.rfit.copy(), rho.copy(), w.rfit.copy(), d, 1, sel])
            return ("call", o, {"fit": "fitDensProfs", "conc": "estConcentrations"}[fn], [rho, w.rfit.copy(), d, sel])
        if fn == "plotT":
            return ("call", o, "plotLocalTHist", [5, 1.0, sel, c])
        if fn == "plotTg":
            return ("call", o, "plotGlobalTHist", [5, sel, c])
        if fn == "plotE":
            return ("call", o, "plotLocalEpsHist", [1.0, 5, sel])
        if fn == "plotEg":
            return ("call", o, "plotGlobalEpsHist", [5, sel])
        return ("call", o, "plotShapeProfs", [1, sel, c])


def run(ctx):
    r = ctx.model_check("RequestsGen", "SPECIFICATION Spec\nCONSTANT Ns = {4}\nINVARIANTS Varieties Faults Orderless Fewer Repairs\n", timeout=600)
    reqs = [json.loads(x) for x in r.tagged("Q")]
    by = {}
    for q in reqs:
        by.setdefault(q["fn"], []).append(q)
    mk, rng = Maker(ctx), ctx.np_rng(290)
    sessions, meta = [], []
    outdir = os.path.join(mk.w.dir, "out")
    for fn in sorted(by):
        qs = sorted(by[fn], key=lambda q: json.dumps(q, sort_keys=True))
        parts = [[qs[i] for i in rng.permutation(len(qs))]]
        if fn in ("in", "out"):
            continue
        for p in parts:
            d = 3 if fn in ("vloc", "vglo", "dvloc", "dvglo") else int(rng.choice([1, 2]))
            my = os.path.join(outdir, "%s%d" % (fn, len(sessions)))
            ops = [("cwd", mk.w.dir)]
            if fn != "new":
                ops.append(mk.w.new("o", d, 1, my))
                ops[-1][3][-2] = my
            ops.append(("world", "" if fn == "new" else "o", my))
            steps = []
            for q in p:
                forms = [False] if fn == "new" else [False, True] if q["sel"] != [0, 2] or rng.random() < 0.15 else [bool(rng.integers(0, 2))]
                for a in forms:
                    steps.append((q, 0.6774, [1.0, 1.0, 1.0], len(ops)))
                    ops += [mk.op(q, a), ("world", "" if fn == "new" else "o", my)]
            sessions.append(ops)
            meta.append((fn, steps))
    # unit systems: good and faulty requests in turn
    for k in range(ctx.n(4, 40)):
        pool = by["in"] + by["out"]
        bad = [q for q in pool if q["names"][0] not in history.LEN and q["names"][0] != "#" or q["names"][1] not in history.MASS and q["names"][1] != "#"
               or q["names"][2] not in ("km/s", "#")]
        my = os.path.join(outdir, "units%d" % k)
        ops, steps = [("world", "", my)], []
        for q in [x for y in zip([pool[i] for i in rng.integers(0, len(pool), 40)], [bad[i] for i in rng.integers(0, len(bad), 40)]) for x in y]:
            h = float(rng.choice([0.6774, 0.7, 1.0, 0.5]))
            nums = [10 ** rng.uniform(20, 25), 10 ** rng.uniform(32, 44), 10 ** rng.uniform(2, 6)]
            steps.append((q, h, nums, len(ops)))
            ops += [mk.units(q, h, nums), ("world", "", my)]
        sessions.append(ops)
        meta.append(("units", steps))
    res = ctx.drive("session", {"sessions": sessions, "fork": True, "jobs": 7, "figures": "record"}, timeout=840)
    cases, flat = [], []
    world = lambda x: {"conv": RS(x[1][0]), "files": x[1][1], "data": x[1][2]}
    for ops, rs, (fn, steps) in zip(sessions, res, meta):
        first = 0 if fn == "units" else 1 if fn == "new" else 2
        for o, x in zip(ops, rs):
            if x[0] != "ok" and o[0] in ("world", "cwd") or x[0] != "ok" and o[0] == "new" and fn != "new":
                raise CodeError("exception", "session %s: %s %s" % (fn, o[:3], x))
        st = []
        for q, h, nums, i in steps:
            flat.append({"request": q, "call": str(ops[i])[:600], "got": list(rs[i])[:3] if rs[i][0] == "err" else "served", "world": rs[i + 1][1]})
            st.append(dict(q, h=R(h), nums=RS(nums), served=rs[i][0] == "ok", world=world(rs[i + 1]), id=len(flat)))
        cases.append({"steps": st, "world": world(rs[first]), "h": R(0.6774)})
    v = ctx.judge("RequestTrace", flat, lambda i: flat[i], label="request", payload=cases, max_ambiguous=0,
                  key=lambda i, c: c.split(",")[0].strip())
    ctx.cov["requests"] = len(flat)
    ctx.cov["requests_faulty"] = sum(1 for x in flat if x["got"] != "served")
    for x in flat[:2]:
        ctx.sample(x)
