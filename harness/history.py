"""Histories of module Session, replayed on the real code and judged by module SessionTrace."""
import json, os
import numpy as np
import katz, gadget_io
from core import *

H = 0.6774


def lengths(h):
    d = {"pc": 3.085678e18, "kpc": 3.085678e21, "Mpc": 3.085678e24, "Gpc": 3.085678e27}
    return {**d, **{k + "/h": v / h for k, v in d.items()}}


def masses(h):
    return {"Msun": 1.989e33, "E+10Msun": 1.989e43, "Msun/h": 1.989e33 / h, "E+10Msun/h": 1.989e43 / h}


LEN, MASS = lengths(H), masses(H)
IN = [("Mpc/h", "E+10Msun/h", "km/s"), ("kpc", "Msun", "km/s"), ("1.2345e21", "5e38", "1e2"), ("Gpc/h", "Msun/h", "km/s"), ("kpc/h", "E+10Msun", "2.5e7")]
OUT = [("Mpc/h", "E+10Msun/h", "km/s"), ("kpc", "Msun", "km/s"), ("1.2345e20", "5e30", "1e2"), ("pc/h", "Msun/h", "1"), ("Gpc", "E+10Msun", "km/s"), ("Mpc", "Msun/h", "1e5"), ("1", "1", "1")]
LIMS = [(2, 128), (False, 1), (False, 0), (False, None), (1e6, 128), (False, 2)]
SELS = [[0], [2, 0], [1, 2, 3], [3, 1, 0, 2]]
vcms = lambda s: 1e5 if s == "km/s" else float(s)
arg = lambda s, d: s if s in d else float(s)


def unit_op(which, u, h=H):
    return ("fn", "update%sUnitSystem" % which, [], dict(length_in_cm=arg(u[0], LEN), mass_in_g=arg(u[1], MASS), velocity_in_cm_per_s="km/s" if u[2] == "km/s" else float(u[2]), little_h=h))


class World:
    """The data sets: 1, 2 given as arrays, 3, 4 as simulation output; all with four halos.
    5 and 6 are the simulation of 3 with another minimum particle number (so that a small halo comes first) and another radius."""
    def __init__(self, ctx, seed, h=H):
        self.ctx = ctx
        self.LEN, self.MASS = lengths(h), masses(h)
        rng = np.random.default_rng([ctx.seed, seed, 77])
        self.dir = os.path.join(ctx.tmp, "world%d" % seed)
        os.makedirs(self.dir)
        self.L = 20.0
        self.data = {7: self.stars(np.random.default_rng([ctx.seed, seed, 78]))}
        sizes = [40, 26, 64, 33]
        for d in (1, 2, 3, 4):
            halos = []
            for k, n in enumerate(sizes if d < 3 else sizes[::-1] if d == 4 else sizes):
                h = katz.make_halo(rng, n, scale=0.6)
                h["pos"] = rng.uniform(0, self.L, 3)
                if k == 1:
                    h["pos"][d % 3] = 0.05
                halos.append(h)
            if d < 3:
                if d == 1:
                    xyz, vel, m, cat = katz.catalogue(rng, halos, self.L)
                    self.cat = cat
                else:
                    xyz, m = np.zeros_like(self.data[1]["xyz"]), np.zeros_like(self.data[1]["m"])
                    for h, idx in zip(halos, self.cat):
                        xyz[idx], m[idx] = np.mod(h["x"] + h["pos"], self.L), h["m"]
                self.data[d] = dict(xyz=xyz, m=m, cat=[list(c) for c in self.cat], r200=np.array([0.5, 0.6, 0.45, 0.55]), center=["mode", "com"][d % 2])
            else:
                pos, vel, m, glen, slen = [], [], [], [], []
                few = katz.make_halo(np.random.default_rng([ctx.seed, seed, d]), 7, scale=0.6)
                few["pos"] = np.array([3.0, 4.0, 5.0])
                for h in [few] + halos:
                    extra = 70 - len(h["x"])      # groups of equal size whose central subhalos differ
                    pos += [np.mod(h["x"] + h["pos"], self.L), rng.uniform(0, self.L, (extra, 3))]
                    vel += [h["v"], rng.normal(size=(extra, 3)) * 500]
                    m += [h["m"], rng.uniform(1, 2, extra)]
                    glen.append(70); slen.append(len(h["x"]))
                self.data[d] = dict(xyz=np.vstack(pos), vel=np.vstack(vel), m=np.hstack(m), glen=glen, slen=slen, ns=[1] * 5,
                                    r200=np.array([0.52, 0.5, 0.6, 0.45, 0.55]), center=["mode", "com"][d % 2])
                self.write(d, os.path.join(self.dir, "g%d" % d), 1.0, 1.0, 1.0)
        self.data[5], self.data[6] = self.data[3], self.data[3]
        self.cfgs = []
        for k in range(3):
            c = katz.config(rng, 3 + k)
            c.update(IT_TOL=[5e-2, 1e-2, 1e-1][k], IT_WALL=100, IT_MIN=5, SHELL_BASED=False, REDUCED=bool(k % 2))
            c["ROverR200"] = np.linspace(0.6, 1.4, 3 + k)
            if k == 2:      # some radii do not converge
                c.update(IT_TOL=1e-3, IT_WALL=4, ROverR200=np.linspace(0.3, 1.3, 5))
            if k == 1:      # radii may also come as a list
                c["ROverR200"] = [float(r) for r in c["ROverR200"]]
            self.cfgs.append(c)
        self.rr = [np.array([0.3, 0.6, 1.0]), np.logspace(-1, 0.1, 5), np.linspace(0.2, 1.27, 4)]
        # some parameters are kept fixed: r_s in Mpc/h and rho_s in Msun/h/(Mpc/h)^3 here, in output units when asked
        self.fits = [{"profile": "nfw"}, {"profile": "hernquist", "r_s": 0.2}, {"profile": "einasto", "alpha": 0.18, "rho_s": 3e15}]
        rf = np.logspace(-1.2, 0, 12)
        rs = np.array([0.12, 0.2, 0.15, 0.3])
        self.rfit = rf
        x = (rf[None, :] * self.data[1]["r200"][:, None]) / rs[:, None]
        self.rhofit = [3e15 / (x * (1 + x) ** 2), 3e15 / (x * (1 + x) ** 3), 3e15 * np.exp(-2 / 0.18 * (x ** 0.18 - 1))]

    def stars(self, rng):
        """The stars of the simulation whose dark matter is data 3: same files, same groups, same snapshot number."""
        pos, vel, m, glen, slen = [], [], [], [], []
        for k, n in enumerate([20, 30, 6, 45, 26]):
            h = katz.make_halo(rng, n, scale=0.6)
            h["pos"] = rng.uniform(0, self.L, 3)
            if k == 1:
                h["pos"][0] = 0.05
            pos += [np.mod(h["x"] + h["pos"], self.L), rng.uniform(0, self.L, (3, 3))]
            vel += [h["v"], rng.normal(size=(3, 3)) * 500]
            m += [h["m"], rng.uniform(1, 2, 3)]
            glen.append(n + 3); slen.append(n)
        return dict(xyz=np.vstack(pos), vel=np.vstack(vel), m=np.hstack(m), glen=glen, slen=slen, ns=[1] * 5,
                    r200=np.array([0.52, 0.5, 0.6, 0.45, 0.55]), center="com")

    def lcm(self, s):
        return self.LEN.get(s) or float(s)

    def mg(self, s):
        return self.MASS.get(s) or float(s)

    def write(self, d, path, fl, fm, fv):
        D = self.data[d]
        os.makedirs(path)
        types = {1: D} if d == 4 else {1: self.data[3], 4: self.data[7]}
        gadget_io.write_snapshot(os.path.join(path, "snap"), {p: dict(pos=T["xyz"] * fl, vel=T["vel"] * fv, mass=T["m"] * fm, ids=np.arange(len(T["m"])) + p * 10 ** 6)
                                                              for p, T in types.items()}, self.L * fl)
        six = lambda k: np.array([types[p][k] if p in types else [0] * 5 for p in range(6)], np.int32).T
        r = np.float64(D["r200"]) * fl
        gadget_io.write_groups(os.path.join(path, "groups"), [dict(group_len=six("glen"), nsubs=D["ns"], rvir=r, r200=r * 2, sub_len=six("slen"))])

    def new(self, o, d, inu, dest, converted=False):
        """The operation making object o over data d.  Arrays are the same physical data in any input system; simulation
        output is the same file read in the system in force - or, converted, the file with the numbers that system makes of it."""
        D = self.data[d]
        u = IN[inu - 1]
        fl, fm, fv = self.lcm(u[0]) / self.LEN["Mpc/h"], self.mg(u[1]) / self.MASS["E+10Msun/h"], vcms(u[2]) / 1e5
        snap, viz = "03%d" % (3 if d == 7 else d), os.path.join(self.dir, "viz")
        kw = {"MIN_NUMBER_PTCS": 5 if d in (1, 2, 5) else 9, "CENTER": D["center"]}
        if d == 6:
            kw["RVIR_OR_R200"] = "R200"
        if d < 3:
            return ("new", o, "DensShapeProfs", [D["xyz"] / fl, D["m"] / fm, [list(c) for c in D["cat"]], D["r200"] / fl, self.L / fl, snap, viz, dest], kw)
        files = 4 if d == 4 else 3
        path = os.path.join(self.dir, "g%d" % files)
        if converted and inu != 1:
            path = os.path.join(self.dir, "g%d_as%d" % (files, inu))
            if not os.path.exists(path):
                self.write(d, path, fl, fm, fv)
        return ("new", o, "DensShapeProfsGadget", [os.path.join(path, "snap"), os.path.join(path, "groups"), "stars" if d == 7 else "dm", snap, viz, dest], kw)

    def call(self, o, q, sel, cfg, out):
        s, c, rr = list(SELS[sel - 1]), dict(self.cfgs[cfg - 1]), self.rr[cfg - 1].copy()
        if q == "idx":
            return ("call", o, "getIdxCat")
        if q == "r200":
            return ("call", o, "getR200")
        if q == "xyz":
            return ("call", o, "getXYZMasses")
        if q == "vel":
            return ("call", o, "getVelXYZ")
        if q == "mc":
            return ("call", o, "getMassesCenters", [s])
        if q == "sph":
            return ("call", o, "estDensProfs", [rr, s], {"direct_binning": True, "spherical": True})
        if q == "ker":
            return ("call", o, "estDensProfs", [rr, s], {"direct_binning": False})
        if q == "ell":
            return ("call", o, "estDensProfs", [rr, s], {"direct_binning": True, "spherical": False, "katz_config": c})
        names = {"loc": "getShapeCatLocal", "glo": "getShapeCatGlobal", "vloc": "getShapeCatVelLocal", "vglo": "getShapeCatVelGlobal",
                 "dloc": "dumpShapeCatLocal", "dglo": "dumpShapeCatGlobal", "dvloc": "dumpShapeVelCatLocal", "dvglo": "dumpShapeVelCatGlobal",
                 "viz": "vizLocalShapes", "vizg": "vizGlobalShapes"}
        if q in names:
            return ("call", o, names[q], [s, c])
        u = OUT[out - 1]
        rho = self.rhofit[cfg - 1][s] * (self.MASS["E+10Msun/h"] * 1e-10 / self.mg(u[1])) * (self.LEN["Mpc/h"] / self.lcm(u[0])) ** -3
        method = dict(self.fits[cfg - 1])
        if "r_s" in method:
            method["r_s"] *= self.LEN["Mpc/h"] / self.lcm(u[0])
        if "rho_s" in method:
            method["rho_s"] *= (self.MASS["E+10Msun/h"] * 1e-10 / self.mg(u[1])) * (self.LEN["Mpc/h"] / self.lcm(u[0])) ** -3
        if q in ("fit", "conc"):
            return ("call", o, {"fit": "fitDensProfs", "conc": "estConcentrations"}[q], [rho, self.rfit.copy(), method, s])
        if q == "plotD":
            return ("call", o, "plotDensProfs", [rho, self.rfit.copy(), rho, self.rfit.copy(), method, 1, s])
        if q == "plotT":
            return ("call", o, "plotLocalTHist", [5, 1.0, s, c])
        if q == "plotTg":
            return ("call", o, "plotGlobalTHist", [5, s, c])
        if q == "plotE":
            return ("call", o, "plotLocalEpsHist", [1.0, 5, s])
        if q == "plotEg":
            return ("call", o, "plotGlobalEpsHist", [5, s])
        if q == "plotS":
            return ("call", o, "plotShapeProfs", [2, s, c])
        raise KeyError(q)


def fields(q, r):
    f = lambda a: RS(np.asarray(a, float).reshape(-1))
    if q == "idx":
        return {"idx": f(r[0]), "size": f(r[1])}
    if q == "r200":
        return {"r200": f(r)}
    if q == "xyz":
        return {"xyz": f(r[0]), "masses": f(r[1])}
    if q == "vel":
        return {"vel": f(r)}
    if q in ("sph", "ker", "ell"):
        return {"rho": f(r)}
    if q == "conc":
        return {"conc": f(r)}
    if q in ("mc", "loc", "glo", "vloc", "vglo", "fit"):
        return {n: f(r[n]) for n in r.dtype.names}
    return {"none": []}


def parse(files, d, q):
    kind = "local" if q in ("dloc", "dvloc") else "global"
    suf = "_" if d < 3 else "_%s%s_" % ("v" if q[1] == "v" else "", "stars" if d == 7 else "dm")
    out = {}
    for p in ("d", "q", "s", "minor", "inter", "major", "m", "centers"):
        b = files.get("%s_%s%s03%d.txt" % (p, kind, suf, 3 if d == 7 else d))
        out[p] = RS([float(x) for x in b.decode().split() if not x.startswith("#")]) if b is not None else []
    return out


def generate(ctx, qs, plots, dumps, depth, num, datas=(1, 2, 3, 4, 7), dests=(1,), ins=(1,), outs=(1,), lims=(1,), objs=2, cfgs=(1, 2), sels=(1, 2, 3, 4), salt=0):
    s = lambda v: "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + "}"
    c = lambda depth, rec, q=qs, p=plots: """SPECIFICATION Spec
CONSTANTS Objs = %s
 Datas = %s
 Gadgets = {3, 4, 5, 6, 7}
 Dests = %s
 Sels = %s
 Cfgs = %s
 Outs = %s
 Ins = %s
 Lims = %s
 Qs = %s
 Plots = %s
 Dumps = %s
 Depth = %d
 Record = %s
""" % (s(range(1, objs + 1)), s(datas), s(dests), s(sels), s(cfgs), s(outs), s(ins), s(lims), s(q), s(p), s(dumps), depth, rec)
    r = ctx.tlc("Session", c(depth, "TRUE"), args=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(ctx.seed * 7919 + salt)], workers=1)
    hs = [json.loads(h) for h in r.tagged("H")]
    # duplicates of a long history are possible, short ones are not
    return hs


def op(op, **kw):
    e = {"op": op, "o": 0, "q": "", "sel": 0, "cfg": 0, "u": 0, "d": 0, "dest": 0}
    e.update(kw)
    return e


# the histories of the known findings, always run
STALE_SELECTION = [op("new", o=1, d=1, dest=1), op("dump", o=1, q="dloc", sel=1, cfg=1), op("query", o=1, q="loc", sel=2, cfg=1)]
STALE_UNITS = [op("new", o=1, d=1, dest=1), op("dump", o=1, q="dloc", sel=1, cfg=1), op("out", u=2), op("query", o=1, q="loc", sel=1, cfg=1)]

# dumped twice in a system other than the internal one, and read back
REDUMPED = [[op("new", o=1, d=d, dest=1), op("out", u=u), op("dump", o=1, q=q, sel=sel, cfg=1), op("query", o=1, q=q[1:], sel=sel, cfg=1),
             op("dump", o=1, q=q, sel=sel, cfg=1), op("query", o=1, q=q[1:], sel=sel, cfg=1)]
            for q, d in (("dloc", 1), ("dglo", 2), ("dvloc", 3), ("dvglo", 4), ("dloc", 4), ("dglo", 3), ("dvloc", 7)) for u, sel in ((2, 2), (4, 1))]


def fresh(h):
    return [dict(e) for e in h]


SMALL = """SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
 Datas = {1, 3}
 Gadgets = {3, 4, 5, 6, 7}
 Dests = {1, 2}
 Sels = {1, 2}
 Cfgs = {1}
 Outs = {1, 2}
 Ins = {1, 2}
 Lims = {1}
 Qs = {"loc", "sph"}
 Plots = {}
 Dumps = {"dloc", "dglo"}
 Depth = %d
 Record = %s
INVARIANTS FreshWithoutDump StaleOnlyByOwnDump
PROPERTIES FilesKept QueriesPure
"""


def replay(ctx, hists, label, world_seed=0, jobs=6, keys=None, h=H):
    """Run the histories, find what every term denotes, and let the specification compare."""
    w, lh = World(ctx, world_seed, h), h
    numbers = (repr(w.LEN["Mpc/h"]), repr(w.MASS["E+10Msun/h"]), "1e5")
    # the ways of bringing another value of the little h into force (the one given last; units given as numbers stay what they are)
    prefixes = [[]] if lh == H else [[unit_op("In", IN[0], lh), unit_op("Out", OUT[0], lh)], [unit_op("Out", OUT[0], lh), unit_op("In", IN[0], lh)],
                                     [unit_op("In", numbers, 0.5), unit_op("Out", OUT[0], lh)], [unit_op("Out", numbers, 0.5), unit_op("In", IN[0], lh)]]
    sessions, maps, terms = [], [], {}
    for n, h in enumerate(hists):
        ops, where, inu, out, objs = list(prefixes[n % len(prefixes)]), [], 1, 1, {}
        # directories for the dumps: absolute, relative to the working directory, with a blank in the name
        base = ["", os.path.join("cats", "deep"), os.path.join(w.dir, "my cats")][n % 3]
        if n % 3 == 1:
            ops.append(("cwd", w.dir))
        for e in h:
            k = e["op"]
            dest = lambda t: os.path.join(base or w.dir, "cat%d_%d" % (n, t))
            post = None
            if k == "in":
                inu = e["u"]
                ops.append(unit_op("In", IN[inu - 1], lh))
            elif k == "out":
                out = e["u"]
                ops.append(unit_op("Out", OUT[out - 1], lh))
            elif k == "lim":
                g, m = LIMS[e["u"] - 1]
                ops.append(("fn", "updateCachingMaxGBs", [g]))
                ops.append(("fn", "updateCachingMaxSize", [m]))
            elif k == "new":
                objs[e["o"]] = (e["d"], inu, e["dest"])
                ops.append(w.new("o%d" % e["o"], e["d"], inu, dest(e["dest"])))
            else:
                d, iu, t = objs[e["o"]]
                ops.append(w.call("o%d" % e["o"], e["q"], e["sel"], e["cfg"], out))
                term = (d, iu if d > 2 else 1, e["q"], e["sel"], e["cfg"])
                if k != "plot":
                    e["_term"] = term
                    terms.setdefault(term, None)
                if k == "dump":
                    post = len(ops)
                    ops.append(("ls", dest(t)))
                    e["_d"] = d
            where.append((len(ops) - (2 if (post is not None or k == "lim") else 1), post))
        sessions.append(ops)
        maps.append(where)
    ref_sessions = []
    for j, (d, iu, q, sel, cfg) in enumerate(terms):
        dest = os.path.join(w.dir, "ref%d" % j)
        ops = prefixes[0] + [w.new("o", d, iu, dest, converted=True), w.call("o", q, sel, cfg, 1)]
        if q in ("dloc", "dglo", "dvloc", "dvglo"):
            ops.append(("ls", dest))
        ref_sessions.append(ops)
    res = ctx.drive("session", {"sessions": sessions + ref_sessions, "fork": True, "nofig": True, "jobs": jobs}, timeout=3000 if ctx.thorough else 500, env={"OMP_NUM_THREADS": "2"})
    refs, index = [], {}
    for t, r in zip(terms, res[len(sessions):]):
        d, iu, q, sel, cfg = t
        r = r[len(prefixes[0]):]
        if any(x[0] != "ok" for x in r):
            bad = [x for x in r if x[0] != "ok"][0]
            ctx.violation("exception", "a fresh object raises on %s: %s" % (t, bad[1:3]), {"term": t, "error": bad})
            continue
        f = parse(r[2][1], d, q) if len(r) > 2 else fields(q, r[1][1])
        refs.append({"d": d, "q": q, "sel": sel, "cfg": cfg, "f": f})
        index[t] = len(refs)
    out = []
    for h, where, r in zip(hists, maps, res[:len(sessions)]):
        ho = []
        for e, (a, b) in zip(h, where):
            x = r[a] if a < len(r) else ("err", "missing", "", "")
            y = r[a + 1] if e["op"] == "lim" and a + 1 < len(r) else x
            ok = x[0] == "ok" and y[0] == "ok"
            ans = {"ok": ok, "clean": not (ok and (x[2] or y[2])), "err": "" if ok else str(x[1:3]), "f": {}, "ls": []}
            if ok and e["op"] == "query":
                ans["f"] = fields(e["q"], x[1])
            if ok and e["op"] == "dump":
                ans["ls"] = sorted(r[b][1])
                ans["f"] = parse(r[b][1], e["_d"], e["q"])
            o = {k: v for k, v in e.items() if k[0] != "_"}
            o["ans"] = ans
            o["ref"] = index.get(e.get("_term"), 0) if "_term" in e else 0
            ho.append(o)
        out.append(ho)
    units = [{"len": u[0], "mass": u[1], "vel": u[2], "h": repr(lh)} for u in OUT]
    tcfg = """SPECIFICATION TSpec
CONSTANTS Objs = {1, 2, 3}
 Datas = {1, 2, 3, 4, 5, 6, 7}
 Gadgets = {3, 4, 5, 6, 7}
 Dests = {1, 2}
 Sels = {1, 2, 3, 4}
 Cfgs = {1, 2, 3}
 Outs = {1, 2, 3, 4, 5, 6, 7}
 Ins = {1, 2, 3, 4, 5}
 Lims = {1, 2, 3, 4, 5, 6}
 Qs = {}
 Plots = {}
 Dumps = {}
 Depth = 0
 Record = FALSE
"""
    tr = ctx.tlc("SessionTrace", tcfg, cases={"hists": out, "refs": refs, "units": units}, workers=6, timeout=3000, judging=True)
    verd = dict(v.split("|", 1) for v in tr.tagged("R"))
    if len(verd) != len(out):
        raise ToolError("SessionTrace judged %d of %d histories\n%s" % (len(verd), len(out), tail(tr.out)))
    nops = 0
    for i, h in enumerate(out):
        nops += len(h)
        v = verd[str(i + 1)]
        if "HARNESS" in v:
            raise ToolError("harness and specification disagree on a term: " + v)
        if v == "OK":
            continue
        import re
        for p, src, what in re.findall(r"(\d+):\[([a-z ]+)\](\S+)", v):
            p = int(p) - 1
            key = src.replace(" ", "-") if src.startswith("stale") else "%s:%s" % (src, what)
            rec = {"history": [{k: x for k, x in e.items() if k in ("op", "o", "q", "sel", "cfg", "u", "d", "dest")} for e in h[:p + 1]],
                   "step": p + 1, "difference": what, "source": src, "error": h[p]["ans"]["err"], "expected": None, "got": None,
                   "meaning": {"selections": SELS, "output units": OUT, "input units": IN, "limits": [str(x) for x in LIMS]}}
            if h[p]["ref"]:
                dec = lambda f: {k: [unR(x) for x in v2[:40]] for k, v2 in f.items()}
                rec["got"], rec["expected (internal units)"] = dec(h[p]["ans"]["f"]), dec(refs[h[p]["ref"] - 1]["f"])
            ctx.violation(key, "step %d of a history of %d (%s): %s %s" % (p + 1, len(h), label, what, h[p]["ans"]["err"][:200]), rec)
    ctx.cov["traces_validated_against_impl"] += len(out)
    ctx.cov["operations_replayed"] = ctx.cov.get("operations_replayed", 0) + nops
    ctx.cov["terms"] = ctx.cov.get("terms", 0) + len(refs)
    ctx.sample([{k: v for k, v in e.items() if k not in ("ans", "ref")} for e in out[0]])
