"""C12: each halo's row is the one the halo alone gives: Workers model-checked, its requests replayed, pairs judged by Relate."""
import json, os
import numpy as np
import katz, dens, relate, gadget_io
from core import *

CFG = """SPECIFICATION Spec
CONSTANTS Pool = {%s}
 SizesId = %d
 MaxCat = %d
 MaxReq = %d
 ThreadCounts = {%s}
 Layouts = {%s}
 Record = %s
"""
INV = "INVARIANTS Isolated OneEach Complete\n"
LIVE = "PROPERTY Ends\n"
NAMES = [("mc", "getMassesCenters"), ("loc", "getShapeCatLocal"), ("glo", "getShapeCatGlobal"), ("sph", "estDensProfs"), ("ker", "estDensProfs"), ("ell", "estDensProfs"),
         ("vloc", "getShapeCatVelLocal"), ("vglo", "getShapeCatVelGlobal"), ("fit", "fitDensProfs"), ("conc", "estConcentrations")]


class Pool:
    """Halos of very different sizes; some fail to converge anywhere, some are tiny."""
    def __init__(self, ctx, seed):
        rng = np.random.default_rng([ctx.seed, seed, 12])
        self.L = 30.0
        self.halos = []
        for k, n in enumerate([140, 8, 40, 90, 16, 64, 24]):
            h = katz.make_halo(rng, n, scale=0.5)
            h["pos"] = rng.uniform(0, self.L, 3)
            h["x"] = np.float64(np.float32(np.mod(h["x"] + h["pos"], self.L)))
            h["m"], h["v"] = np.float64(np.float32(h["m"])), np.float64(np.float32(h["v"]))
            h["r200"] = float(np.float32(rng.uniform(0.35, 0.55)))
            self.halos.append(h)
        self.cfg = katz.config(rng, 4)
        self.cfg.update(IT_TOL=1e-2, IT_WALL=40, IT_MIN=9, REDUCED=bool(rng.integers(2)), SHELL_BASED=bool(seed % 2))
        self.ecfg = dict(self.cfg, SHELL_BASED=False, IT_MIN=5, ROverR200=np.linspace(0.5, 1.4, 4))
        self.rr = dens.radii(rng, 5)
        self.rf = np.logspace(-1.2, 0, 10)
        self.rs = rng.uniform(0.1, 0.3, len(self.halos))
        self.meth = [{"profile": "nfw"}, {"profile": "einasto", "alpha": 0.18}, {"profile": "hernquist"}][seed % 3]
        self.center = ["mode", "com"][seed % 2]

    def rho(self, cat):
        x = self.rf[None, :] * np.array([self.halos[h - 1]["r200"] for h in cat])[:, None] / self.rs[[h - 1 for h in cat]][:, None]
        return 3e15 / (x * (1 + x) ** 2)

    def calls(self, cat, req, gadget, fit):
        s = lambda: [int(k) - 1 for k in req]
        c = [("mc", [s()], {}), ("loc", [s(), dict(self.cfg)], {}), ("glo", [s(), dict(self.cfg)], {}),
             ("sph", [self.rr.copy(), s()], {"direct_binning": True, "spherical": True}), ("ker", [self.rr.copy(), s()], {"direct_binning": False}),
             ("ell", [self.rr.copy(), s()], {"direct_binning": True, "spherical": False, "katz_config": dict(self.ecfg)})]
        if gadget:
            c += [("vloc", [s(), dict(self.cfg)], {}), ("vglo", [s(), dict(self.cfg)], {})]
        if fit:
            rho = self.rho([cat[k - 1] for k in req])
            c += [("fit", [rho, self.rf.copy(), dict(self.meth), s()], {}), ("conc", [rho, self.rf.copy(), dict(self.meth), s()], {})]
        return c

    def session(self, ctx, name, cat, req, layout, gadget, fit):
        hs = [self.halos[h - 1] for h in cat]
        rng = np.random.default_rng([layout, len(cat), 5])
        r200 = np.array([h["r200"] for h in hs])
        if gadget:
            pos, vel, m, gl = [], [], [], []
            for h in hs:
                e = int(rng.integers(0, 30)) if layout > 1 else 0      # particles of the group outside its central subhalo
                pos += [h["x"], rng.uniform(0, self.L, (e, 3))]
                vel += [h["v"], rng.normal(size=(e, 3))]
                m += [h["m"], rng.uniform(1, 2, e)]
                gl.append(len(h["x"]) + e)
            d = os.path.join(ctx.tmp, name)
            os.makedirs(d)
            f32 = lambda a: np.float32(np.concatenate(a))
            gadget_io.write_snapshot(os.path.join(d, "snap"), {1: dict(pos=f32(pos), vel=f32(vel), mass=f32(m), ids=np.arange(sum(map(len, m))))}, self.L)
            gadget_io.write_groups(os.path.join(d, "groups"), [dict(group_len=gl, nsubs=[1] * len(hs), rvir=r200, r200=r200, sub_len=[len(h["x"]) for h in hs])])
            new = ("new", "o", "DensShapeProfsGadget", [os.path.join(d, "snap"), os.path.join(d, "groups"), "dm", "035", d, d], {"MIN_NUMBER_PTCS": 5, "CENTER": self.center})
        else:
            n = sum(len(h["x"]) for h in hs)
            extra = int(rng.integers(0, 40)) if layout > 1 else 0
            slot = np.arange(n) if layout == 1 else rng.permutation(n + extra)[:n] if layout == 2 else np.arange(n + extra)[::-1][:n]
            xyz, m = rng.uniform(0, self.L, (n + extra, 3)), rng.uniform(1, 9, n + extra)
            xyz[slot], m[slot] = np.vstack([h["x"] for h in hs]), np.hstack([h["m"] for h in hs])
            idx, off = [], 0
            for h in hs:
                idx.append([int(k) for k in slot[off:off + len(h["x"])]])
                off += len(h["x"])
            new = ("new", "o", "DensShapeProfs", [xyz, m, idx, r200, self.L, "035", "/nonexistent-viz", "/nonexistent-cat"], {"MIN_NUMBER_PTCS": 5, "CENTER": self.center})
        return [new] + [("call", "o", dict(NAMES)[c[0]], c[1], c[2]) for c in self.calls(cat, req, gadget, fit)]


def run(ctx):
    rngs = lambda n: ", ".join(map(str, range(1, n + 1)))
    ctx.model_check("Workers", CFG % (rngs(3), 1, 3, 3, ctx.n("1, 2", "1, 2, 3"), "1", "FALSE") + INV + (LIVE if not ctx.thorough else ""), timeout=3000)
    if ctx.thorough:
        ctx.model_check("Workers", CFG % (rngs(3), 1, 3, 3, "2", "1", "FALSE") + INV + LIVE, timeout=3000)
    plans = []
    for seed in range(ctx.n(2, 6)):
        r = ctx.tlc("Workers", CFG % (rngs(7), 2, 5, 5, "1, 2, 8", "1, 2, 3", "TRUE"), args=["-simulate", "num=%d" % ctx.n(24, 200), "-depth", "60", "-seed", str(ctx.seed * 31 + seed)], workers=1)
        hs = [json.loads(h) for h in r.tagged("H")]
        # the full pool in order and reversed, always
        for t in (1, 8):
            hs.append({"cat": list(range(1, 8)), "layout": 2, "req": list(range(7, 0, -1)), "threads": t, "sched": []})
            hs.append({"cat": list(range(7, 0, -1)), "layout": 3, "req": list(range(1, 8)), "threads": t, "sched": []})
        # a crowd, so that threads really overlap
        crowd = [int(k) for k in np.random.default_rng([ctx.seed, seed]).permutation(list(range(1, 8)) * 6)]
        for _ in range(3 if ctx.thorough else 2):
            hs.append({"cat": crowd, "layout": 2, "req": list(range(1, len(crowd) + 1)), "threads": 8, "sched": [], "crowd": True})
        plans.append((Pool(ctx, seed), hs))
    cases = []
    batches = {}
    for p, (pool, hs) in enumerate(plans):
        for g in (False, True):
            for h in range(1, len(pool.halos) + 1):
                batches.setdefault(1, []).append((p, g, "solo", h, True, pool.session(ctx, "solo%d_%d_%d" % (p, g, h), [h], [1], 1, g, True)))
        for k, h in enumerate(hs):
            g = k % 3 == 1
            fit = k % 6 == 5 and "crowd" not in h
            batches.setdefault(h["threads"], []).append((p, g, "mixed", h, fit, pool.session(ctx, "mix%d_%d" % (p, k), h["cat"], h["req"], h["layout"], g, fit)))
    results = []
    for t, b in sorted(batches.items()):
        for rep in range(1 if t == 1 else ctx.n(2, 3)):
            res = ctx.drive("session", {"sessions": [x[-1] for x in b], "fork": False, "nofig": True, "jobs": 1}, env={"OMP_NUM_THREADS": str(t)}, timeout=ctx.n(500, 3000))
            results += [(x, r, t) for x, r in zip(b, res)]
    solo = {}
    for (p, g, what, h, fit, ops), r, t in results:
        bad = [x for x in r if x[0] != "ok"]
        if bad:
            ctx.violation("exception", "%s catalogue %s: %s" % (what, h, bad[0][1:3]), {"what": what, "catalogue": h, "gadget": g, "error": bad[0]})
            continue
        pool = plans[p][0]
        cat, req = ([h], [1]) if what == "solo" else (h["cat"], h["req"])
        cs = pool.calls(cat, req, g, fit)
        for k, halo in enumerate(cat[q - 1] for q in req):
            f = {}
            for c, x in zip(cs, r[1:]):
                if len(x[1]) != len(req):
                    f[c[0]] = {"rows": relate.fld("size", [len(x[1])])}
                    continue
                if c[0] == "conc":
                    f[c[0]] = {"conc": relate.fld("q", [x[1][k]], tol=1e-6)}
                else:
                    f[c[0]] = relate.row(c[0], x[1], k, dict(q=1e-9, s=1e-9, major=1e-8, inter=1e-8, minor=1e-8, rho=1e-9, centre=1e-9, mass=1e-12))
            if what == "solo":
                solo[p, g, halo] = f
                continue
            base = solo.get((p, g, halo))
            if base is None:
                continue
            flat = lambda r, keys: {n: v for kk in keys for n, v in r[kk].items()}
            cases.append({"how": "threads=%d" % t, "base": flat(base, f), "obs": flat(f, f), "L": R(0), "shift": RS([0, 0, 0]),
                          "input": {"catalogue": cat, "request": req, "layout": h["layout"], "row": k, "gadget": g, "sizes": [len(a["x"]) for a in pool.halos]}})
    nobad = [c for c in cases]
    ctx.cov["halos_alone"] = len(solo)
    ctx.judge("Relate", nobad, lambda i: relate.describe(nobad[i]), payload=[{k: v for k, v in c.items() if k != "input"} for c in nobad], label="halo in company")
    if nobad:
        ctx.sample(nobad[0]["input"])
