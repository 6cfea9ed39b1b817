"""C09: compact halos cut by the box boundary: Boundary model-checked, recorded pairs judged by Relate."""
import os
import numpy as np
import katz, dens, relate, gadget_io
from core import *

Q = 2.0 ** -15      # positions are multiples of Q, so that moving and wrapping is exact
MC = "SPECIFICATION Spec\nCONSTANTS B = %d\n K = %d\nINVARIANTS Whole Placed Inside CentreMoves\n"
HOWS = ["face", "edge", "corner", "one-out", "first-out", "inside", "on-face", "anywhere"]


def place(rng, x, L, how):
    """A vector moving the (uncut, around the origin) halo so that the boundary cuts it in the given way."""
    v = np.round(rng.uniform(0.3 * L, 0.6 * L, 3) / Q) * Q
    dims = list(rng.permutation(3))
    n = {"face": 1, "edge": 2, "corner": 3}.get(how)
    if n:
        for c in dims[:n]:
            v[c] = np.round(rng.uniform(-0.6, 0.6) * np.abs(x[:, c]).max() / Q) * Q + L * rng.integers(0, 2)
    elif how in ("one-out", "first-out"):
        c = dims[0]
        k = 0 if how == "first-out" else int(np.argmax(x[:, c]))
        v[c] = -x[k, c] - Q * 8 if rng.random() < 0.5 else L - x[k, c] + Q * 8
    elif how == "on-face":
        c = dims[0]
        v[c] = -x[int(rng.integers(len(x))), c]
    elif how == "anywhere":
        v = np.round(rng.uniform(-3 * L, 3 * L, 3) / Q) * Q
    return v


def run(ctx):
    for b, k in ctx.n([(7, 3), (8, 3), (5, 4)], [(7, 4), (8, 4), (11, 4), (12, 3)]):
        ctx.model_check("Boundary", MC % (b, k), timeout=3000)
    rng = ctx.np_rng()
    runs, plan = [], []
    nsess = ctx.n(26, 260)
    for s in range(nsess):
        gadget = s % 3 == 2
        halos = [katz.make_halo(rng, int(rng.choice([40, 90, 140])), scale=float(rng.choice([0.3, 1.0, 2.0]))) for _ in range(2)]
        for h in halos:
            h["x"] = np.round(h["x"] / Q) * Q
            h["v"] = np.float64(np.float32(h["v"]))
            h["m"] = np.float64(np.float32(h["m"]))
        ext = max((h["x"].max(0) - h["x"].min(0)).max() for h in halos)
        if gadget:
            L = float(np.ceil(2 * ext + 1))
        else:
            L = float(np.round(2.0 * ext * (1.02 if s % 2 else rng.uniform(1.1, 8)) / Q) * Q) + 4 * Q
        cfg = katz.config(rng, 3)
        cfg.update(IT_TOL=float(rng.choice([5e-2, 1e-2])), IT_WALL=60, IT_MIN=5)
        r200 = np.array([float(np.max(np.linalg.norm(h["x"], axis=1))) * rng.uniform(0.7, 1.1) for h in halos])
        center = ["mode", "com"][s % 2]
        rr = dens.radii(rng, 5)
        ecfg = dict(cfg, SHELL_BASED=False, ROverR200=np.linspace(0.5, 1.4, 4))
        calls = [("getMassesCenters", [[0, 1]], {}), ("getShapeCatLocal", [[1, 0], cfg], {}), ("getShapeCatGlobal", [[0, 1], cfg], {}),
                 ("estDensProfs", [rr, [0, 1]], {"direct_binning": True, "spherical": True}), ("estDensProfs", [rr, [1, 0]], {"direct_binning": False}),
                 ("estDensProfs", [rr, [0, 1]], {"direct_binning": True, "spherical": False, "katz_config": ecfg})]
        rf = np.linspace(0.2, 1.2, 14)      # a fixed profile: fits must not depend on where the halo is
        prof = {"nfw": lambda x: 1 / (x * (1 + x) ** 2), "hernquist": lambda x: 1 / (x * (1 + x) ** 3), "einasto": lambda x: np.exp(-2 / 0.2 * (x ** 0.2 - 1))}[["nfw", "hernquist", "einasto"][s % 3]]
        fits = [np.array([1e4 * prof(rf / 0.4), 3e4 * prof(rf / 0.55)]), rf, {"profile": ["nfw", "hernquist", "einasto"][s % 3], "alpha": 0.2} if s % 3 == 2 else {"profile": ["nfw", "hernquist"][s % 3]}, [0, 1]]
        calls += [("fitDensProfs", fits, {}), ("estConcentrations", fits, {})]
        if gadget:
            calls += [("getShapeCatVelLocal", [[0, 1], cfg], {}), ("getShapeCatVelGlobal", [[1, 0], cfg], {})]
        versions = [("uncut", [np.zeros(3), np.zeros(3)], 0.0)]
        for j in range(3):
            how = [HOWS[(s * 3 + j + a) % len(HOWS)] for a in (0, 3)]
            versions.append(("+".join(how), [place(rng, h["x"], L, w) for h, w in zip(halos, how)], L))
        if s % 4 == 0:      # box length zero: nothing is wrapped, wherever the halo is
            versions.append(("aperiodic", [np.round(rng.uniform(-90, 90, 3) / Q) * Q for _ in halos], 0.0))
        if gadget:          # the uncut reference of simulation output is the middle of the box
            versions[0] = ("middle", [np.full(3, L / 2)] * 2, L)
            versions = [v for v in versions if v[0] != "aperiodic"]
        first = len(runs)
        for j, (how, vec, l) in enumerate(versions):
            pos = [h["x"] + v for h, v in zip(halos, vec)]
            if l > 0:
                pos = [np.mod(p, l) for p in pos]
            if gadget:
                d = os.path.join(ctx.tmp, "s%d_%d" % (s, j))
                os.makedirs(d)
                gadget_io.write_snapshot(os.path.join(d, "snap"), {1: dict(pos=np.float32(np.vstack(pos)), vel=np.float32(np.vstack([h["v"] for h in halos])),
                                         mass=np.float32(np.hstack([h["m"] for h in halos])), ids=np.arange(sum(map(len, pos))))}, l)
                n = [len(p) for p in pos]
                gadget_io.write_groups(os.path.join(d, "groups"), [dict(group_len=n, nsubs=[1, 1], rvir=r200, r200=r200, sub_len=n)])
                new = ("new", "o", "DensShapeProfsGadget", [os.path.join(d, "snap"), os.path.join(d, "groups"), "dm", "035", d, d], {"MIN_NUMBER_PTCS": 5, "CENTER": center})
            else:
                n = [len(p) for p in pos]
                order = np.random.default_rng([ctx.seed, s]).permutation(sum(n))
                xyz, m = np.zeros((sum(n), 3)), np.zeros(sum(n))
                xyz[order], m[order] = np.vstack(pos), np.hstack([h["m"] for h in halos])
                cat = [[int(k) for k in order[:n[0]]], [int(k) for k in order[n[0]:]]]
                new = ("new", "o", "DensShapeProfs", [xyz, m, cat, r200, l, "035", "/nonexistent-viz", "/nonexistent-cat"], {"MIN_NUMBER_PTCS": 5, "CENTER": center})
            runs.append([new] + [("call", "o", *c) for c in calls])
        plan.append((first, versions, calls, halos, r200, center, L))
    res = ctx.drive("session", {"sessions": runs, "fork": False, "nofig": True, "jobs": 1}, env={"OMP_NUM_THREADS": "2"})
    cases = []
    for first, versions, calls, halos, r200, center, L in plan:
        rows = []
        for j, (how, vec, l) in enumerate(versions):
            r = res[first + j]
            bad = [x for x in r if x[0] != "ok"]
            if bad:
                ctx.violation("exception", "%s halo: %s" % (how, bad[0][1:3]), {"how": how, "error": bad[0], "shifts": vec, "box": l, "positions": [h["x"] for h in halos]})
                rows = None
                break
            here = []
            for h in (0, 1):
                f = {}
                for c, x in zip(calls, r[1:]):
                    sel = [0, 1] if c[0] in ("fitDensProfs", "estConcentrations") else c[1][1 if c[0] == "estDensProfs" else 0]
                    name = c[0] + ("" if c[0] != "estDensProfs" else "_" + "".join(str(int(v)) for k, v in c[2].items() if k != "katz_config"))
                    f.update(relate.row(name, x[1], sel.index(h), {"centre": 1e-6 * max(1.0, L)}))
                    if name == "estDensProfs_0":      # far tails of the kernel are irrelevant
                        a = np.asarray(x[1][sel.index(h)])
                        f[name + ".rho"] = relate.fld("rho", a, "abs", 1e-7)
                here.append(f)
            rows.append(here)
        if rows is None:
            continue
        for j in range(1, len(versions)):
            for h in (0, 1):
                cases.append({"how": versions[j][0], "base": rows[0][h], "obs": rows[j][h], "L": R(versions[j][2]),
                              "shift": RS(versions[j][1][h] - versions[0][1][h]), "input": {"positions": halos[h]["x"].tolist(), "masses": halos[h]["m"].tolist(),
                              "r200": float(r200[h]), "centre": center, "uncut": versions[0][0], "placed": versions[j][1][h].tolist()}})
    enc = [{k: v for k, v in c.items() if k != "input"} for c in cases]
    ctx.judge("Relate", cases, lambda i: relate.describe(cases[i]), payload=enc, label="cut halo")
    ctx.sample(relate.describe(cases[0]))
