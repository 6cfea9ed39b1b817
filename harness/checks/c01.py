"""C01: local shape profiles against the machine of module Katz."""
import numpy as np
import katz, units
from core import *

CFG = "SPECIFICATION Spec\nINVARIANT Bounded\nINVARIANT Sane\n"


EXTENSIVE = {6: [2500], 7: [1100, 16, 1300], 8: [16] * 45}      # sizes far from the usual ones (s == 10: many radii)


def sessions(ctx, rng, nsess, kind):
    """Sessions of several halos each; returns (session ops, meta)."""
    out = []
    for s in range(nsess):
        L = float(rng.choice([0.0, 10.0, 37.5]))
        if kind == "symmetry" and s % 4 < 2:
            L = 0.0
        center = ["mode", "com"][s % 2]
        halos = []
        counts = [int(rng.choice([16, 40, 90, 140])) for _ in range(int(rng.integers(1, 5)))]
        if s % 60 in EXTENSIVE:
            counts = EXTENSIVE[s % 60]
        for k, count in enumerate(counts):
            deg = "diag" if s % 5 == 3 and k == 0 else None
            h = katz.make_halo(rng, count, sym=rng.random() < 0.3, scale=float(rng.choice([0.2, 1.0])), degenerate=deg)
            h["pos"] = rng.uniform(0, L if L else 20.0, 3)
            if L and rng.random() < 0.5:
                h["pos"][rng.integers(3)] = 0.02
            h["deg"] = deg
            halos.append(h)
        xyz, vel, m, cat = katz.catalogue(rng, halos, L)
        r200 = np.array([float(np.max(np.linalg.norm(h["x"], axis=1))) * rng.uniform(0.7, 1.2) for h in halos])
        if s % 9 == 7:
            r200[0] = 0.0
        cfg = katz.config(rng, 40 if s % 60 == 10 else int(rng.integers(2, 6)))
        if s % 4 == 0:
            cfg["ROverR200"] = np.sort(rng.choice(np.linspace(0.2, 1.4, 25), 4, replace=False))
        sel = [int(i) for i in rng.permutation(len(halos))[:int(rng.integers(1, len(halos) + 1))]]
        if s % 60 in EXTENSIVE:
            sel = [int(i) for i in rng.permutation(len(halos))]
        out.append(dict(L=L, center=center, xyz=xyz, vel=vel, m=m, cat=cat, r200=r200, cfg=cfg, sel=sel, deg=[h["deg"] for h in halos]))
    return out


def ops(s, calls):
    return units.ops(s) + [("new", "o", "DensShapeProfs", [s["xyz"], s["m"], s["cat"], s["r200"], s["L"], "035", "/nonexistent-viz", "/nonexistent-cat"],
             {"MIN_NUMBER_PTCS": s.get("least", 5), "CENTER": s["center"]})] + calls


def run(ctx):
    rng = ctx.np_rng()
    ss = sessions(ctx, rng, ctx.n(60, 400), "local")
    for s in ss[1::3]:
        s["cfg"]["IT_MIN"] = katz.tight_min(ctx.np_rng(len(s["xyz"])), s)
    for k, s in enumerate(ss):
        s["unit"] = units.pick(k)
    ss[2]["cfg"]["IT_MIN"] = 70000          # more than any halo has
    for s in [s for s in ss[3:] if len(s["sel"]) == 1 and len(s["cat"][s["sel"][0]]) in (90, 140) and s["r200"][s["sel"][0]] > 0][:5]:
        s.update(cfg=katz.DEFAULT, defaults=True)
    res = ctx.drive("session", [ops(s, [("call", "o", "getShapeCatLocal", [s["sel"]] + ([] if "defaults" in s else [s["cfg"]]))]) for s in ss])
    halos, jobs, meta = [], [], []
    for s, r in zip(ss, res):
        if r[-1][0] != "ok":
            ctx.violation("exception", "getShapeCatLocal raised: %s" % (r[-1],), {"session": s, "error": r[-1]})
            continue
        cat = units.shapes(s, r[-1][1])
        for row, h in enumerate(s["sel"]):
            halos.append(katz.enc_halo(s["xyz"], s["m"], s["cat"][h], s["L"], s["center"]))
            jobs += katz.local_jobs(len(halos), s["cfg"], s["r200"][h], cat[row])
    v = ctx.judge("KatzTrace", jobs, lambda i: katz.describe(jobs[i], halos), cfg=CFG, payload={"halos": halos, "jobs": jobs}, label="local shape")
    ends = ctx.last.tagged("P")
    ctx.cov["converged"] = sum("converged" in e for e in ends)
    ctx.cov["missing"] = sum("missing" in e for e in ends)
    ctx.cov["iterations"] = {str(k): sum(e.endswith("|%d" % k) for e in ends) for k in range(1, 14)}
    ctx.sample(katz.describe(jobs[0], halos))
