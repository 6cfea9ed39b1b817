"""C02: global shapes against the machine of module Katz."""
import numpy as np
import katz, units
from core import *
from checks.c01 import CFG, ops, sessions


def run(ctx):
    rng = ctx.np_rng()
    ss = sessions(ctx, rng, ctx.n(90, 700), "global")
    for k, s in enumerate(ss):
        s["cfg"]["IT_MIN"] = int(rng.choice([5, 10, 30]))
        if k % 3 == 0 and k % 2:     # as many as some object has
            s["cfg"]["IT_MIN"] = len(s["cat"][s["sel"][0]])
        if k % 3:      # large objects: the safety margin of 6 Mpc/h no longer covers everything
            L0, f = s["L"], float(rng.choice([6.0, 9.0, 14.0]))
            x = []
            s["xyz"] = s["xyz"] * f
            s["r200"] = s["r200"] * float(rng.uniform(0.2, 0.9))
            s["L"] = L0 * f
    for k, s in enumerate(ss):
        s["unit"] = units.pick(k)
    ss[2]["cfg"]["IT_MIN"] = 70000          # more than any halo has
    for s in ss[5::20]:
        s.update(cfg=katz.DEFAULT, defaults=True)
    res = ctx.drive("session", [ops(s, [("call", "o", "getShapeCatGlobal", [s["sel"]] + ([] if "defaults" in s else [s["cfg"]]))]) for s in ss])
    halos, jobs = [], []
    for s, r in zip(ss, res):
        if r[-1][0] != "ok":
            ctx.violation("exception", "getShapeCatGlobal raised: %s" % (r[-1],), {"session": s, "error": r[-1]})
            continue
        cat = units.shapes(s, r[-1][1])
        for row, h in enumerate(s["sel"]):
            halos.append(katz.enc_halo(s["xyz"], s["m"], s["cat"][h], s["L"], s["center"]))
            jobs.append(katz.global_job(len(halos), s["cfg"], s["r200"][h], cat[row]))
    ctx.judge("KatzTrace", jobs, lambda i: katz.describe(jobs[i], halos), cfg=CFG, payload={"halos": halos, "jobs": jobs}, label="global shape")
    ends = ctx.last.tagged("P")
    ctx.cov["converged"] = sum("converged" in e for e in ends)
    ctx.cov["missing"] = sum("missing" in e for e in ends)
    ctx.cov["iterations"] = {str(k): sum(e.endswith("|%d" % k) for e in ends) for k in range(1, 14)}
    ctx.sample(katz.describe(jobs[0], halos))
