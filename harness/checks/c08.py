"""C08: masses and centres against the shrinking sphere (module CentreTrace)."""
import os
import numpy as np
import katz, dens, units
from core import *
from checks import c01, c03


def describe(j, halos):
    h = halos[j["halo"] - 1]
    d = lambda v: [unR(x) for x in v]
    return {"positions": [d(x) for x in h["x"]], "masses": d(h["m"]), "box": unR(h["L"]), "centre kind": h["kind"], "start radius": unR(j["rad0"]),
            "reported mass": unR(j["mass"]), "reported centre": d(j["centre"]), "source": j["src"]}


def run(ctx):
    rng = ctx.np_rng()
    ss = c01.sessions(ctx, rng, ctx.n(60, 600), "centres")
    runs = []
    for k, s in enumerate(ss):
        if k % 3 == 0 and s["L"] > 0:      # halos spread over a face, an edge or a corner of the box
            corner = rng.integers(0, 2, 3) * s["L"]
            s["xyz"] = np.mod(s["xyz"] - s["xyz"][s["cat"][0][0]] + corner, s["L"])
        f = [1, 2.0 ** -8, 1, 2.0 ** -14, 2.0 ** 8][k % 5]      # from dwarf satellites to the whole box
        s["xyz"], s["L"], s["r200"] = s["xyz"] * f, s["L"] * f, s["r200"] * f
        s["f"] = f
        d = os.path.join(ctx.tmp, "cat%d" % k)
        s["dir"] = d
        s["r200"] = np.where(s["r200"] == 0, 0.5 * f, s["r200"])
        a = [s["xyz"], s["m"], s["cat"], s["r200"], s["L"], "035", d, d]
        kind = ["Local", "Global"][k % 2]
        s["what"] = kind
        s["unit"] = units.pick(k)
        runs.append(units.ops(s) + [("new", "o", "DensShapeProfs", a, {"MIN_NUMBER_PTCS": 5, "CENTER": s["center"]}),
                     ("call", "o", "getMassesCenters", [s["sel"]]),
                     ("call", "o", "dumpShapeCat" + kind, [s["sel"], s["cfg"]]), ("ls", d)])
    res = ctx.drive("session", runs)
    halos, jobs = [], []
    for s, r in zip(ss, res):
        bad = [x for x in r if x[0] != "ok"]
        if bad:
            ctx.violation("exception", "query raised: %s" % (bad[0][:3],), {"session": s, "error": bad[0]})
            continue
        mc, files = r[-3][1], r[-1][1]
        lu, mu = units.length(s), units.mass(s)
        load = lambda n: np.loadtxt(files["%s_%s_035.txt" % (n, s["what"].lower())].decode().split("\n"), ndmin=1)
        fm, fc = np.atleast_1d(load("m")) / mu, load("centers").reshape(-1, 3) / lu
        if len(fm) != len(s["sel"]) or len(fc) != len(s["sel"]) or len(mc) != len(s["sel"]):
            ctx.violation("length", "one entry per halo expected", {"session": s, "m": fm, "centres": fc})
            continue
        ext = max(s["f"], float(np.abs(s["xyz"]).max()), s["L"])
        for row, h in enumerate(s["sel"]):
            halos.append(katz.enc_halo(s["xyz"], s["m"], s["cat"][h], s["L"], s["center"]))
            jobs.append({"halo": len(halos), "rad0": R(1000), "mass": R(mc["mass"][row] / mu), "centre": RS(mc["centre"][row] / lu), "tol": R(1e-9 * ext), "src": "getMassesCenters"})
            jobs.append({"halo": len(halos), "rad0": R(0), "mass": R(fm[row]), "centre": RS(fc[row]), "tol": R(2e-7 * ext), "src": "shape catalogue"})
    ctx.judge("CentreTrace", jobs, lambda i: describe(jobs[i], halos), payload={"halos": halos, "jobs": jobs}, label="centre")
    ctx.sample(describe(jobs[0], halos))
    # density and velocity shape estimates are about the centre of the kind requested
    for kind, tol in (("sph", 1e-6), ("ker", 1e-3), ("ell", 1e-5)):
        dens.run_kind(ctx, kind, ctx.n(5, 60), tol)
    vs = [c03.gadget_session(ctx, rng, k) for k in range(ctx.n(8, 60))]
    for k, s in enumerate(vs):
        s["what"] = ["Local", "Local", "Global", "Global"][k % 4]
    c03.judge(ctx, vs)
