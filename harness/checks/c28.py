"""C28: cosmology helpers and the formatting of numbers against module Cosmo."""
import itertools
from core import *


def run(ctx):
    ctx.model_check("CosmoMC",
                    "SPECIFICATION Spec\nCONSTANT Sparse = %d\nINVARIANTS BothTexts Distinct EdS Dilutes\n" % 100 if ctx.tier == "quick" else 1, timeout=3000)
    rng = ctx.np_rng()
    ops, cases, info = [], [], []

    def add(name, args, case):
        ops.append(("fn", name, args))
        cases.append(case)
        info.append({"call": name, "args": args})
    add("getRhoCrit", [], {"what": "rhocrit"})
    for _ in range(ctx.n(60, 600)):
        n = int(rng.choice([1, 2, 64, 256, 512, 1000, 2048, 4096, int(rng.integers(1, 5000))]))
        l = float(rng.choice([1, 10, 25, 75, 100.5, 10 ** rng.uniform(-2, 4)]))
        add("getMassDMParticle", [n, l], {"what": "mass", "args": RS([n, l])})
    for k in range(ctx.n(80, 800)):
        om = float(rng.choice([1, 0.3, 0.315, rng.uniform(0.01, 1.2)]))
        ol = float([0, 1 - om, max(0, 1 - om), rng.uniform(0, 1.2)][k % 4])
        z = float(rng.choice([0, 0.5, 1, 10, rng.uniform(0, 30), rng.uniform(0, 2), 1100]))
        if om + ol <= 0:
            continue
        if om * (1 + z) ** 3 + ol <= 0.02:
            continue
        add("getDelta", [z, om, ol], {"what": "delta", "args": RS([z, om, ol])})
    mants = MANT[:30] if ctx.tier == "quick" else range(-999, 1000)
    for m, e, sg, c in itertools.product(mants, range(20), "+-", "eE"):
        s = "%s%d.%02d%s%s%02d" % ("-" if m < 0 else "", abs(m) // 100, abs(m) % 100, c, sg, e)
        add("eTo10", [s], {"what": "text", "before": [ord(x) for x in s]})
    res = ctx.drive("session", [ops], timeout=600)[0]
    ok, oki = [], []
    for c, x, j in zip(cases, res, info):
        if x[0] != "ok":
            ctx.violation("exception", "%s raised %s: %s" % (j["call"], x[1], x[2]), j)
            continue
        if c["what"] == "text":
            c["after"] = [ord(y) for y in x[1]]
        else:
            c["v"] = R(float(x[1]))
        ok.append(c)
        oki.append(dict(j, result=x[1]))
    ctx.judge("CosmoTrace", ok, lambda i: oki[i], label="helpers")
    ctx.sample(oki[0])
    ctx.sample(oki[-1])


MANT = [-288, 0, 100, 101, 110, 288, 999, -100, -999, 123, 200, 310, 500, 1, 10, 99, 900, 910, 901, 777, 545, 654, 111, 109, -101, -110, 432, 190, 801, 666] + [m for m in range(-995, 1000, 11)]
