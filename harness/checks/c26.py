"""C26: mass bins, summaries and two-sample tests against module MassBins."""
import numpy as np
from core import *


def run(ctx):
    q = ctx.tier == "quick"
    ctx.model_check("MassBinsMC", "SPECIFICATION Spec\nCONSTANTS MaxN = %d MaxBins = %d Masses = {1, 2, 3}\nINVARIANTS Sound Enclosed Tests Tails\n" % ((4, 4) if q else (6, 7)), timeout=3000)
    rng = ctx.np_rng()
    ops, cases, info = [], [], []

    def add(name, args, case, kw=None):
        ops.append(("fn", name, args) + ((kw,) if kw else ()))
        cases.append(case)
        info.append({"call": name, "args": args, "options": kw})
    for k in range(ctx.n(90, 1200)):
        n, nb = int(rng.integers(0, 14)), int(rng.integers(1, 9))
        if k % 90 in (40, 41, 42):
            n, nb = 700, [3, 40, 250][k % 3]
        m = 10 ** rng.uniform(9, 14, n)
        if k % 3 == 1 and n:
            m = m[rng.integers(0, max(1, n // 2), n)]      # equal masses
        if k % 3 == 2:
            m = np.sort(m)[::-1].copy()
        x, v = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
        hasv = k % 2 == 0
        add("common.cosmo_tools.M_split", [m, x, 0.0] + ([v] if hasv else []),
            {"what": "split", "m": RS(m), "nb": nb, "x": RM(x), "u": RM(v), "hasv": hasv}, {"NB_BINS": nb})
    for k in range(ctx.n(20, 100)):
        n, b = int(rng.integers(0, 20)), int(rng.integers(1, 9))
        if k == 9:
            n, b = 1000, 37
        add("common.cosmo_tools.getBlocks", [list(range(n)), b], {"what": "blocks", "in": list(range(n)), "n": b})
    for k in range(ctx.n(60, 800)):
        how = ["SEM", "median_quantile", "bootstrap"][k % 3]
        y = [[float(t) for t in rng.normal(rng.uniform(-3, 3), 10 ** rng.uniform(-2, 2), int(rng.choice([0, 1, 2, 3, 4, 5, 8, 17])))] for _ in range(int(rng.integers(1, 6)))]
        if k in (31, 32, 33):
            y.append([float(t) for t in rng.normal(1.0, 2.0, 600)])
        if k % 7 == 0:
            y[0] = [0.25] * len(y[0])
        add("common.cosmo_tools.getMeanOrMedianAndError", [y, how], {"what": "summary", "how": how, "bins": [RS(z) for z in y]},
            {"N_REAL": 400} if how == "bootstrap" else None)
    for k in range(ctx.n(30, 300)):
        n = int(rng.integers(1, 16)) if k != 15 else 150
        o = rng.poisson(rng.choice([0.3, 2, 20, 400]), (2, n)).astype(np.int32)
        if k % 6 == 0:
            o[1] = o[0]
        if k % 6 == 1:
            o[k // 6 % 2] = 0
        if k % 12 == 2:
            o[:] = 0
        add("common.cosmo_tools.chiSquareToICore", [o], {"what": "counts", "a": [int(t) for t in o[0]], "b": [int(t) for t in o[1]]})
    for k in range(ctx.n(16, 160)):
        dims = int(rng.integers(1, 4))

        def sample(a, b):
            return [[float(t) for t in rng.beta(a, b, int(rng.choice([0, 1, 5, 20])))] for _ in range(dims)]
        x, y = sample(2, 2), sample(rng.uniform(1, 5), 2)
        if k % 4 == 0:
            y = [list(t) for t in x]
        if k % 4 == 1 and x[0]:
            x[0][0], y[0] = 1.0, y[0] + [0.0, 1.0, -0.2, 1.3]
        add("common.cosmo_tools.chiSquareToIMultiDim", [x, y], {"what": "samples", "x": [RS(t) for t in x], "y": [RS(t) for t in y]})
    for k in range(ctx.n(12, 100)):
        start, end, bins = [(-2, 0, 4), (-1.5, 0, 6), (-1, 1, 4), (-2, 1, 6), (-1.5, 0.5, 4)][k % 5]
        at = bins - int(round(end / ((end - start) / bins)))
        n = bins + 1

        def profs(N):
            d, p = [], []
            for _ in range(N):
                l = np.linspace(start, end, n) + rng.uniform(-0.3, 0.3, n) * (end - start) / bins
                l[at] = 0
                l = np.sort(l)
                l -= l[at]
                d.append(10 ** (l + rng.uniform(-1, 1)))
                z = rng.uniform(0.2, 1, n)
                z[rng.random(n) < 0.15] = np.nan
                p.append(z)
            return np.array(d).reshape(N, n), np.array(p).reshape(N, n)
        d1, p1 = profs(int(rng.integers(1, 5)))
        d2, p2 = profs(int(rng.integers(1, 5)))
        if k % 4 == 0:
            d2, p2 = d1[::-1].copy(), p1[::-1].copy()
        add("common.cosmo_tools.chiSquareToIShapeCurve", [d1, p1, d2, p2, start, end, bins],
            {"what": "curves", "d1": RM(d1), "p1": RM(p1), "d2": RM(d2), "p2": RM(p2), "start": R(start), "end": R(end), "bins": bins, "r200": at + 1})
    for k in range(ctx.n(40, 500)):
        n1, n2 = (int(t) for t in rng.integers(0 if k % 8 == 0 else 1, 13, 2))
        x, y = rng.normal(size=n1), rng.normal(rng.choice([0, 0.5, 3]), 1, size=n2)
        if k % 5 == 0:
            y = rng.permutation(x)
        if k % 5 == 1:
            x, y = np.round(x), np.round(y)
        a, b = (x, y) if k % 2 else (list(map(float, x)), list(map(float, y)))
        add("common.cosmo_tools.KSTest", [a, b], {"what": "ks", "x": RS(x), "y": RS(y)})
        add("common.cosmo_tools.KSTest", [b, a], {"what": "ks", "x": RS(y), "y": RS(x)})
    res = ctx.drive("session", [ops], timeout=600)[0]
    ok, oki = [], []
    for c, x, j in zip(cases, res, info):
        if x[0] != "ok":
            ctx.violation("exception", "%s raised %s: %s" % (j["call"], x[1], x[2]), j)
            continue
        if x[2]:
            ctx.violation("arguments", "%s changed its arguments: %s" % (j["call"], x[2]), j)
        y, w = x[1], c["what"]
        try:
            if w == "split":
                want = 5 if c["hasv"] else 4
                if len(y) != want:
                    raise ValueError("%d instead of %d results" % (len(y), want))
                c.update(edges=RS(y[0]), masses=[RS(t) for t in y[1]], centres=[RM(t) for t in y[2]], v=[RM(t) for t in y[3]] if c["hasv"] else [], idx=[[int(t) for t in g] for g in y[-1]])
            elif w == "blocks":
                c["out"] = [list(map(int, t)) for t in y]
            elif w == "summary":
                c.update(mid=RS(y[0]), lo=RS(y[1]), hi=RS(y[2]))
            elif w == "ks":
                c.update(d=R(float(y[0])), p=R(float(y[1])))
            else:
                c.update(chi=R(float(y[0])), p=R(float(y[1])), dof=R(float(y[2])))
        except (TypeError, ValueError, IndexError) as e:
            ctx.violation("form", "%s returned something else than documented: %s" % (j["call"], e), dict(j, result=y))
            continue
        ok.append(c)
        oki.append(dict(j, result=y))
    ctx.judge("MassBinsTrace", ok, lambda i: oki[i], label="bins")
    ctx.sample(oki[0])
