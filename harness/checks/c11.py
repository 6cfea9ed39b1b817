"""C11: retained halos and rows of requests: Selection enumerated, replayed, judged by SelectionTrace."""
import json, os
import numpy as np
from core import *

CFG = """SPECIFICATION Spec
CONSTANTS Mins = {3}
 Sizes = {%s}
 MaxHalos = %d
 MaxAsk = %d
 Record = %s
"""
INV = "INVARIANTS ExactlyThose InOrder Indexed Rows\n"
FRAC, BIG, RS_ = 0.8, 3.0, 0.21
KER = np.linspace(0.1, 0.9, 40)


def run(ctx):
    ctx.model_check("Selection", CFG % ("0, 2, 3, 4", ctx.n(3, 4), ctx.n(2, 3), "FALSE") + INV, timeout=3000)
    # every catalogue of up to three (four) halos around the threshold
    r = ctx.tlc("Selection", CFG % ("0, 2, 3, 5", 3, 3, "TRUE"), timeout=3000, args=["-simulate", "num=%d" % ctx.n(400, 6000), "-depth", "8", "-seed", str(ctx.seed)], workers=1)
    asked = [json.loads(h) for h in r.tagged("H")]
    rng = ctx.np_rng()
    groups = {}
    for a in asked:
        groups.setdefault(tuple(a["sizes"]), []).append(a["ask"])
    import itertools
    for n in (1, 2, 3):
        for sizes in itertools.product((0, 2, 3, 5), repeat=n):
            groups.setdefault(sizes, [])
    plan = [(list(s), a[:ctx.n(4, 30)], False) for s, a in sorted(groups.items())]
    # larger catalogues, valid requests of all kinds, also through the slow queries
    for j in range(ctx.n(14, 120)):
        n = int(rng.integers(4, 30)) if j != 7 else 400
        sizes = [int(x) for x in rng.choice([0, 1, 19, 20, 21, 40, 60], n)]
        kept = sum(s >= 20 for s in sizes)
        asks = [list(range(kept)), list(range(kept))[::-1], [kept - 1], [0]] + [[int(x) for x in rng.permutation(kept)[:int(rng.integers(1, kept + 1))]] for _ in range(3)] if kept else []
        if kept > 1:                 # one halo asked for twice in a long list
            twice = [int(x) for x in rng.permutation(kept)]
            asks.append(twice + [twice[int(rng.integers(kept))]])
        asks = asks + [[], [kept], [-1, 0], [0, 0] if kept else [0]]
        plan.append((sizes, asks, j % 5 == 0))
    runs, meta = [], []
    for p, (sizes, asks, slow) in enumerate(plan):
        mn = 3 if len(sizes) <= 3 else 20
        tot = sum(sizes) + 5
        perm = rng.permutation(tot)
        xyz, m = np.zeros((tot, 3)), rng.uniform(1, 2, tot)
        halos, off = [], 0
        for k, s in enumerate(sizes):
            ids = perm[off:off + s]
            off += s
            u = rng.normal(size=(s, 3))
            r200 = float(np.float32(rng.uniform(0.3, 0.9)))
            if s:
                u = u / np.linalg.norm(u, axis=1)[:, None] * rng.uniform(0.1, 0.9, s)[:, None] * np.array([1, .8, .6])
                xyz[ids] = u * r200 + rng.uniform(0, 50, 3)
                m[ids] *= 1.7 ** k if k < 20 else 3.0 * k
            halos.append({"ids": [int(x) for x in ids], "r200": r200})
        form = p % 5
        lists = [h["ids"] if form != 1 else np.array(h["ids"], dtype=[np.int32, np.int64][p % 2]) for h in halos]
        r200 = [h["r200"] for h in halos]
        if len(sizes) == 1 and sizes[0] and form in (2, 3):      # a single halo may be given as one list and one number
            lists, r200 = list(halos[0]["ids"]), r200[0]
        else:
            r200 = np.array(r200)
        dest = os.path.join(ctx.tmp, "c%d" % p)
        ops = [("new", "o", "DensShapeProfs", [xyz, m, lists, r200, 0.0, "035", dest, dest], {"MIN_NUMBER_PTCS": mn, "CENTER": ["com", "mode"][p % 2]}), ("call", "o", "getIdxCat"), ("call", "o", "getR200")]
        kz = {"ROverR200": np.array([0.5, FRAC]), "IT_TOL": 0.5, "IT_WALL": 20, "IT_MIN": 2, "REDUCED": False, "SHELL_BASED": False}
        rf = np.logspace(-1.3, 0, 12)
        x = rf / RS_
        kept = sum(s >= mn for s in sizes)
        single = kept if kept <= 30 else 0
        ops += [("call", "o", "estDensProfs", [KER.copy(), [h]], {"direct_binning": False}) for h in range(single)]
        per = [single]
        for j, a in enumerate(asks):
            sel = (lambda: list(a)) if j % 2 else (lambda: np.array(a, dtype=np.int32))
            rho = np.tile(4e15 / (x * (1 + x) ** 2), (len(a), 1)) * (1e-10)
            qs = [("mc", ("call", "o", "getMassesCenters", [sel()])), ("loc", ("call", "o", "getShapeCatLocal", [sel(), dict(kz)])),
                  ("glo", ("call", "o", "getShapeCatGlobal", [sel(), dict(kz)])),
                  ("sph", ("call", "o", "estDensProfs", [np.array([BIG]), sel()], {"direct_binning": True, "spherical": True})),
                  ("ker", ("call", "o", "estDensProfs", [KER.copy(), sel()], {"direct_binning": False}))]
            if slow:
                qs += [("fit", ("call", "o", "fitDensProfs", [rho, rf.copy(), {"profile": "nfw"}, sel()])), ("conc", ("call", "o", "estConcentrations", [rho, rf.copy(), {"profile": "nfw"}, sel()]))]
            if j % 3 == 1 or slow:
                qs.append(("file", None))
            per.append((len(ops), qs))
            for q, o in qs:
                if o is not None:
                    ops.append(o)
                else:
                    ops += [("new", "w", "DensShapeProfs", [xyz, m, [h["ids"] for h in halos], np.array([h["r200"] for h in halos]), 0.0, "%d_035" % j, dest, dest + "_w"], {"MIN_NUMBER_PTCS": mn, "CENTER": "com"}),
                            ("call", "w", ["dumpShapeCatGlobal", "dumpShapeCatLocal"][(p + j) % 2], [sel(), dict(kz)]), ("ls", dest + "_w")]
        runs.append(ops)
        for h in halos:
            h["mass"] = float(np.sum(m[h["ids"]])) if h["ids"] else 0.0
        meta.append((mn, halos, asks, per))
    res = ctx.drive("session", {"sessions": runs, "fork": False, "nofig": True, "jobs": 1}, timeout=ctx.n(300, 2500), env={"OMP_NUM_THREADS": "2"})
    cases = []
    for p, ((mn, halos, asks, per), r) in enumerate(zip(meta, res)):
        single = per.pop(0)
        bad = [x for x in r[:3 + single] if x[0] != "ok"]
        if bad:
            ctx.violation("exception", "catalogue of sizes %s raised %s" % (plan[p][0], bad[0][1:3]), {"sizes": plan[p][0], "min": mn, "error": bad[0]})
            continue
        c = {"min": mn, "halos": [{"ids": h["ids"], "mass": R(h["mass"]), "r200": R(h["r200"])} for h in halos],
             "idx": [int(x) for x in r[1][1][0]], "size": [int(x) for x in r[1][1][1]], "r200": RS(np.atleast_1d(r[2][1])),
             "frac": R(FRAC), "big": R(BIG), "safe": R(6.0), "rs": R(RS_), "asks": [],
             "alone": [R(float(np.sum(x[1]))) for x in r[3:3 + single]]}
        for a, (at, qs) in zip(asks, per):
            out = {}
            for q, o in qs:
                x = r[at]
                at += 1
                if q == "file":
                    y, files = r[at], r[at + 1]
                    at += 2
                    name = [n for n in files[1] if n.startswith("m_")] if files[0] == "ok" else []
                    j = len(c["asks"])
                    name = [n for n in name if n.endswith("_%d_035.txt" % j)]
                    ok = y[0] == "ok" and len(name) == 1
                    v = np.loadtxt(files[1][name[0]].decode().split("\n"), ndmin=1) if ok else []
                    out[q] = {"ok": bool(ok), "err": "" if ok else str(y[1:3])[:200], "v": RS(v)}
                    continue
                if x[0] != "ok":
                    out[q] = {"ok": False, "err": str(x[1:3])[:200], "v": []}
                    continue
                v = x[1]
                v = v["mass"] if q == "mc" else v["d"][:, -1] if q == "loc" else v["d"] if q == "glo" else v["r_s"] if q == "fit" else np.asarray(v).reshape(-1) if q == "conc" else np.sum(v, axis=1) if q == "ker" else v[:, 0]
                if q == "ker" and not single:
                    continue
                out[q] = {"ok": True, "err": "", "v": RS(np.asarray(v, float).reshape(-1))}
            c["asks"].append({"sel": [int(x) for x in a], "res": out})
        cases.append(c)
    def describe(i):
        c = cases[i]
        return {"sizes": [len(h["ids"]) for h in c["halos"]], "min": c["min"], "masses": [unR(h["mass"]) for h in c["halos"]], "r200": [unR(h["r200"]) for h in c["halos"]],
                "reported": {"size": c["size"], "idx": c["idx"], "r200": [unR(x) for x in c["r200"]]},
                "requests": [{"sel": a["sel"], "answers": {q: [v["ok"], v["err"], [unR(x) for x in v["v"]]] for q, v in a["res"].items()}} for a in c["asks"]]}
    ctx.judge("SelectionTrace", cases, describe, label="selection")
    ctx.cov["requests"] = sum(len(c["asks"]) for c in cases)
    ctx.cov["refused"] = sum(not any(v["ok"] for v in a["res"].values()) for c in cases for a in c["asks"])
    ctx.sample(describe(0))
