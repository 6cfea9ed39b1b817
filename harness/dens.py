"""Density jobs for ProfTrace."""
import numpy as np
import katz, units
from core import R, RS, RM, unR
from checks import c01


def radii(rng, n, lo=0.15, hi=1.1):
    if rng.random() < 0.5:
        return np.sort(rng.uniform(lo, hi, n))
    return np.logspace(np.log10(lo), np.log10(hi), n)


def job(hno, kind, rr, r200, rho, tol, floor=0.0, shape=None):
    sh, gap = {"d": [], "q": [], "s": [], "major": [], "inter": [], "minor": []}, False
    if shape is not None:
        ok = shape["is_conv"]
        gap = bool(not ok.all())
        o = np.argsort(shape["d"][ok])
        for k in ("d", "q", "s"):
            sh[k] = RS(shape[k][ok][o])
        for k in ("major", "inter", "minor"):
            sh[k] = RM(shape[k][ok][o])
    return {"halo": hno, "kind": kind, "rr": RS(rr), "r200": R(r200), "rho": RS(rho), "tol": R(tol), "floor": R(floor), "shape": sh, "gap": gap}


def describe(j, halos):
    h = halos[j["halo"] - 1]
    d = lambda v: [unR(x) for x in v]
    return {"kind": j["kind"], "positions": [d(x) for x in h["x"]], "masses": d(h["m"]), "box": unR(h["L"]), "centre": h["kind"], "r200": unR(j["r200"]),
            "r_over_r200": d(j["rr"]), "reported density": d(j["rho"]), "shape": {k: ([d(a) for a in v] if k in ("major", "inter", "minor") else d(v)) for k, v in j["shape"].items()}}


def run_kind(ctx, kind, nsess, tol):
    rng = ctx.np_rng(7)
    ss = c01.sessions(ctx, rng, nsess, "dens")
    runs = []
    for i, s in enumerate(ss):
        s["rr"] = radii(rng, 60 if i == 10 else int(rng.integers(3, 9)), 0.05 if kind != "ell" else 0.3, float(rng.choice([0.8, 1.0, 1.4])))
        s["r200"] = np.where(s["r200"] == 0, 0.7, s["r200"])
        if kind == "ker" and i % 4 == 1:            # halos of a particle or two: one sits exactly at the centre
            lone = [[int(rng.integers(len(s["xyz"])))], [int(k) for k in rng.choice(len(s["xyz"]), 2, replace=False)]]
            s.update(least=1, cat=list(s["cat"]) + lone, r200=np.append(s["r200"], rng.uniform(0.3, 1.5, 2)))
            s["sel"] = s["sel"] + [len(s["cat"]) - 2, len(s["cat"]) - 1]
        if kind == "ell":
            s["cfg"].update(IT_TOL=float(rng.choice([1e-1, 1e-2])), IT_WALL=100, IT_MIN=5, SHELL_BASED=False)
            s["cfg"]["ROverR200"] = np.sort(rng.uniform(0.4, 1.5, int(rng.integers(2, 6))))
            if rng.random() < 0.4:
                s["cfg"]["ROverR200"] = s["rr"]
        s["unit"] = units.pick(i)
        calls = []
        if kind == "ell":
            calls.append(("call", "o", "getShapeCatLocal", [s["sel"], s["cfg"]]))
        kw = {"direct_binning": kind != "ker", "spherical": kind != "ell"}
        if kind == "ell":
            kw["katz_config"] = s["cfg"]
        calls.append(("call", "o", "estDensProfs", [s["rr"], s["sel"]], kw))
        runs.append(c01.ops(s, calls))
    res = ctx.drive("session", runs)
    halos, jobs = [], []
    for s, r in zip(ss, res):
        if any(x[0] != "ok" for x in r):
            bad = [x for x in r if x[0] != "ok"][0]
            ctx.violation("exception", "estDensProfs (%s) raised: %s" % (kind, bad[:3]), {"session": s, "error": bad})
            continue
        rho = units.density(s, r[-1][1])
        shape = units.shapes(s, r[-2][1]) if kind == "ell" else None
        for row, h in enumerate(s["sel"]):
            halos.append(katz.enc_halo(s["xyz"], s["m"], s["cat"][h], s["L"], s["center"]))
            floor = 0.0
            if kind == "ker":
                floor = 1e-9 * float(np.sum(s["m"][s["cat"][h]])) / float(s["r200"][h]) ** 3
            jobs.append(job(len(halos), kind, s["rr"], s["r200"][h], rho[row], max(tol, 3e-6) if s["unit"] else tol, floor, shape[row] if kind == "ell" else None))
    ctx.judge("ProfTrace", jobs, lambda i: describe(jobs[i], halos), cfg="SPECIFICATION Spec\nINVARIANT Conserved\n",
              payload={"halos": halos, "jobs": jobs}, label=kind + " density", max_ambiguous=0.8)
    st = [p.split("|")[-1] for p in ctx.last.tagged("S")]
    sh = [p for p in ctx.last.tagged("S")]
    for k, w in (("shells_filled", "filled"), ("shells_empty", "empty"), ("shells_undecided", "?")):
        ctx.cov[k] = st.count(w)
    ctx.sample(describe(jobs[0], halos))
