"""Requests to fit profiles, generated by TLC from module Fits, replayed and judged by FitTrace (C17, C18)."""
import json
import numpy as np
from core import *

PARS = {"einasto": ["rho_s", "alpha", "r_s"], "alpha_beta_gamma": ["rho_s", "alpha", "beta", "gamma", "r_s"], "nfw": ["rho_s", "r_s"], "hernquist": ["rho_s", "r_s"]}
UNITS = [("Mpc/h", "E+10Msun/h"), ("kpc/h", "Msun/h"), ("Mpc", "E+10Msun"), ("kpc", "Msun")]
GEN = "SPECIFICATION Spec\nCONSTANTS MaxRows = %d\n Record = %s\n"


def model(name, r, p):
    x = r / p["r_s"]
    if name == "einasto":
        return p["rho_s"] * np.exp(-2 / p["alpha"] * (x ** p["alpha"] - 1))
    a, b, g = {"nfw": (1, 3, 1), "hernquist": (1, 4, 1)}.get(name) or (p["alpha"], p["beta"], p["gamma"])
    return p["rho_s"] / (x ** g * (1 + x ** a) ** ((b - g) / a))


def tolerances(profile, free, mini, kinds):
    """(misfit, recovery) that a working minimiser reaches on exact data: tight unless the model is degenerate."""
    shape = [f for f in free if f in ("alpha", "beta", "gamma")]
    slow = mini in ("SLSQP", "TNC", "trust-constr")
    if profile == "alpha_beta_gamma":
        return 0.1, 0.0      # strongly degenerate
    if shape:
        return (0.05, 0.0) if slow else (0.005, 0.05)
    return 0.01, (0.05 if not slow else 0.08)


def plan(ctx, quick, thorough):
    ctx.model_check("Fits", GEN % (2, "FALSE") + "INVARIANT FixedAreKnown\n", timeout=2000)
    r = ctx.tlc("Fits", GEN % (6, "TRUE"), workers=1, timeout=3000, args=["-simulate", "num=%d" % ctx.n(quick * 3, thorough * 3), "-depth", "8", "-seed", str(ctx.seed)])
    reqs = [json.loads(h) for h in r.tagged("H")]
    ok = [q for q in reqs if q["ok"]]
    bad = [q for q in reqs if not q["ok"]]
    # every model and every set of fixed parameters first
    seen, first, rest = set(), [], []
    for q in ok:
        k = (q["profile"], tuple(sorted(q["fixed"])))
        (rest if k in seen else first).append(q)
        seen.add(k)
    slow = [q for q in rest if q["min"] == "trust-constr"][:3]
    rest = [q for q in rest if q["min"] != "trust-constr"]
    return (first + slow + rest)[:ctx.n(quick, thorough)] + bad[:ctx.n(10, 60)]


def run(ctx, quick, thorough, conc):
    reqs = plan(ctx, quick, thorough)
    rng = ctx.np_rng(17)
    NH = 8
    n = 30
    xyz = np.vstack([rng.normal(size=(n, 3)) * 0.2 + rng.uniform(2, 8, 3) for _ in range(NH)])
    cat = [list(range(k * n, (k + 1) * n)) for k in range(NH)]
    r200 = np.float64(np.float32(rng.uniform(0.15, 1.9, NH)))
    sessions, meta = [], []
    share = 12
    for s0 in range(0, len(reqs), share):
        u = UNITS[(s0 // share + ctx.seed) % len(UNITS)]
        ul = {"Mpc/h": 1.0, "kpc/h": 1e3, "Mpc": 1 / 0.6774, "kpc": 1e3 / 0.6774}[u[0]]
        ops = [("fn", "updateOutUnitSystem", [], {"length_in_cm": u[0], "mass_in_g": u[1], "velocity_in_cm_per_s": 1e5, "little_h": 0.6774}),
               ("new", "o", "DensShapeProfs", [xyz, np.ones(len(xyz)), cat, r200, 0.0, "035", "viz", "cat"], {"MIN_NUMBER_PTCS": 10, "CENTER": "com"}),
               ("call", "o", "getR200")]
        here = []
        for q in reqs[s0:s0 + share]:
            prof = q["profile"] if q["ok"] or q["profile"] in PARS else "nfw"
            rows = q["rows"]
            sel = [int(k) for k in rng.permutation(NH)[:len(rows)]]
            nb = int(rng.integers(12, 26)) if rng.random() > 0.03 else 90
            rr = np.logspace(np.log10(rng.uniform(0.02, 0.06)), np.log10(rng.uniform(0.9, 1.3)), nb)
            truth, dens = [], []
            common = {"alpha": float(rng.uniform(0.12, 0.3) if prof == "einasto" else rng.uniform(0.7, 1.4)), "beta": float(rng.uniform(2.7, 3.6)), "gamma": float(rng.uniform(0.7, 1.3)),
                      "r_s": float(rng.uniform(0.15, 0.35) * 0.8 * ul), "rho_s": float(10 ** rng.uniform(-3, 16))}
            for j, b in enumerate(rows):
                own = {"alpha": float(rng.uniform(0.12, 0.3) if prof == "einasto" else rng.uniform(0.7, 1.4)), "beta": float(rng.uniform(2.7, 3.6)), "gamma": float(rng.uniform(0.7, 1.3)),
                       "r_s": float(rng.uniform(0.12, 0.4) * r200[sel[j]] * ul), "rho_s": float(10 ** rng.uniform(-3, 16))}
                t = {k: (common[k] if k in q["fixed"] else own[k]) for k in own}
                y = model(prof, rr * r200[sel[j]] * ul, t)
                if b == "noisy":
                    y = y * np.exp(rng.normal(0, 0.15, nb))
                hole = rng.permutation(nb)[:int(rng.integers(1, 4))]
                if b in ("zeros", "both"):
                    y[hole] = 0.0
                if b in ("nans", "both"):
                    y[hole[:1] if b == "both" else hole] = np.nan
                if b == "none":
                    y[:] = [0.0, np.nan][j % 2]
                truth.append(t)
                dens.append(y)
            m = {"profile": q["profile"]}
            m.update({k: common[k] for k in q["fixed"]})
            if q["min"]:
                m["min_method"] = q["min"]
            arg = sel if rng.integers(2) else np.array(sel, dtype=np.int32)
            calls = [("call", "o", "fitDensProfs", [np.array(dens), rr, m, arg])]
            if conc:
                calls.append(("call", "o", "estConcentrations", [np.array(dens), rr.copy(), dict(m), list(sel)]))
            here.append((len(ops), q, prof, rows, sel, rr, truth, dens, {k: common[k] for k in q["fixed"]}, m))
            ops += calls
        sessions.append(ops)
        meta.append((here, u))
    res = ctx.drive("session", {"sessions": sessions, "fork": True, "nofig": True, "jobs": 4}, timeout=ctx.n(400, 3000), env={"OMP_NUM_THREADS": "1"})
    cases, info, refused = [], [], 0
    for (here, u), r in zip(meta, res):
        if any(x[0] != "ok" for x in r[:3]):
            raise CodeError("exception", "setup failed: %s" % [x[:3] for x in r[:3] if x[0] != "ok"])
        rad = np.atleast_1d(r[2][1])
        for at, q, prof, rows, sel, rr, truth, dens, fixed, m in here:
            a = r[at]
            what = {"request": m, "halos": sel, "bins": rows, "units": u}
            if not q["ok"]:
                if conc:
                    continue
                refused += 1
                if a[0] == "ok" or a[1] not in ("AssertionError", "ValueError"):
                    ctx.violation("accepted", "inadmissible request %s was %s" % (m, "answered" if a[0] == "ok" else a[1]), what)
                continue
            if conc and a[0] != "ok":      # nothing to compare with
                continue
            if a[0] != "ok" or (conc and r[at + 1][0] != "ok"):
                e = a if a[0] != "ok" else r[at + 1]
                ctx.violation("exception", "fit %s raised %s: %s" % (m, e[1], e[2][:200]), what)
                continue
            v = a[1]
            cs = np.atleast_1d(r[at + 1][1]) if conc else None
            if len(v) != len(rows) or (conc and len(cs) != len(rows)):
                ctx.violation("rows", "fit of %d halos gave %d rows" % (len(rows), len(v)), what)
                continue
            names = [x for x in v.dtype.names if x != "is_conv"]
            free = [p for p in PARS[prof] if p not in q["fixed"]]
            for j in range(len(rows)):
                tol, rec = tolerances(prof, free, q["min"] or "Powell", rows)
                if rows[j] == "noisy":
                    rec = 0.0
                if rows[j] == "none":
                    rec = 0.0
                got = {x: R(v[x][j]) for x in names}
                cases.append({"profile": prof, "fixed": {k: R(fixed[k]) for k in fixed} or {"none": R(0)}, "free": free, "r": RS(rr * rad[sel[j]]), "y": RS(dens[j]),
                              "truth": {k: R(truth[j][k]) for k in truth[j]}, "rms": R(tol), "rec": R(rec), "got": got, "conv": bool(v["is_conv"][j]),
                              "r200": R(rad[sel[j]]), "conc": R(cs[j]) if conc else R(0), "asked": bool(conc)})
                info.append(dict(what, row=j, got={x: float(v[x][j]) for x in names}, truth=truth[j], conc=float(cs[j]) if conc else None, r200=float(rad[sel[j]])))
    ctx.cov["refused_requests"] = refused
    ctx.judge("FitTrace", cases, lambda i: info[i], label="fits")
    kinds = {}
    for c in info:
        k = "%s/%s" % (c["request"]["profile"], c["request"].get("min_method", "default"))
        kinds[k] = kinds.get(k, 0) + 1
    ctx.cov["requests"] = kinds
    ctx.sample(info[0] if info else "none")
