"""C20: mock halos followed shell by shell through module MockHalo."""
import numpy as np
from core import *


def run(ctx):
    ctx.model_check("MockHaloMC", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Ends Whole Closed Agree\nPROPERTY Few\n" % ctx.n(9, 40), timeout=3000)
    rng = ctx.np_rng()
    models = ["einasto", "alpha_beta_gamma", "nfw", "hernquist"]
    names = {"einasto": ["alpha", "r_s"], "alpha_beta_gamma": ["alpha", "beta", "gamma", "r_s"], "nfw": ["r_s"], "hernquist": ["r_s"]}
    ops, cases = [], []
    for k in range(ctx.n(32, 200)):
        m = models[k % 4]
        n = int(rng.integers(3, 16))
        top = 10 ** rng.uniform(-1, 2)
        a = np.logspace(np.log10(top) - rng.uniform(0.5, 3), np.log10(top), n) if k % 3 else np.linspace(top / n, top, n)
        q = np.linspace(*rng.uniform(0.55, 1, 2), n) if k % 2 else rng.uniform(0.4, 1)
        s = np.linspace(*rng.uniform(0.5, 0.9, 2), n) if k % 2 else rng.uniform(0.3, 0.9)
        b, c = np.maximum.accumulate(a * q), np.maximum.accumulate(a * q * s)
        p = {"alpha": float(rng.uniform(0.15, 0.6) if m == "einasto" else rng.uniform(0.7, 2)), "beta": float(rng.uniform(2.6, 5)), "gamma": float(rng.uniform(0, 1.9)), "r_s": float(top * 10 ** rng.uniform(-1.3, 0.2))}
        tot = float(10 ** rng.uniform(9, 15))
        res = float([300, 1000, 60, 15, 150, 600, 400][k % 7] * rng.uniform(0.8, 1.3))
        if k % 9 == 4:
            res = float(rng.uniform(0.05, 0.3))
        if k % 3 != 0:
            res = int(res) if res > 1 else res
        pars = {t: p[t] for t in names[m]}
        if k % 4 >= 2 and rng.random() < 0.5:
            pars["rho_s"] = float(10 ** rng.uniform(5, 20))       # left over from an earlier halo
        ops += [("set", "p%d" % k, dict(pars)), ("fn", "genHalo", [tot, res, "$p%d" % k, m, a, b, c]), ("get", "p%d" % k)]
        if k % 5 == 0:
            ops.append(("fn", "drawUniformFromEllipsoid", [3, a, b, c, np.full(n, 3), n - 1]))
        ops.append(("fn", "genHalo", [tot, res, dict(pars), m, a.copy(), b.copy(), c.copy()]))
        cases.append({"model": m, "p": p, "pars": pars, "tot": tot, "res": res, "a": a, "b": b, "c": c})
    res = iter(list(ctx.drive("session", [ops], timeout=800)[0]))
    enc, info = [], []
    for k, c in enumerate(cases):
        next(res)
        x, left = next(res), next(res)
        if k % 5 == 0:
            next(res)
        y = next(res)
        j = {n: c[n] for n in ("model", "pars", "tot", "res", "a", "b", "c")}
        e = {"model": c["model"], "p": {t: R(c["p"][t]) for t in c["p"]}, "tot": R(c["tot"]), "res": R(c["res"]),
             "axes": RM(np.transpose([c["a"], c["b"], c["c"]])), "failed": "", "x": [], "again": [], "mass": R(0.0), "rho": R(0.0), "keptpars": True}
        if x[0] != "ok":
            e["failed"] = x[1]
        else:
            if any("rho_s" not in str(w[2]) or not str(w[2]).startswith("{") for w in x[2]):
                ctx.violation("arguments", "genHalo changed its arguments: %s" % (x[2],), j)
            try:
                e.update(x=RM(np.transpose(x[1][:3])), mass=R(float(x[1][3])), rho=R(float(x[1][4])),
                         again=RM(np.transpose(y[1][:3])) if y[0] == "ok" else [],
                         keptpars=all(left[1].get(t) == v for t, v in c["pars"].items() if t != "rho_s"))
            except (TypeError, ValueError, IndexError) as err:
                ctx.violation("form", "genHalo returned something else than documented: %s" % err, j)
                continue
        enc.append(e)
        info.append(dict(j, error=x[1:] if x[0] != "ok" else None, particles=len(x[1][0]) if x[0] == "ok" else None))
    ctx.judge("MockTrace", enc, lambda i: info[i], label="mock halos", key=lambda i, w: __import__("re").sub(r"-holds-\d+", "", __import__("re").sub(r"shell\d+", "shell", w)).split(" ")[0])
    ctx.sample(info[0])
