"""C19: the analytic models against their formulae in module Models, at random and extreme parameters."""
import numpy as np
from core import *


def run(ctx):
    ctx.model_check("ModelsMC", "SPECIFICATION Spec\nCONSTANT Fine = %s\nINVARIANTS AtScale Special Scales Falls Slopes\n" % ("FALSE" if ctx.tier == "quick" else "TRUE"), timeout=3000)
    rng = ctx.np_rng()
    fn = {"einasto": "getEinastoProf", "alpha_beta_gamma": "getAlphaBetaGammaProf", "nfw": "getNFWProf", "hernquist": "getHernquistProf"}
    need = {"einasto": ["rho_s", "alpha", "r_s"], "alpha_beta_gamma": ["rho_s", "alpha", "beta", "gamma", "r_s"], "nfw": ["rho_s", "r_s"], "hernquist": ["rho_s", "r_s"]}
    ops, meta = [], []
    for k in range(ctx.n(320, 4000)):
        m = sorted(fn)[k % 4]
        p = {"rho_s": float(10 ** rng.uniform(-6, 18)), "r_s": float(10 ** rng.uniform(-3, 3)), "alpha": float(rng.uniform(0.08, 3)), "beta": float(rng.uniform(0, 6)), "gamma": float(rng.uniform(0, 2.5))}
        if k % 5 == 0:      # NFW and Hernquist in disguise, whole-numbered parameters, cored and isothermal profiles
            p.update([{"alpha": 1, "beta": 3, "gamma": 1}, {"alpha": 1, "beta": 4, "gamma": 1}, {"alpha": 2, "beta": 2, "gamma": 0}, {"alpha": 1, "beta": 2, "gamma": 2}][k // 5 % 4])
        nr = int(rng.integers(1, 7))
        r = p["r_s"] * 10 ** rng.uniform(-3, 2, nr)
        if k % 3 == 0:
            r[0] = p["r_s"]
        scalar = k % 4 == (k // 4) % 4
        arg = float(r[0]) if scalar else r
        pp = {n: p[n] for n in need[m]}
        names = list(pp)
        rng.shuffle(names)
        ops.append(("fn", fn[m], [arg, {n: pp[n] for n in names}]))
        meta.append((m, p, np.atleast_1d(arg), scalar))
    res = ctx.drive("session", [ops], timeout=300)[0]
    cases, info = [], []
    for (m, p, r, scalar), x in zip(meta, res):
        if x[0] != "ok":
            ctx.violation("exception", "%s raised %s" % (fn[m], x[1:3]), {"model": m, "parameters": p, "r": r})
            continue
        if x[2]:
            ctx.violation("arguments", "%s changed its arguments: %s" % (fn[m], x[2]), {"model": m, "parameters": p})
        if scalar and np.ndim(x[1]) != 0:
            ctx.violation("shape", "%s of a number is an array" % fn[m], {"model": m, "parameters": p, "r": r})
        cases.append({"model": m, "p": {k: R(p[k]) for k in p}, "r": RS(r), "v": RS(np.atleast_1d(x[1])), "shape": "scalar" if scalar else "array"})
        info.append({"model": m, "parameters": p, "r": r, "values": x[1]})
    ctx.judge("ModelTrace", cases, lambda i: info[i], label="models")
    ctx.sample(info[0])
