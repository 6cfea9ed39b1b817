"""C21: samplers and Fibonacci points against module Sampling."""
import numpy as np
from core import *

PR = "common.python_routines."


def run(ctx):
    rng = ctx.np_rng()
    ops, cases, info = [], [], []

    def add(name, args, case, kw=None):
        ops.append(("fn", name, args) + ((kw,) if kw else ()))
        cases.append(case)
        info.append({"call": name, "args": args})

    def axes(n, similar, dims):
        a = np.sort(10 ** rng.uniform(-2, 2, n))
        if similar:
            return a, a * rng.uniform(0.2, 1), a * rng.uniform(0.2, 1) if dims == 3 else None
        return a, np.sort(a * rng.uniform(0.3, 1, n)), np.sort(a * rng.uniform(0.3, 1, n)) if dims == 3 else None
    for k in range(ctx.n(22, 150)):
        dims = 2 if k % 4 == 3 else 3
        n = int(rng.integers(1, 6))
        a, b, c = axes(n, k % 2 == 0, dims)
        e = int(rng.integers(0, n))
        num = rng.integers(0, 30, n)
        num[e] = int([1800, 1, 1200, 0, 7, 600][k % 6]) if k % 11 else 2500
        cc = c if c is not None else np.array([None] * n) if k % 8 == 3 else None
        ax = [a[e], b[e]] + ([c[e]] if dims == 3 else [])
        args = [dims, a, b, cc, num, e]
        add("drawUniformFromEllipsoid", args, {"what": "ball", "axes": RS(ax), "n": int(num[e]), "nb": e})
        e = int(rng.integers(0, n)) if k % 5 else 0
        num = num.copy()
        num[e] = int([1800, 1200, 9, 600][k % 4])
        ax = np.array([a[e], b[e]] + ([c[e]] if dims == 3 else []))
        inn = np.array([a[e - 1], b[e - 1]] + ([c[e - 1]] if dims == 3 else [])) if e else None
        args = [dims, a, b, cc, num, e]
        f = float(inn[0] / ax[0]) if e else 0.0
        sim = bool(e == 0 or np.allclose(inn / ax, f, rtol=1e-12))
        if f > 0.999:
            sim = False
        add(PR + "drawUniformFromShell", args, {"what": "shell", "axes": RS(ax), "inner": RS(inn) if e else [], "similar": sim, "f": R(f), "n": int(num[e])})
    for k in range(ctx.n(120, 1500)):
        n = int(rng.integers(1, 5))
        a, b, c = axes(n, k % 2 == 0, 3)
        e = int(rng.integers(0, n))
        near = int(rng.integers(max(0, e - 1), e + 1))
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        x = u * np.array([a[near], b[near], c[near]]) * rng.choice([0.3, 0.99, 1.01, 1.5, 1 - 1e-7, 1 + 1e-7])
        add(PR + "inShell", [x, a, b, c, e], {"what": "member", "axes": RM(np.transpose([a, b, c])), "k": e + 1, "x": RS(x)})
    for n in list(range(1, 13)) + [int(t) for t in rng.integers(13, 70, ctx.n(8, 60))]:
        add("fibonacci_sphere", [n], {"what": "fib", "axes": RS([1, 1, 1]), "n": n})
        ax = [float(t) for t in 10 ** rng.uniform(-2, 2, 3)]
        add("fibonacci_ellipsoid", ax + [n], {"what": "fib", "axes": RS(ax), "n": n})
    add("fibonacci_sphere", [], {"what": "fib", "axes": RS([1, 1, 1]), "n": 1})
    res = ctx.drive("session", [ops], timeout=600)[0]
    ok, oki = [], []
    for c, x, j in zip(cases, res, info):
        if x[0] != "ok":
            ctx.violation("exception", "%s raised %s: %s" % (j["call"], x[1], x[2]), j)
            continue
        if x[2]:
            ctx.violation("arguments", "%s changed its arguments: %s" % (j["call"], x[2]), j)
        try:
            if c["what"] == "ball":
                c["x"], c["gotnb"] = RM(x[1][0]), int(x[1][1])
            elif c["what"] == "member":
                c["got"] = bool(x[1])
            else:
                c["x"] = RM(x[1])
        except (TypeError, ValueError, IndexError) as e:
            ctx.violation("form", "%s returned something else than documented: %s" % (j["call"], e), dict(j, result=x[1]))
            continue
        ok.append(c)
        oki.append(j)
    ctx.judge("SamplingTrace", ok, lambda i: oki[i], label="samples")
    ctx.sample(oki[0])
