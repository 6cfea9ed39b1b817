"""Cases for module Relate: the answers about single halos, field by field."""
import numpy as np
from core import R, RS, unR

KIND = {"d": ("rel", 1e-9), "q": ("rel", 1e-6), "s": ("rel", 1e-6), "is_conv": ("same", 0), "major": ("axis", 1e-5), "inter": ("axis", 1e-5), "minor": ("axis", 1e-5),
        "mass": ("rel", 1e-6), "centre": ("pos", 1e-7), "rho": ("rel", 1e-6), "size": ("same", 0)}


def fld(name, v, kind=None, tol=None):
    k, t = KIND.get(name, ("rel", 1e-6))
    return {"kind": kind or k, "v": RS(np.asarray(v, float).reshape(-1)), "tol": R(t if tol is None else tol)}


def row(call, res, k, tols=None):
    """The fields of halo row k of one answer, prefixed with the name of the call."""
    out = {}
    tols = tols or {}
    if getattr(res, "dtype", None) is not None and res.dtype.names:
        for n in res.dtype.names:
            out[call + "." + n] = fld(n, res[n][k], tol=tols.get(n))
    else:
        out[call + ".rho"] = fld("rho", res[k], tol=tols.get("rho"))
    return out


def describe(c):
    d = lambda r: {n: [unR(x) for x in f["v"]] for n, f in r.items()}
    return {"how": c["how"], "shift": [unR(x) for x in c["shift"]], "box": unR(c["L"]), "base": d(c["base"]), "observed": d(c["obs"]), "input": c.get("input")}
