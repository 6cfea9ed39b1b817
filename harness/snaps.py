"""Random snapshots, the reads made of them and the cases for SnapshotTrace (C22, C27)."""
import os
import re
import struct
import numpy as np
from core import *

F = ["pos", "vel", "mass", "ids"]
BLOCK = {"pos": "POS ", "vel": "VEL ", "mass": "MASS", "ids": "ID  "}
SYS = [("Mpc/h", "E+10Msun/h", "km/s"), ("kpc/h", "E+10Msun/h", "km/s"), ("kpc", "Msun", "km/s"), ("Mpc", "Msun/h", "1e4"), ("Gpc/h", "E+10Msun", "km/s")]


def halves(u):
    hi, lo = struct.unpack(">ii", struct.pack(">Q", int(u)))
    return [hi, lo]


def ids_of(a):
    return [halves(int(x)) for x in np.ravel(a)]


STORED = {"ACCE": range(6), "AGE ": (4,), "Z   ": (0, 4), "BHMA": (5,), "BHMD": (5,)}     # Stored in module Snapshot
EXTRA = ["U   ", "RHO ", "VOL ", "CMCE", "AREA", "NFAC", "NE  ", "NH  ", "HSML", "SFR ", "AGE ", "Z   ", "BHMA", "BHMD"]
LAYOUT = [EXTRA[:2] + EXTRA[6:], EXTRA[:3] + EXTRA[6:], EXTRA]


def entries(rng, b, n, f):
    if b == "NFAC":
        return [int(x) for x in rng.integers(-2 ** 62, 2 ** 62, n)]
    return f(rng.normal(0, 30, (n, 3)) if b in ("CMCE", "ACCE") else 10 ** rng.uniform(-4, 4, n))


def entry(b, a):
    return [halves(int(x) % 2 ** 64) for x in np.ravel(a)] if b == "NFAC" else RM(a) if b in ("CMCE", "ACCE") else RS(a)


def random_snapshot(rng, single, wide=True, maxn=9, more=()):
    """h (header) and files: the abstract content; single: values representable in single precision."""
    nf = int(rng.choice([1, 1, 2, 3, 4]))
    present = [t for t in range(6) if rng.random() < 0.55] or [1]
    if rng.random() < 0.8 and 1 not in present:
        present.append(1)
    npart = np.zeros((nf, 6), int)
    for t in present:
        npart[:, t] = rng.integers(0, maxn, nf)
        if rng.random() < 0.25:
            npart[rng.integers(0, nf), t] = 0
    if npart.sum() == 0:
        npart[0, present[0]] = 3
    table = [float(10 ** rng.uniform(-3, 2)) if rng.random() < 0.5 else 0.0 for _ in range(6)]
    f = (lambda a: np.float64(np.float32(a))) if single else np.float64
    z = float(rng.choice([0, 0, rng.uniform(0.1, 8), rng.uniform(0.1, 8), -rng.uniform(0.05, 0.4)]))     # negative: in the future
    h = {"time": 1 / (1 + z), "redshift": z, "box": float(rng.uniform(1, 500)), "omegam": float(rng.uniform(0.1, 1)), "omegal": float(rng.uniform(0, 0.9)),
         "hubble": 0.6774, "table": table, "nall": [int(x) for x in npart.sum(0)], "files": nf, "sfr": 0, "feedback": int(rng.integers(0, 2)), "cooling": int(rng.integers(0, 2))}
    files = []
    ctr = int(rng.integers(1, 1000)) + (int(rng.choice([0, 2 ** 33, 2 ** 53 + 1, 2 ** 62])) if wide else 0)
    for k in range(nf):
        d = {"npart": [int(x) for x in npart[k]]}
        for n in F:
            d[n] = []
        for t in range(6):
            c = npart[k, t]
            d["pos"].append(f(rng.uniform(-1, h["box"], (c, 3))))
            d["vel"].append(f(rng.normal(0, 300, (c, 3))))
            d["mass"].append(f(10 ** rng.uniform(-3, 3, c)) if table[t] == 0 else np.zeros(0))
            d["ids"].append([ctr + 3 * j for j in range(c)][::(-1 if t % 2 else 1)])
            ctr += 3 * int(c)
        d["more"] = {}
        for b in more:
            d["more"][b] = [entries(rng, b, int(npart[k, t]) if t in STORED.get(b, (0,)) else 0, f) for t in range(6)]
        files.append(d)
    return h, files


def encode(h, files):
    e = {k: R(v) for k, v in h.items() if isinstance(v, float)}
    e.update(table=RS(h["table"]), nall=h["nall"], files=h["files"], sfr=h["sfr"], feedback=h["feedback"], cooling=h["cooling"], format=h["format"])
    return e, [{"npart": d["npart"], "pos": [RM(a) for a in d["pos"]], "vel": [RM(a) for a in d["vel"]], "mass": [RS(a) for a in d["mass"]],
                "ids": [[halves(x) for x in a] for a in d["ids"]], "more": {b: [entry(b, a) for a in x] for b, x in d.get("more", {}).items()} or {"none": []}} for d in files]


def got_header(x, part, rate=True):
    """x: dict of attributes of a header object."""
    num = lambda a: R(float(np.ravel(a)[0]))
    return {"time": num(x["time"]), "redshift": num(x["redshift"]), "box": num(x["boxsize"]), "omegam": num(x["omega_m"]), "omegal": num(x["omega_l"]), "hubble": num(x["hubble"]),
            "table": RS(x["massarr"]), "npart": [int(v) for v in x["npart"]], "nall": [int(v) for v in x["nall"]], "files": int(x["filenum"]), "cooling": int(x["cooling"]),
            "format": str(x["format"]), "part": part, "rate": [num(x["Hubble"])] if rate else []}


def got_field(field, x):
    x = np.asarray(x)
    return entry(field, x) if field in EXTRA or field == "ACCE" else ids_of(x) if field == "ids" else RM(x) if field in ("pos", "vel") else RS(x)


def units_op(which, u, h=0.6774):
    return ("fn", "update%sUnitSystem" % which, [], {"length_in_cm": u[0], "mass_in_g": u[1], "velocity_in_cm_per_s": u[2] if "/" in u[2] else float(u[2]), "little_h": h})


def in_units(u, h=0.6774):
    return units_op("In", u, h)


def system(u, h=0.6774):
    """The record of a unit system, as module Units has it."""
    return {"len": u[0], "mass": u[1], "vel": u[2], "h": repr(h)}


class Reads:
    """The operations of one case and the encoding of what they returned."""

    def __init__(self, h, files):
        self.h, self.files, self.ops, self.recs = h, files, [], []

    def op(self, o, rec=None):
        self.ops.append(o)
        self.recs.append(rec)

    def collect(self, ctx, res, where):
        reads = []
        for o, rec, x in zip(self.ops, self.recs, res):
            if rec is None:
                if x[0] != "ok":
                    ctx.violation("exception %s" % (o[1:3],), "%s raised %s" % (str(o)[:200], x[1:3]), dict(where, operation=o))
                continue
            if rec["what"] == "error":
                reads.append(dict(rec, got="" if x[0] == "ok" else x[1]))
                continue
            if x[0] != "ok":
                ctx.violation("exception %s %s" % (rec.get("via"), rec.get("field", "header")), "%s raised %s: %s" % (o[:3], x[1], x[2]), dict(where, operation=o))
                continue
            try:
                reads.append(dict(rec, got=got_header(x[1], rec["part"], rec["rate"]) if rec["what"] == "header" else got_field(rec["field"], x[1])))
            except (TypeError, ValueError, IndexError, KeyError) as e:
                ctx.violation("form", "%s returned something else than documented: %s" % (o[:3], e), dict(where, operation=o))
        return reads
