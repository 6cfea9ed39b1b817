"""C22: HDF5 snapshots, in one or several files, read directly and through DensShapeProfsGadget; judged by SnapshotTrace."""
import h5py
import numpy as np
import gadget_io
from core import *
from snaps import *

RG = "gadget.readgadget."
OBJ = {0: "gas", 1: "dm", 4: "stars"}
NAME = {"pos": "Coordinates", "vel": "Velocities", "mass": "Masses", "ids": "ParticleIDs"}


def spread(rng, h, files, nf):
    """The same snapshot cut into nf files."""
    cat = {n: [sum((list(f[n][t]) for f in files), []) for t in range(6)] for n in F}
    cut = [np.sort(rng.integers(0, h["nall"][t] + 1, nf - 1)) for t in range(6)]
    r = []
    for k in range(nf):
        d = {"npart": []}
        for n in F:
            d[n] = []
        for t in range(6):
            e = [0] + [int(x) for x in cut[t]] + [h["nall"][t]]
            d["npart"].append(e[k + 1] - e[k])
            for n in F:
                a = cat[n][t][e[k]:e[k + 1]]
                d[n].append(np.array(a).reshape(-1, 3) if n in ("pos", "vel") else a)
        r.append(d)
    h["files"] = nf
    return r


def write(path, h, files, double, empty, drop, idtype):
    ft = np.float64 if double else np.float32
    names = []
    for k, d in enumerate(files):
        names.append("%s.hdf5" % path if len(files) == 1 else "%s.%d.hdf5" % (path, k))
        with h5py.File(names[-1], "w") as f:
            a = f.create_group("Header").attrs
            a["Time"], a["Redshift"], a["BoxSize"] = h["time"], h["redshift"], h["box"]
            a["NumFilesPerSnapshot"], a["Omega0"], a["OmegaLambda"], a["HubbleParam"] = h["files"], h["omegam"], h["omegal"], h["hubble"]
            a["MassTable"], a["NumPart_ThisFile"] = np.array(h["table"]), np.int32(d["npart"])
            a["NumPart_Total"], a["Flag_Cooling"] = np.uint32(h["nall"]), h["cooling"]
            for t in range(6):
                if d["npart"][t] == 0 and not (empty and h["nall"][t]):
                    continue
                g = f.create_group("PartType%d" % t)
                for n in F:
                    if (n, t) in drop or (n == "mass" and h["table"][t]):
                        continue
                    v = d[n][t]
                    g.create_dataset(NAME[n], data=np.array(v, idtype) if n == "ids" else np.array(v, ft).reshape((-1, 3) if n in ("pos", "vel") else -1))
    return names


def run(ctx):
    rng = ctx.np_rng()
    sessions, runs = [], []
    for k in range(ctx.n(60, 500)):
        double = k % 2 == 0
        wide = k % 3 == 0
        h, files = random_snapshot(rng, not double, wide, maxn=900 if k % 60 == 7 else 12)
        h["format"] = "hdf5"
        if k % 4 == 3:
            files = spread(rng, h, files, int(rng.choice([2, 5, 11, 12])))
        have = [t for t in range(6) if h["nall"][t]]
        drop = set()
        if k % 3 == 1:
            t = int(rng.choice(have))
            drop.add((str(rng.choice(["pos", "vel", "ids", "mass"])), t))
        drop = {(n, t) for n, t in drop if not (n == "mass" and h["table"][t])}
        d = os.path.join(ctx.tmp, "hsnap%d" % k)
        os.makedirs(d)
        p = os.path.join(d, "snap_%03d" % k)
        names = write(p, h, files, double, rng.random() < 0.5, drop, np.uint64 if wide else np.uint32 if k % 2 else np.int64)
        r = Reads(h, files)
        unit, out = SYS[int(rng.integers(0, len(SYS)))], SYS[int(rng.integers(0, len(SYS)))]
        lh = [0.6774, 0.7, 1.0][k % 3]
        un, ou, internal = system(unit, lh), system(out, lh), system(SYS[0], lh)
        r.op(in_units(unit, lh))
        r.op(units_op("Out", out, lh))
        arg = p if len(names) > 1 or rng.random() < 0.6 else names[0]
        r.op(("fn", RG + "header", [arg]), {"what": "header", "part": 1, "rate": True, "via": "readgadget"})
        j = int(rng.integers(0, len(names)))
        r.op(("fn", RG + "header", [names[j]]), {"what": "header", "part": j + 1, "rate": True, "via": "readgadget"})
        for f in F:
            ts = [int(t) for t in rng.permutation(have)[:int(rng.integers(1, len(have) + 1))]]
            gone = any((f, t) in drop for t in ts)
            r.op(("fn", RG + "read_block", [arg, BLOCK[f], ts]), {"what": "error", "field": "missing-" + f} if gone else
                 {"what": "field", "field": f, "types": [t + 1 for t in ts], "unit": un, "out": internal, "raw": False, "via": "readgadget"})
            for n, t in drop:
                if n == f:
                    r.op(("fn", RG + "read_block", [arg, BLOCK[f], [t]]), {"what": "error", "field": "missing-" + f})
        r.op(("fn", RG + "read_block", [os.path.join(d, "snap"), "POS ", [have[0]]]), {"what": "error", "field": "missing-file"})
        r.op(("fn", RG + "read_block", [arg, "POT ", [have[0]]]), {"what": "error", "field": "unknown-block"})
        if len(names) > 1 and k % 5 == 0:        # one piece of the snapshot is gone
            r.op(("mv", names[-1], names[-1] + ".gone"))
            r.op(("fn", RG + "read_block", [p, "POS ", [have[0]]]), {"what": "error", "field": "missing-piece"})
            r.op(("mv", names[-1] + ".gone", names[-1]))
        obj = [t for t in OBJ if h["nall"][t] and (("pos", t) not in drop and ("mass", t) not in drop)]
        if obj:
            t = int(rng.choice(obj))
            gd = os.path.join(d, "groups")
            gadget_io.write_groups(gd, [dict(group_len=[h["nall"][t]], nsubs=[1], rvir=[1.0], r200=[1.0], sub_len=[h["nall"][t]], ptype=t)])
            cat = {"types": [t + 1], "unit": un, "out": ou, "raw": False, "via": "class", "what": "field"}
            r.op(("new", "o", "DensShapeProfsGadget", [arg, gd, OBJ[t], "%03d" % k, d, d], {"MIN_NUMBER_PTCS": 1, "CENTER": "com"}))
            for n in range(2):      # twice: nothing is converted again
                r.op(("call", "o", "getXYZMasses", []), dict(cat, pair=True, field="pos"))
                r.op(("call", "o", "getVelXYZ", []), {"what": "error", "field": "missing-vel"} if ("vel", t) in drop else dict(cat, field="vel"))
            r.op(("call", "o", "getHeader", []), {"what": "header", "part": 1, "rate": True, "via": "class"})
        sessions.append(r.ops)
        runs.append((r, drop, names))
    res = ctx.drive("session", {"sessions": sessions, "fork": True, "jobs": 8}, timeout=600)
    cases, info = [], []
    for (r, drop, names), x in zip(runs, res):
        where = {"header": r.h, "counts": [f["npart"] for f in r.files], "missing": sorted(drop)}
        ops, recs, vals = [], [], []
        for o, rec, v in zip(r.ops, r.recs, x):
            if rec and rec.get("pair"):
                q = {a: b for a, b in rec.items() if a != "pair"}
                ok = v[0] == "ok" and len(v[1]) == 2
                for f, z in (("pos", 0), ("mass", 1)):
                    ops.append(o), recs.append(dict(q, field=f)), vals.append(("ok", v[1][z], v[2]) if ok else v if v[0] != "ok" else ("ok", None, []))
            else:
                ops.append(o), recs.append(rec), vals.append(v)
        r.ops, r.recs = ops, recs
        eh, ef = encode(r.h, r.files)
        cases.append({"h": eh, "files": ef, "reads": r.collect(ctx, vals, where)})
        info.append(where)
    ctx.judge("SnapshotTrace", cases, lambda i: info[i], label="snapshots", key=lambda i, w: " ".join(sorted(set(w.split()))))
    ctx.sample(info[0])
