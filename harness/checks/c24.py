"""C24: the protocol is model-checked (MpiGroups); real mpirun runs with various process counts, every process's lists judged by GroupsTrace."""
import numpy as np
import gadget_io
from core import *
from snaps import SYS, in_units, system
from groups import *



def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return a == b


def catalogue(ctx, rng, name, n, nfiles):
    files = random_groups(rng, n, nfiles, grouped=bool(rng.random() < 0.5))
    gd = os.path.join(ctx.tmp, name)
    gadget_io.write_groups(gd, files, snap="%03d" % int(rng.integers(0, 120)), order=[int(x) for x in rng.permutation(nfiles)])
    return files, gd


def session(ctx, rng, name, nfiles):
    """Catalogues read twice by everybody, with another unit system and type in between."""
    files, gd = catalogue(ctx, rng, name, 250 if nfiles == 12 else int(rng.integers(1, 30)), nfiles)
    ops, recs = [], []
    for a in range(3):
        unit = SYS[int(rng.integers(0, len(SYS)))]
        df, t = str(rng.choice(["Rvir", "R200"])), int(rng.choice([0, 1, 4]))
        lh = [0.6774, 0.6774, 0.7][int(rng.integers(0, 3))]
        ops += [in_units(unit, lh)]
        recs += [None]
        for _ in range(1 + (a == 0)):
            ops.append(("fn", "gadget.read_fof.getFoFSHData", [gd, df, t]))
            recs.append({"what": "lists", "t": t + 1, "def": df, "unit": system(unit, lh)})
    return files, ops, recs


def analysis(ctx, rng, name, nfiles, empty):
    """A whole analysis of a small snapshot."""
    files = [dict(group_len=np.zeros((0, 6), int), nsubs=[], rvir=[], r200=[], sub_len=np.zeros((0, 6), int)) for _ in range(nfiles)]
    pos, where = [], sorted(int(x) for x in rng.permutation(nfiles)[:nfiles - empty])
    for k in range(4):
        m = int(rng.integers(60, 90))
        f = files[where[k * len(where) // 4]]
        one = np.zeros((1, 6), int)
        one[0, 1] = m
        f["group_len"] = np.vstack((f["group_len"], one))
        f["sub_len"] = np.vstack((f["sub_len"], one))
        f["nsubs"], f["rvir"], f["r200"] = f["nsubs"] + [1], f["rvir"] + [1.0 + 0.1 * k], f["r200"] + [1.2]
        pos.append(np.array([2.0 + 2 * k, 5, 5]) + rng.normal(0, [0.5, 0.35, 0.25], (m, 3)))
    pos = np.concatenate(pos)
    d = os.path.join(ctx.tmp, name)
    gadget_io.write_groups(os.path.join(d, "groups"), files)
    p = os.path.join(d, "snap_000")
    tot = len(pos)
    gadget_io.write_snapshot(p, {1: dict(pos=pos % 10, vel=rng.normal(0, 1, (tot, 3)), mass=np.full(tot, 1.0), ids=np.arange(tot, dtype=np.uint64))}, boxsize=10.0,
                             nfiles=2, splits={1: [tot // 3, tot - tot // 3]})
    kz = {"ROverR200": np.array([0.5, 1.0]), "IT_TOL": 1e-2, "IT_WALL": 100, "IT_MIN": 10, "REDUCED": False, "SHELL_BASED": False}
    rr = np.array([0.2, 0.5, 1.0])

    def ops(dest):
        os.makedirs(dest, exist_ok=True)
        o = ["call", "o"]
        return [("new", "o", "DensShapeProfsGadget", [p, os.path.join(d, "groups"), "dm", "000", dest + "/viz", dest + "/cat"], {"MIN_NUMBER_PTCS": 50, "CENTER": "com"}),
                ("call", "o", "getIdxCat", []), ("call", "o", "getR200", []), ("call", "o", "getXYZMasses", []), ("call", "o", "getVelXYZ", []),
                ("call", "o", "getMassesCenters", [[0, 2]]),
                ("call", "o", "estDensProfs", [rr, [0, 1, 3]], {"direct_binning": True}),
                ("call", "o", "estConcentrations", [np.array([[5.0, 2.0, 0.5]]), rr, {"profile": "nfw"}, [1]]),
                ("call", "o", "getShapeCatLocal", [[0, 1], kz]), ("call", "o", "getShapeCatGlobal", [[2, 3], kz]),
                ("call", "o", "getShapeCatVelLocal", [[1], kz]),
                ("call", "o", "dumpShapeCatGlobal", [[0, 1, 2], kz]), ("call", "o", "dumpShapeVelCatLocal", [[0], kz]), ("call", "o", "dumpShapeCatLocal", [[0, 1], kz]), ("call", "o", "dumpShapeVelCatGlobal", [[0], kz]),
                ("call", "o", "getHeader", []), ("call", "o", "getObjInfo", []), ("call", "o", "getObjInfoGadget", []),
                ("call", "o", "estDensProfs", [rr, [0, 2]], {"direct_binning": False}),
                ("call", "o", "estDensProfs", [rr, [0, 2]], {"direct_binning": True, "spherical": False, "katz_config": kz}),
                ("call", "o", "fitDensProfs", [np.array([[5.0, 2.0, 0.5]]), rr, {"profile": "nfw"}, [1]]),
                ("call", "o", "plotDensProfs", [np.array([[5.0, 2.0, 0.5], [4.0, 2.0, 0.7]]), rr, np.array([[5.0, 2.0, 0.5], [4.0, 2.0, 0.7]]), rr, {"profile": "nfw"}, 1, [1, 2]]),
                ("call", "o", "vizLocalShapes", [[0], kz]), ("call", "o", "vizGlobalShapes", [[1], kz]),
                ("call", "o", "plotGlobalEpsHist", [5, [0, 1]]), ("call", "o", "plotLocalEpsHist", [0.5, 5, [0, 1]]),
                ("call", "o", "plotLocalTHist", [5, 0.5, [0, 1], kz]), ("call", "o", "plotGlobalTHist", [5, [0, 1], kz]), ("call", "o", "plotShapeProfs", [1, [0, 1, 2], kz]),
                ("new", "d", "DensShapeProfs", [pos % 10, np.full(tot, 1.0), [list(range(60)), list(range(sum(f["group_len"][:, 1].sum() for f in files) - 60, tot))], np.array([1.0, 1.3]), 10.0,
                                                "001", dest + "/viz", dest + "/cat"], {"MIN_NUMBER_PTCS": 50, "CENTER": "com"}),
                ("call", "d", "getIdxCat", []), ("call", "d", "getR200", []), ("call", "d", "getXYZMasses", []), ("call", "d", "getMassesCenters", [[0, 1]]),
                ("call", "d", "getShapeCatLocal", [[1], kz]), ("call", "d", "getShapeCatGlobal", [[0, 1], kz]), ("call", "d", "estDensProfs", [rr, [0, 1]], {"direct_binning": True}),
                ("call", "d", "dumpShapeCatLocal", [[0, 1], kz]), ("call", "d", "plotShapeProfs", [1, [0, 1], kz]), ("call", "d", "getObjInfo", [])]
    return ops, where


def run(ctx):
    ctx.model_check("MpiGroups", "SPECIFICATION Spec\nCONSTANTS MaxRanks = %d MaxFiles = %d MaxCount = %d PieceLimits = {2%s, 100}\nINVARIANTS Dealt Complete Partial CanGo\n"
                    % ctx.n((4, 5, 1, ""), (4, 5, 2, ", 3")), timeout=3000)
    rng = ctx.np_rng()
    probe, rc, log = ctx.drive("mpi", [[("set", "x", 1)]], timeout=120, mpi=2, allow_fail=True)
    if probe is None or rc != 0:
        raise ToolError("mpirun does not work here: %s\n%s" % (rc, log[-2000:]))
    cases, info = [], []
    for size in ctx.n([1, 2, 3, 5, 8], [1, 2, 3, 4, 5, 6, 7, 8, 11, 16]):
        counts = sorted({1, max(1, size - 1), size, size + 1, 2 * size - 1, 2 * size + 1, int(rng.integers(1, 14))} | ({12} if size > 1 else set()))
        runs = [session(ctx, rng, "s%d_%d" % (size, m), m) for m in counts for _ in range(ctx.n(1, 4))]
        sessions = [r[1] for r in runs]
        whole = []
        if size in ctx.n((2, 3), (2, 3, 4, 7)):
            ops, where = analysis(ctx, rng, "a%d" % size, int(rng.integers(4, 7)), int(rng.integers(0, 2)))
            one, many = os.path.join(ctx.tmp, "out%d_1" % size), os.path.join(ctx.tmp, "out%d_n" % size)
            whole = [ops(many)]
            alone = ctx.drive("session", [ops(one)])[0]
        res, rc, log = ctx.drive("mpi", sessions + whole, timeout=200, mpi=size, allow_fail=True, env={"OMP_NUM_THREADS": "1" if size > 3 else "2"})
        at = {"processes": size, "files": counts}
        if res is None or rc != 0:
            # on its own, session by session, to name the one that fails
            at["what ended it"] = str(rc)
            ctx.violation("hang" if rc == "timeout" else "abort", "mpirun with %d processes %s" % (size, "never returned" if rc == "timeout" else "ended with %s: %s" % (rc, log[-400:])), at)
            continue
        for (files, ops, recs), perrank in zip(runs, res):
            for rank, x in enumerate(perrank):
                reads, w = [], {"processes": size, "process": rank, "counts per file": [len(f["nsubs"]) for f in files]}
                for o, rec, v in zip(ops, recs, x):
                    if rec is None:
                        continue
                    if v[0] != "ok":
                        ctx.violation("exception", "%s raised %s: %s" % (o[:3], v[1], v[2]), w)
                        continue
                    reads.append(dict(rec, got=got_lists(v[1])))
                cases.append({"files": encode(files), "reads": reads})
                info.append(w)
        for o, got in zip(whole, res[len(sessions):]):
            for k, (op, a) in enumerate(zip(o, alone)):
                ctx.cov["mpi_calls"] = ctx.cov.get("mpi_calls", 0) + 1
                what = {"processes": size, "operation": [str(y) for y in op[:4]], "files": where}
                if a[0] != "ok":
                    ctx.violation("single " + str(op[2]), "%s on its own raised %s" % (op[2], a[1:3]), what)
                    continue
                if got[0][k][0] != "ok" or not same(a[1], got[0][k][1]):
                    ctx.violation("root " + op[2], "process 0 of %d: %s differs from a single process" % (size, op[2]), dict(what, got=repr(got[0][k][1])[:500], alone=repr(a[1])[:500]))
                for r in range(1, size):
                    if got[r][k][0] != "ok":
                        ctx.violation("other " + op[2], "process %d of %d: %s raised %s" % (r, size, op[2], got[r][k][1:3]), what)
            a, b = ({f: open(os.path.join(root, f), "rb").read() if not f.endswith(".pdf") else "" for root, _, fs in os.walk(x) for f in fs} for x in (one, many))
            if a != b:
                ctx.violation("dumped files", "%d processes write other catalogues than one" % size, {"processes": size, "one": sorted(a), "many": sorted(b)})
    ctx.judge("GroupsTrace", cases, lambda i: info[i], label="processes", key=lambda i, w: " ".join(sorted(set(w.split()))))
    ctx.sample(info[-1])
