"""C23: group files of known content, read by getFoFSHData, calcObjCat and DensShapeProfsGadget; judged by GroupsTrace."""
import re
import numpy as np
import gadget_io
from core import *
from snaps import SYS, in_units, system, units_op
from groups import *

DEF = {"Rvir": "rvir", "R200": "r200"}


def numbers(text):
    n = [int(m.group(1)) for m in (re.search(r"(?:: | is )(\d+)\s*$", l) for l in text.splitlines()) if m]
    if len(n) != 6:
        raise ValueError(text)
    return dict(zip(("halos", "withsubs", "groups", "subs", "nosubs", "resolved"), n))


def case(ctx, rng, k):
    nfiles = int(rng.choice([1, 1, 2, 3, 5, 12]))
    n = int(rng.integers(1, 14)) if k % 3 else int(rng.integers(14, 40))
    if k % 40 == 11:
        n, nfiles = 260, 30
    files = random_groups(rng, n, nfiles, biggest=300 if k % 20 == 3 else 9, grouped=bool(rng.random() < 0.5), childless=k % 13 == 5)
    d = os.path.join(ctx.tmp, "groups%d" % k)
    gd = os.path.join(d, "g%d" % int(rng.integers(0, 30)))
    order = [int(x) for x in rng.permutation(nfiles)]
    gadget_io.write_groups(gd, files, snap="%03d" % int(rng.integers(0, 120)), order=order)
    tot = particles(files) + rng.integers(1, 4, 6)
    parts = {t: dict(pos=rng.uniform(0, 10, (tot[t], 3)), vel=rng.normal(0, 1, (tot[t], 3)), mass=rng.uniform(0.5, 2.0, tot[t]), ids=np.arange(tot[t], dtype=np.uint64))
             for t in (0, 1, 4)}
    snap = os.path.join(d, "snap_000")
    gadget_io.write_snapshot(snap, parts, boxsize=10.0)
    unit, out = SYS[int(rng.integers(0, len(SYS)))], SYS[int(rng.integers(0, len(SYS)))]
    lh = float(rng.choice([0.6774, 0.7, 1.0]))
    un, ou = system(unit, lh), system(out, lh)
    ops, recs = [], []

    def op(o, rec=None):
        ops.append(o)
        recs.append(rec)
    op(in_units(unit, lh))
    op(units_op("Out", out, lh))
    glen, sub = (np.concatenate([f[x] for f in files]) for x in ("group_len", "sub_len"))
    nsubs = np.concatenate([f["nsubs"] for f in files]).astype(np.int32)
    chosen = [str(x) for x in rng.permutation(list(TYPES))]
    central = sorted({int(sub[sum(nsubs[:j]), TYPES[chosen[0]]]) for j in range(n) if nsubs[j]})
    for a in range(3):
        obj, df = chosen[a % 2], str(rng.choice(list(DEF)))
        t = TYPES[obj]
        mn = int(rng.choice(central)) if central and rng.random() < 0.6 else int(rng.integers(1, 8))
        mn = max(mn, 1)
        q = {"t": t + 1, "def": df}
        op(("fn", "gadget.read_fof.getFoFSHData", [gd, df, t]), dict(q, what="lists", unit=un))
        op(("fn", "gadget.gen_catalogues.calcObjCat", [nsubs, sub[:, t].astype(np.int32), glen[:, t].astype(np.int32),
            np.concatenate([f[DEF[df]] for f in files]).astype(np.float64), mn]), dict(q, what="halos", min=mn, unit=system(SYS[0], lh)))
        some = sum(1 for j in range(n) if nsubs[j] and sub[sum(nsubs[:j]), t] >= mn)
        op(("new", "o", "DensShapeProfsGadget", [snap, gd, obj, "000", d, d], {"RVIR_OR_R200": df, "MIN_NUMBER_PTCS": mn, "CENTER": "com"}))
        q.update(min=mn)
        op(("call", "o", "getIdxCat", []), dict(q, what="cat"))
        op(("call", "o", "getR200", []), dict(q, what="radii", unit=un, out=ou))
        if some:
            op(("call", "o", "getMassesCenters", [list(range(some))]), dict(q, what="masses", mass=RS(parts[t]["mass"]), unit=un, out=ou))
        op(("say", "o", "getObjInfoGadget", []), dict(q, what="info"))
        if a == 1 and rng.random() < 0.5:    # another unit system for the same files
            unit = SYS[int(rng.integers(0, len(SYS)))]
            un = system(unit, lh)
            op(in_units(unit, lh))
    op(("fn", "gadget.read_fof.getFoFSHData", [gd, "R500", 1]), {"what": "error", "case": "definition"})
    empty = os.path.join(d, "none")
    os.makedirs(empty)
    op(("fn", "gadget.read_fof.getFoFSHData", [empty, "Rvir", 1]), {"what": "error", "case": "empty-directory"})
    return files, ops, recs, {"files": [{x: jsonable(f[x]) for x in f} for f in files], "written in order": order, "unit": unit, "out": out}


def run(ctx):
    ctx.model_check("GroupsMC", "SPECIFICATION Spec\nCONSTANTS MaxGroups = %d MaxFiles = 2 MaxSubs = %d Lens = {0, 1%s} Mins = {1, 2}\nINVARIANTS Meant Apart Uncut\n"
                    % ctx.n((2, 2, ""), (3, 1, ", 2")), timeout=3000)
    rng = ctx.np_rng()
    runs = [case(ctx, rng, k) for k in range(ctx.n(40, 400))]
    res = ctx.drive("session", {"sessions": [r[1] for r in runs], "fork": True, "jobs": 8}, timeout=800)
    cases, info = [], []
    for (files, ops, recs, where), x in zip(runs, res):
        reads = []
        for o, rec, v in zip(ops, recs, x):
            if rec is None:
                if v[0] != "ok":
                    ctx.violation("exception %s" % o[0], "%s raised %s: %s" % (o[:3], v[1], v[2]), dict(where, operation=o))
                    break
                continue
            if rec["what"] == "error":
                reads.append(dict(rec, got="" if v[0] == "ok" else v[1]))
                continue
            if v[0] != "ok":
                ctx.violation("exception %s" % rec["what"], "%s raised %s: %s" % (o[:3], v[1], v[2]), dict(where, operation=[str(y) for y in o]))
                continue
            w = rec["what"]
            try:
                g = v[1]
                got = (got_lists(g) if w == "lists" else {"idx": ints(g[0]), "radii": RS(g[1]), "sizes": ints(g[2])} if w == "halos" else
                       {"idx": ints(g[0]), "sizes": ints(g[1])} if w == "cat" else RS(g) if w == "radii" else RS(g["mass"]) if w == "masses" else numbers(g))
            except (TypeError, ValueError, IndexError, KeyError) as e:
                ctx.violation("form " + w, "%s returned something else than documented: %s" % (o[:3], e), where)
                continue
            reads.append(dict(rec, got=got))
        cases.append({"files": encode(files), "reads": reads})
        info.append(where)
    ctx.judge("GroupsTrace", cases, lambda i: info[i], label="group files", key=lambda i, w: " ".join(sorted(set(w.split()))))
    ctx.sample(info[0])
