"""C27: binary snapshots whose bytes are laid out by module GadgetBinary, read back and judged by SnapshotTrace."""
import glob
import re
import numpy as np
from core import *
from snaps import *

RS_ = "gadget.readsnap."
RG = "gadget.readgadget."
UNIT0 = system(SYS[0])


def run(ctx):
    ctx.model_check("GadgetBinaryMC", "SPECIFICATION Spec\nCONSTANTS MaxBlocks = %d MaxLen = %d\nINVARIANTS Finds Places BytesOk Singles\n" % ((2, 2) if ctx.tier == "quick" else (3, 3)), timeout=3000)
    rng = ctx.np_rng()
    gen, todo, cover = [], [], set()
    for k in range(ctx.n(60, 500)):
        prec = [8, 4][k % 2]
        wide = bool(k % 3 == 0)
        fmt = 1 + (k // 2) % 2
        layout = int(rng.integers(0, 3))
        # further blocks: in format 1 the first of the natural order, in format 2 any; or accelerations
        more = LAYOUT[layout][:int(rng.integers(1, len(LAYOUT[layout]) + 1))] if rng.random() < 0.5 else []
        if fmt == 2:
            more = [b for b in EXTRA + ["MHI ", "TEMP", "ACCE"] if rng.random() < 0.3] if more else []
        elif not more and rng.random() < 0.3:
            more = ["ACCE"]
        h, files = random_snapshot(rng, prec == 4, wide, more=more, maxn=300 if k % 60 == 7 else 9)
        h["format"] = str(fmt)
        order = ["POS ", "VEL ", "ID  "]
        has = any(len(a) for d in files for a in d["mass"])
        if has and more == ["ACCE"] and fmt == 1:
            more = []
        nomass = not has and bool(more)
        if has or (not nomass and fmt == 1 and rng.random() < 0.2):
            order.append("MASS")
        order += more
        if fmt == 2 and rng.random() < 0.6:
            order = [order[j] for j in rng.permutation(len(order))]
        cover.update(order)
        cfg = {"fmt": fmt, "big": bool(rng.random() < 0.5), "prec": prec, "wide": wide, "order": order, "layout": layout, "nomass": nomass}
        eh, ef = encode(h, files)
        gen.append({"h": eh, "files": ef, "cfg": cfg})
        todo.append((h, files, cfg, eh, ef))
    out = os.path.join(ctx.tmp, "bytes")
    os.makedirs(out)
    ctx.tlc("GadgetBinaryGen", "SPECIFICATION Spec\n", cases=gen, env={"OUT": out})
    sessions, runs = [], []
    for k, (h, files, cfg, eh, ef) in enumerate(todo):
        d = os.path.join(ctx.tmp, "snap%d" % k)
        os.makedirs(d)
        p = os.path.join(d, "snap_%03d" % k)
        parts = []
        for j in range(h["files"]):
            parts.append(p if h["files"] == 1 else "%s.%d" % (p, j))
            with open(parts[-1], "wb") as f:
                f.write(bytes(json.load(open(os.path.join(out, "%d-%d.json" % (k + 1, j + 1))))))
        r = Reads(h, files)
        unit = SYS[int(rng.integers(0, len(SYS)))]
        un = system(unit)
        r.op(in_units(unit))
        for j, part in enumerate(parts):
            r.op(("fn", RS_ + "snapshot_header", [part]), {"what": "header", "part": j + 1, "rate": False, "via": "readsnap"})
        r.op(("fn", RG + "header", [p]), {"what": "header", "part": 1, "rate": True, "via": "readgadget"})
        have = [t for t in range(6) if h["nall"][t]]
        for f in F:
            stored = f != "mass" or any(len(a) for q in files for a in q["mass"])
            for t in have:
                if rng.random() < 0.6:
                    r.op(("fn", RS_ + "read_block", [p, BLOCK[f]], {"parttype": t}), {"what": "field", "field": f, "types": [t + 1], "unit": un, "out": UNIT0, "raw": True, "via": "readsnap"})
            if stored and rng.random() < 0.6:
                r.op(("fn", RS_ + "read_block", [p, BLOCK[f]]), {"what": "field", "field": f, "types": list(range(1, 7)), "unit": un, "out": UNIT0, "raw": True, "via": "readsnap"})
            ts = [int(t) for t in rng.permutation(have)[:int(rng.integers(1, len(have) + 1))]]
            r.op(("fn", RG + "read_block", [p, BLOCK[f], ts]), {"what": "field", "field": f, "types": [t + 1 for t in ts], "unit": un, "out": UNIT0, "raw": False, "via": "readgadget"})
        for b in [b for b in cfg["order"] if b in EXTRA + ["MHI ", "TEMP", "ACCE"]]:
            stored = STORED.get(b, (0,))
            kw = {"arepo": cfg["layout"], "no_masses": cfg["nomass"]} if cfg["fmt"] == 1 else {}
            for ts in [[t] for t in stored if h["nall"][t]] + ([list(range(6))] if rng.random() < 0.5 else []):
                if all(t not in stored or not h["nall"][t] for t in ts):
                    continue
                r.op(("fn", RS_ + "read_block", [p, b], dict(kw, parttype=ts[0]) if len(ts) == 1 else kw),
                     {"what": "field", "field": b, "types": [t + 1 for t in ts if t in stored], "unit": un, "out": UNIT0, "raw": True, "via": "readsnap"})
        # what is not there is reported
        r.op(("fn", RG + "read_block", [p + "x", "POS ", [1]]), {"what": "error", "field": "missing-file"})
        r.op(("fn", RG + "header", [p + "x"]), {"what": "error", "field": "missing-file"})
        r.op(("fn", RG + "read_block", [p, "POT ", [have[0]]]), {"what": "error", "field": "unknown-block"})
        if cfg["fmt"] == 2 and "HSML" not in cfg["order"]:
            r.op(("fn", RS_ + "read_block", [p, "HSML"], {"parttype": 0}), {"what": "error", "field": "missing-block"})
        sessions.append(r.ops)
        runs.append((r, cfg, parts))
    res = ctx.drive("session", {"sessions": sessions, "fork": True, "jobs": 8}, timeout=600)
    cases, info = [], []
    for (r, cfg, parts), x, (h, files, _, eh, ef) in zip(runs, res, todo):
        where = {"header": h, "layout": cfg, "counts": [f["npart"] for f in files]}
        reads = r.collect(ctx, x, where)
        cases.append({"h": eh, "files": ef, "reads": reads})
        info.append(where)
    ctx.judge("SnapshotTrace", cases, lambda i: info[i], label="binary snapshots", key=lambda i, w: " ".join(sorted(set(w.split()))))
    ctx.cov["blocks"] = sorted(cover)
    ctx.sample(info[0])
