"""C03: velocity-dispersion shapes (Gadget input) against the machine of module Katz."""
import os
import numpy as np
import katz, gadget_io, units
from core import *
from checks.c01 import CFG

TYPES = {0: "gas", 1: "dm", 4: "stars"}


def gadget_session(ctx, rng, k, f=1.0, **over):
    """A snapshot and its group files in a scratch directory."""
    L = float(rng.choice([12.0, 40.0])) * f
    center = ["mode", "com"][k % 2]
    nh = int(rng.integers(1, 4))
    counts = {5: [1500], 8: [16] * 40}.get(k % 36)      # sizes far from the usual ones
    nh = len(counts) if counts else nh
    halos = []
    for j in range(nh):
        h = katz.make_halo(rng, counts[j] if counts else int(rng.choice([16, 40, 90, 140])), sym=rng.random() < 0.3, scale=float(rng.choice([0.3, 1.0])) * f)
        h["pos"] = rng.uniform(0, L, 3)
        if rng.random() < 0.5:
            h["pos"][rng.integers(3)] = 0.02
        h["v"] = h["v"] + rng.normal(size=3) * 300 * (j % 2)
        halos.append(h)
    # every FoF group: its central subhalo, then loose particles
    pos, vel, m, cat, glen, slen, ns, off = [], [], [], [], [], [], [], 0
    for h in halos:
        n, extra = len(h["x"]), int(rng.integers(0, 7))
        pos += [np.mod(h["x"] + h["pos"], L), rng.uniform(0, L, (extra, 3))]
        vel += [h["v"], rng.normal(size=(extra, 3)) * 1000]
        m += [h["m"], rng.uniform(1, 2, extra)]
        cat.append(list(range(off, off + n)))
        off += n + extra
        glen.append(n + extra); slen.append(n); ns.append(1)
    pos, vel, m = np.vstack(pos), np.vstack(vel), np.hstack(m)
    r200 = np.array([float(np.max(np.linalg.norm(h["x"], axis=1))) * rng.uniform(0.7, 1.2) / f for h in halos], dtype=np.float32)
    groups = dict(group_len=glen, nsubs=ns, sub_len=slen, ptype=[1, 4, 1, 0][k // 2 % 4])
    d = write(ctx, "g%d" % k, pos, vel, m, r200, L, groups)
    cfg = katz.config(rng, int(rng.integers(2, 5)))
    sel = [int(i) for i in rng.permutation(nh)[:nh if counts else int(rng.integers(1, nh + 1))]]
    s = dict(dir=d, L=L, center=center, xyz=pos, vel=vel, m=m, cat=cat, r200=np.float64(r200), cfg=cfg, sel=sel, groups=groups)
    s.update(over)
    return s


def write(ctx, name, pos, vel, m, r200, L, groups):
    d = os.path.join(ctx.tmp, name)
    os.makedirs(d)
    r200 = np.float32(r200)
    # the particles asked for among those of the other types, the groups being made of all
    rng, n = np.random.default_rng(len(m)), {groups["ptype"]: groups["group_len"]}
    parts = {groups["ptype"]: dict(pos=pos, vel=vel, mass=m, ids=np.arange(len(m)))}
    for p in [p for p in TYPES if p not in n]:
        n[p] = [int(rng.integers(5, 20)) for _ in groups["group_len"]]
        parts[p] = dict(pos=rng.uniform(0, L, (sum(n[p]), 3)), vel=rng.normal(size=(sum(n[p]), 3)) * 300, mass=rng.uniform(1, 2, sum(n[p])), ids=p * 10 ** 7 + np.arange(sum(n[p])))
    six = lambda k: np.array([groups[k] if p == groups["ptype"] else n.get(p, [0] * len(groups[k])) for p in range(6)], np.int32).T
    gadget_io.write_snapshot(os.path.join(d, "snap_035"), {p: parts[p] for p in sorted(parts)}, L)
    gadget_io.write_groups(os.path.join(d, "groups"), [dict(groups, group_len=six("group_len"), sub_len=six("sub_len"), rvir=r200, r200=r200 * 2)])
    return d


def variants(ctx, rng, s, k, is_global):
    """The same simulation turned, moved, scaled, shuffled or seen from a moving train: (how, Q, f, session)."""
    from clouds import rotation
    L, out = s["L"], []

    def add(how, Q=np.eye(3), f=1.0, xyz=s["xyz"], vel=s["vel"], m=s["m"]):
        d = write(ctx, "g%d_%s" % (k, how), xyz, vel, m, s["r200"] * f, L * f, s["groups"])
        out.append((how, Q, f, dict(s, dir=d, xyz=xyz, vel=vel, m=m)))
    P = np.eye(3)[rng.permutation(3)] * rng.choice([1, -1], 3)[:, None]
    add("turned", P, xyz=np.mod(s["xyz"] @ P.T, L), vel=s["vel"] @ P.T)
    add("moved", xyz=np.mod(s["xyz"] + rng.uniform(-30, 30, 3), L))
    add("boosted", vel=s["vel"] + rng.uniform(-500, 500, 3))
    add("faster", vel=s["vel"] * float(rng.choice([0.25, 3.0])))
    if not is_global:
        f = float(rng.choice([0.5, 2.0]))
        add("scaled", f=f, xyz=s["xyz"] * f)
    order = np.arange(len(s["m"]))
    for c in s["cat"]:
        order[c] = rng.permutation(c)
    add("relabelled", xyz=s["xyz"][order], vel=s["vel"][order], m=s["m"][order])
    add("masses-scaled", m=s["m"] * float(rng.choice([1e-3, 7.0, 1e3])))
    return out


def ops(s, calls):
    return units.ops(s) + [("new", "o", "DensShapeProfsGadget", [os.path.join(s["dir"], "snap_035"), os.path.join(s["dir"], "groups"), TYPES[s["groups"]["ptype"]], "035",
                                                   "/nonexistent-viz", "/nonexistent-cat"], {"MIN_NUMBER_PTCS": 5, "CENTER": s["center"]})] + calls


def run(ctx):
    rng = ctx.np_rng()
    ss = [gadget_session(ctx, rng, k, f=8.0 if k % 6 == 5 else 1.0) for k in range(ctx.n(36, 250))]
    for k, s in enumerate(ss):
        s["unit"] = units.pick(k)
        s["what"] = ["Local", "Local", "Global"][k % 3]
        if s["what"] == "Global" and k % 2:
            s["cfg"]["IT_MIN"] = 5 if k % 4 == 1 else len(s["cat"][s["sel"][0]])
        if s["what"] == "Local" and k % 3 == 1:
            s["cfg"]["IT_MIN"] = katz.tight_min(ctx.np_rng(k), s)
    judge(ctx, ss)


def judge(ctx, ss):
    res = ctx.drive("session", [ops(s, [("call", "o", "getShapeCatVel" + s["what"], [s["sel"], s["cfg"]])]) for s in ss])
    halos, jobs = [], []
    for s, r in zip(ss, res):
        if r[-1][0] != "ok":
            ctx.violation("exception", "getShapeCatVel%s raised: %s" % (s["what"], r[-1]), {"session": s, "error": r[-1]})
            continue
        got = units.shapes(s, r[-1][1])
        for row, h in enumerate(s["sel"]):
            halos.append(katz.enc_halo(s["xyz"], s["m"], s["cat"][h], s["L"], s["center"], vel=s["vel"]))
            if s["what"] == "Local":
                jobs += katz.local_jobs(len(halos), s["cfg"], s["r200"][h], got[row], vel=True, tolq="1e-5")
            else:
                jobs.append(katz.global_job(len(halos), s["cfg"], s["r200"][h], got[row], vel=True, tolq="1e-5"))
    ctx.judge("KatzTrace", jobs, lambda i: katz.describe(jobs[i], halos), cfg=CFG, payload={"halos": halos, "jobs": jobs}, label="velocity shape")
    ends = ctx.last.tagged("P")
    ctx.cov["converged"] = sum("converged" in e for e in ends)
    ctx.cov["missing"] = sum("missing" in e for e in ends)
    ctx.sample(katz.describe(jobs[0], halos))
