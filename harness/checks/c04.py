"""C04: well-formed and equivariant shapes."""
import numpy as np
import katz, clouds
from core import *
from checks import c01, c03
from checks.c01 import CFG

MC = "SPECIFICATION Spec\nCONSTANT N = %d\nCONSTANT Walls = {%s}\nCONSTANT Tols = {%s}\nINVARIANT Limit\nINVARIANT Equivariant\nINVARIANT Formed\n"


def variants(rng, s, vel):
    """Transformed copies of a session: (how, Q, f, session)."""
    out = []
    tot = len(s["m"])

    def copy(**k):
        t = dict(s)
        t.update(k)
        return t
    rots = [("turned", clouds.rotation(rng)), ("mirrored", -clouds.rotation(rng))]
    P = np.eye(3)[rng.permutation(3)] * rng.choice([1, -1], 3)[:, None]
    rots.append(("axes-swapped", P))
    # the search for the mode starts from the extent along the coordinate axes: only exact for signed permutations
    # (see C04)
    how, Q = rots[2 if s["center"] == "mode" else int(rng.integers(3))]
    if s["L"] == 0:
        out.append((how, Q, 1.0, copy(xyz=s["xyz"] @ Q.T)))
        out.append(("moved", np.eye(3), 1.0, copy(xyz=s["xyz"] + rng.uniform(-30, 30, 3))))
    f = float(rng.choice([0.5, 2.0, 3.7]))
    if not s.get("global"):
        out.append(("scaled", np.eye(3), f, copy(xyz=s["xyz"] * f, r200=s["r200"] * f, L=s["L"] * f)))
    perm = rng.permutation(tot)
    inv = np.argsort(perm)
    out.append(("relabelled", np.eye(3), 1.0, copy(xyz=s["xyz"][perm], m=s["m"][perm], cat=[[int(inv[i]) for i in rng.permutation(c)] for c in s["cat"]])))
    out.append(("masses-scaled", np.eye(3), 1.0, copy(m=s["m"] * float(rng.choice([1e-3, 7.0, 1e4])))))
    return out


def run(ctx):
    rng = ctx.np_rng()
    ctx.model_check("KatzMC", MC % (ctx.n(3, 4), ctx.n("12", "2, 12, 40"), ctx.n('"1e-2"', '"1e-1", "1e-2", "1e-4"')), timeout=800 if not ctx.thorough else 3000)
    ss = c01.sessions(ctx, rng, ctx.n(40, 300), "symmetry")
    runs, plan = [], []
    for k, s in enumerate(ss):
        s["global"] = k % 4 == 3
        if k % 4 == 1:
            s["cfg"]["IT_WALL"] = 60
        call = [("call", "o", "getShapeCatGlobal" if s["global"] else "getShapeCatLocal", [s["sel"], s["cfg"]])]
        vs = variants(rng, s, False)
        plan.append((s, vs, len(runs)))
        runs.append(c01.ops(s, call))
        runs += [c01.ops(t, call) for _, _, _, t in vs]
    # velocity-dispersion shapes
    for k in range(ctx.n(10, 80)):
        s = c03.gadget_session(ctx, rng, k, **({"global": True} if k % 4 == 3 else {"global": False}))
        if k % 8 == 7:
            s["cfg"]["IT_MIN"] = len(s["cat"][s["sel"][0]]) + 1
        call = [("call", "o", "getShapeCatVelGlobal" if s["global"] else "getShapeCatVelLocal", [s["sel"], s["cfg"]])]
        vs = c03.variants(ctx, rng, s, k, s["global"])
        plan.append((s, vs, len(runs)))
        runs.append(c03.ops(s, call))
        runs += [c03.ops(t, call) for _, _, _, t in vs]
    res = ctx.drive("session", runs)
    halos, jobs = [], []
    for s, vs, at in plan:
        bad = [r[-1] for r in res[at:at + len(vs) + 1] if r[-1][0] != "ok"]
        if bad:
            ctx.violation("exception", "shape query raised: %s" % (bad[0],), {"session": s, "error": bad[0]})
            continue
        got = [r[-1][1] for r in res[at:at + len(vs) + 1]]
        for row, h in enumerate(s["sel"]):
            halos.append(katz.enc_halo(s["xyz"], s["m"], s["cat"][h], s["L"], s["center"], vel=s["vel"] if "groups" in s else None))
            v = {"vel": True, "tolq": "1e-5"} if "groups" in s else {}
            mk = lambda g: [katz.global_job(len(halos), s["cfg"], s["r200"][h], g[row], **v)] if s["global"] else katz.local_jobs(len(halos), s["cfg"], s["r200"][h], g[row], **v)
            base = mk(got[0])
            for (how, Q, f, t), g in zip(vs, got[1:]):
                for b, o in zip(base, mk(g)):
                    b["more"].append({"how": how, "Q": RM(Q), "f": R(f), "obs": o["obs"]})
            jobs += base
    ctx.judge("KatzTrace", jobs, lambda i: katz.describe(jobs[i], halos), cfg=CFG, payload={"halos": halos, "jobs": jobs}, label="shape symmetry")
    ends = ctx.last.tagged("P")
    ctx.cov["converged"] = sum("converged" in e for e in ends)
    ctx.cov["missing"] = sum("missing" in e for e in ends)
    ctx.sample(katz.describe(jobs[0], halos))
