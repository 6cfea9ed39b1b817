"""Shape jobs: generate halos, query the real code, encode for KatzTrace."""
import numpy as np
import clouds, gadget_io
from core import R, RS, RM


def make_halo(rng, n, sym=None, scale=1.0, degenerate=None):
    axes = np.sort(rng.uniform(0.35, 1.0, 3))[::-1]
    axes = axes / axes[0]
    rot = clouds.rotation(rng)
    if degenerate == "diag":
        rot = np.eye(3)[rng.permutation(3)]
    if sym or degenerate == "diag":
        x = clouds.symmetric(rng, max(2, n // 8), axes, rot)
        m = np.repeat(rng.uniform(0.5, 2.0, len(x) // 8), 8)
    else:
        x = clouds.ellipsoid(rng, n, axes, rot)
        m = rng.uniform(0.5, 2.0, n)
    v = rng.normal(size=(len(x), 3)) * np.array([220., 160., 110.]) @ clouds.rotation(rng).T
    if degenerate == "point":
        x = np.zeros_like(x)
    return {"x": x * scale, "m": m, "v": v}


def config(rng, nr=4, shell=None, reduced=None, rmax=1.0):
    r = np.sort(rng.uniform(0.3, rmax, nr))
    r[-1] = rmax
    return {"ROverR200": r, "IT_TOL": float(rng.choice([2e-1, 5e-2, 1e-2, 1e-3])), "IT_WALL": int(rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 60], p=[.05, .08, .08, .08, .08, .08, .05, .1, .4])),
            "IT_MIN": int(rng.choice([5, 8, 12])), "REDUCED": bool(rng.integers(2)) if reduced is None else reduced,
            "SHELL_BASED": bool(rng.integers(2)) if shell is None else shell}


# what applies to a request without a configuration
DEFAULT = {"ROverR200": np.logspace(-1.5, 0, 70), "IT_TOL": 1e-2, "IT_WALL": 100, "IT_MIN": 10, "REDUCED": False, "SHELL_BASED": False}


def tight_min(rng, s):
    """A minimal particle count that the first selection at some radius of some requested halo meets exactly."""
    h, c = int(rng.choice(s["sel"])), s["cfg"]
    x = s["xyz"][s["cat"][h]]
    x = x - x[0]
    if s["L"] > 0:
        x = x - s["L"] * np.round(x / s["L"])
    m = s["m"][s["cat"][h]][:, None]
    dist = np.linalg.norm(x - (x * m).sum(0) / m.sum(), axis=1)
    r = np.asarray(c["ROverR200"]) * s["r200"][h]
    i = int(rng.integers(0, len(r)))
    n = int(np.sum((dist < r[i]) & (dist >= (r[i - 1] if c["SHELL_BASED"] and i else 0))))
    return n if n >= 4 else c["IT_MIN"]


def catalogue(rng, halos, L, order=None):
    """Store halos in one particle array (shuffled unless L is 'blocks'); returns xyz, vel, masses, idx_cat."""
    tot = sum(len(h["x"]) for h in halos)
    perm = rng.permutation(tot)
    xyz, vel, m, cat, off = np.zeros((tot, 3)), np.zeros((tot, 3)), np.zeros(tot), [], 0
    for h in halos:
        idx = perm[off:off + len(h["x"])]
        off += len(idx)
        p = h["x"] + h["pos"]
        if L > 0:
            p = np.mod(p, L)
        xyz[idx], vel[idx], m[idx] = p, h["v"], h["m"]
        cat.append([int(k) for k in idx])
    return xyz, vel, m, cat


def enc_halo(xyz, m, idx, L, center, vel=None):
    h = {"x": RM(xyz[idx]), "m": RS(m[idx]), "L": R(L), "kind": center}
    if vel is not None:
        h["v"] = RM(vel[idx])
    return h


def enc_obs(row):
    return {"conv": bool(row["is_conv"]), "d": R(row["d"]), "q": R(row["q"]), "s": R(row["s"]),
            "major": RS(row["major"]), "inter": RS(row["inter"]), "minor": RS(row["minor"])}


def local_jobs(hno, cfg, r200, rows, vel=False, void=False, tolq="1e-6"):
    out = []
    rr = cfg["ROverR200"]
    for k in range(len(rr)):
        d = float(r200) * float(rr[k])
        delta = d if (k == 0 or not cfg["SHELL_BASED"]) else float(r200) * float(rr[k]) - float(r200) * float(rr[k - 1])
        out.append({"halo": hno, "vel": vel, "d": R(d), "delta": R(delta), "shell": cfg["SHELL_BASED"], "reduced": cfg["REDUCED"],
                    "tol": R(cfg["IT_TOL"]), "wall": cfg["IT_WALL"], "min": cfg["IT_MIN"], "void": bool(void or r200 == 0), "obs": enc_obs(rows[k]), "more": [],
                    "tolq": tolq})
    return out


def global_job(hno, cfg, r200, row, safe=6.0, vel=False, void=False, tolq="1e-6"):
    d = float(r200) + safe
    return {"halo": hno, "vel": vel, "d": R(d), "delta": R(d), "shell": False, "reduced": cfg["REDUCED"], "tol": R(cfg["IT_TOL"]),
            "wall": cfg["IT_WALL"], "min": cfg["IT_MIN"], "void": bool(void), "obs": enc_obs(row), "more": [], "tolq": tolq}


def describe(job, halos):
    from core import unR
    d = lambda v: [unR(x) for x in v]
    h = halos[job["halo"] - 1]
    o = job["obs"]
    rep = lambda o: {"conv": o["conv"], "d": unR(o["d"]), "q": unR(o["q"]), "s": unR(o["s"]), "major": d(o["major"]), "inter": d(o["inter"]), "minor": d(o["minor"])}
    return {"variants": [{"how": w["how"], "Q": [d(r) for r in w["Q"]], "scale": unR(w["f"]), "reported": rep(w["obs"])} for w in job["more"]],
            "positions": [d(x) for x in h["x"]], "masses": d(h["m"]), "velocities": [d(x) for x in h.get("v", [])], "box": unR(h["L"]),
            "centre": h["kind"], "semi-major axis": unR(job["d"]), "thickness": unR(job["delta"]), "shell": job["shell"], "reduced": job["reduced"],
            "IT_TOL": unR(job["tol"]), "IT_WALL": job["wall"], "IT_MIN": job["min"], "velocity tensor": job["vel"],
            "reported": rep(o)}
