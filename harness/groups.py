"""Random group catalogues for C23 and C24."""
import numpy as np
from core import *

TYPES = {"gas": 0, "dm": 1, "stars": 4}


def random_groups(rng, n, nfiles, biggest=9, grouped=True, childless=False):
    """n groups in nfiles files: list of dict(group_len (k,6), nsubs, rvir, r200, sub_len (k,6)).
    grouped: the subhalos of a group are in the file of the group; otherwise they are cut independently."""
    glen, nsubs, subs, owner = [], [], [], []
    for k in range(n):
        ns = 0 if childless else int(rng.choice([0, 1, 1, 2, 3])) if rng.random() < 0.9 else int(rng.integers(4, 30))
        ls = [rng.integers(0, biggest + 1, 6) for _ in range(ns)]
        ls.sort(key=lambda x: -int(x[1]))
        fuzz = rng.integers(0, 3, 6)
        glen.append(sum(ls, np.zeros(6, int)) + fuzz)
        nsubs.append(ns)
        for x in ls:
            subs.append(x)
            owner.append(k)
    rv = np.float32(rng.uniform(0.01, 5.0, n)) * np.where(rng.random(n) < 0.1, 0, 1).astype(np.float32)
    rm = np.float32(rng.uniform(0.01, 5.0, n))
    gcut = [0] + sorted(int(x) for x in rng.integers(0, n + 1, nfiles - 1)) + [n]
    if grouped:
        scut = [sum(1 for o in owner if o < g) for g in gcut]
    else:
        scut = [0] + sorted(int(x) for x in rng.integers(0, len(subs) + 1, nfiles - 1)) + [len(subs)]
    files = []
    for i in range(nfiles):
        a, b, c, d = gcut[i], gcut[i + 1], scut[i], scut[i + 1]
        files.append(dict(group_len=np.array(glen[a:b], int).reshape(-1, 6), nsubs=nsubs[a:b], rvir=rv[a:b], r200=rm[a:b],
                          sub_len=np.array(subs[c:d], int).reshape(-1, 6)))
    return files


def encode(files):
    return [{"groups": [{"len": [int(x) for x in f["group_len"][k]], "nsubs": int(f["nsubs"][k]), "rvir": R(f["rvir"][k]), "rmean": R(f["r200"][k])}
                        for k in range(len(f["nsubs"]))],
             "subs": [[int(x) for x in s] for s in f["sub_len"]]} for f in files]


def particles(files):
    return sum((f["group_len"].sum(0) for f in files), np.zeros(6, int))


def ints(a):
    return [int(x) for x in np.asarray(a).reshape(-1)]


def got_lists(v):
    return {"nsubs": ints(v[0]), "subs": ints(v[1]), "sizes": ints(v[2]), "radii": RS(np.float64(v[3]))}
