"""C15: behaviours of the cache (module LruCache) replayed on the real decorators."""
import json
from concurrent.futures import ThreadPoolExecutor
from core import *

CFG = """SPECIFICATION Spec
CONSTANTS LimitIds = {%s}
 Change = %s
 Arrays = %s
 Typed = %s
 Threads = {%s}
 FormIds = {%s}
 Depth = %d
 Record = %s
"""
INV = "INVARIANTS NoDuplicates Bounded Consistent KeysSound KeysTyped Counted\nPROPERTIES EvictsOldest Evicts\n"


def cfg(limits, change, arrays, typed, threads, forms, depth, record):
    tf = lambda b: "TRUE" if b else "FALSE"
    return CFG % (", ".join(map(str, limits)), tf(change), tf(arrays), tf(typed), ", ".join(map(str, range(1, threads + 1))),
                  ", ".join(map(str, forms)), depth, tf(record))


def run(ctx):
    # 1. the specification itself, exhaustively in a small scope
    for lim in ([1, 2, 101, 102, 100, 0],):
        ctx.model_check("LruCache", cfg(lim, True, False, True, 2, [1, 2, 4], ctx.n(5, 6), False) + INV, timeout=3000)
        ctx.model_check("LruCache", cfg(lim, False, False, False, 2, [1, 2, 3, 10], ctx.n(4, 6), False) + INV, timeout=3000)
    # 2. behaviours of the specification, replayed
    replay(ctx, [(False, False, False), (False, True, False), (True, False, False), (True, False, True)], ctx.n(120, 4000))


def replay(ctx, plans, num):
    """plans: (array arguments?, typed keys?, limits changing in use?)"""
    behs = []
    all_limits = [1, 2, 3, 5, 101, 102, 100, 0]
    work = []
    for k, (arrays, typed, change) in enumerate(plans):
        nf = 23 if arrays else 16
        for j, (deep, threads, sub) in enumerate(((30, 3, 5), (40, 1, 4), (40, 2, 9))):
            # calls that differ only in the types or places of their arguments, or any calls; for arrays, some without elements
            forms = ([1, 4, 21, 22, 23] if arrays else [1, 2, 3, 11, 13]) if j == 0 else sorted(ctx.rng.sample(range(1, nf + 1), sub))
            c = cfg(all_limits, change, arrays, typed, threads, forms, deep, True)
            args = ["-simulate", "num=%d" % num, "-depth", str(deep + 2), "-seed", str(ctx.seed * 1000 + k * 10 + j)]
            work.append((arrays, c, args))
    ctx.spec_dir()
    with ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(lambda w: ctx.tlc("LruCache", w[1], args=w[2], workers=1, timeout=3000), work))
    for w, r in zip(work, runs):
        for h in r.tagged("H"):
            behs.append((w[0], None, json.loads(h)))
    res = ctx.drive("lru", [(a, b) for a, _, b in behs], timeout=ctx.n(300, 3000))
    ops = 0
    for (arrays, _, b), r in zip(behs, res):
        ops += r["done"]
        if r["bad"]:
            ctx.violation("lru:" + r["bad"]["what"], "step %d: %s" % (r["done"], r["bad"]), {"behaviour": b, "step": r["done"], "mismatch": r["bad"]})
    ctx.cov["traces_validated_against_impl"] += len(behs)
    ctx.cov["operations_replayed"] = ops
    ctx.sample(behs[0][2])
