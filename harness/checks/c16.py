"""C16: caching and its limits are invisible: histories of module Session over simulation output with changing limits."""
import history
from checks import c15


def run(ctx):
    ctx.model_check("Session", history.SMALL % (ctx.n(4, 5), "TRUE"), timeout=3000)
    qs = ["idx", "r200", "xyz", "mc", "loc", "sph", "vloc"]
    hs = history.generate(ctx, qs, [], [], 18, ctx.n(30, 400), objs=3, datas=(3, 4, 5, 6, 7), lims=(1, 2, 3, 4, 5, 6), ins=(1, 2, 3), sels=(1, 4), salt=0)
    hs += history.generate(ctx, qs, [], [], 14, ctx.n(24, 300), objs=2, lims=(1, 2, 3, 4, 5, 6), ins=(1, 2), outs=(1, 2), sels=(1, 4), salt=1)
    history.replay(ctx, hs, "limits and units changing between queries")
    # a changed limit takes effect on the caches in use: behaviours of module LruCache with changing limits
    c15.replay(ctx, [(True, False, True)], ctx.n(80, 2000))
