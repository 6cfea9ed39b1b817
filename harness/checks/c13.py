"""C13: queries are pure: histories of module Session replayed."""
import history


def run(ctx):
    ctx.model_check("Session", history.SMALL % (ctx.n(4, 5), "TRUE"), timeout=3000)
    qs = ["idx", "r200", "xyz", "mc", "sph", "ker", "ell", "loc", "glo", "fit", "conc", "vloc", "vglo", "vel"]
    plots = ["plotT", "plotTg", "plotE", "plotEg", "plotS", "plotD", "viz", "vizg"]
    hs = history.generate(ctx, qs, plots, ["dloc", "dglo", "dvloc", "dvglo"], 16, ctx.n(40, 600), objs=2)
    # without dumps, and with one selection throughout (so that dumps may be read back)
    hs += history.generate(ctx, qs, plots, [], 18, ctx.n(24, 400), objs=1, outs=(1, 2, 3), salt=1)
    hs += history.generate(ctx, qs, plots, ["dloc", "dglo"], 16, ctx.n(16, 200), objs=1, sels=(3,), cfgs=(2,), salt=2)
    history.replay(ctx, [history.fresh(history.STALE_SELECTION)] + hs, "any order of queries")
