"""C10: unit systems: histories of module Session with changing input and output systems."""
import history


def run(ctx):
    ctx.model_check("Session", history.SMALL % (ctx.n(4, 5), "TRUE"), timeout=3000)
    qs = ["r200", "xyz", "mc", "sph", "ker", "ell", "loc", "glo", "fit", "conc", "vloc", "vglo", "vel", "idx"]
    hs = history.generate(ctx, qs, [], [], 16, ctx.n(40, 500), objs=1, ins=(1, 2, 3, 4, 5), outs=(1, 2, 3, 4, 5, 6, 7), sels=(1, 4), cfgs=(1, 2, 3), salt=0)
    hs += history.generate(ctx, qs, ["plotD", "plotS", "viz"], [], 14, ctx.n(20, 300), objs=2, ins=(1, 2, 3), outs=(1, 2, 3, 4), sels=(2, 3), salt=1)
    # objects made after both systems were changed
    hs += history.generate(ctx, ["vel", "xyz", "r200", "mc"], [], [], 14, ctx.n(40, 300), objs=3, datas=(2, 3, 4), ins=(1, 2, 3, 5), outs=(1, 2, 3, 4), sels=(1,), salt=2)
    history.replay(ctx, [history.fresh(history.STALE_UNITS)] + hs, "changing units")
    # another little h in force
    hs = history.generate(ctx, qs, ["viz"], [], 12, ctx.n(16, 200), objs=1, ins=(1, 2, 4), outs=(1, 2, 4, 5, 7), sels=(1, 4), cfgs=(1, 2), salt=3)
    history.replay(ctx, hs, "little h = 0.7", world_seed=1, h=0.7)
