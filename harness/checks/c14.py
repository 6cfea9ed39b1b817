"""C14: dumped catalogues: histories of module Session with many dumps, files read back and compared."""
import history


def run(ctx):
    ctx.model_check("Session", history.SMALL % (ctx.n(4, 5), "TRUE"), timeout=3000)
    qs = ["loc", "glo", "ell", "vloc", "vglo", "mc"]
    dumps = ["dloc", "dglo", "dvloc", "dvglo"]
    hs = []
    k = 0
    for sel in (1, 2, 3, 4):
        for cfg in (1, 3):
            # one selection and setting: everything dumped reloads as it was
            hs += history.generate(ctx, qs, [], dumps, 12, ctx.n(6, 60), objs=3, dests=(1, 2), sels=(sel,), cfgs=(cfg,), salt=k)
            hs += history.generate(ctx, ["loc"], [], dumps, 8, ctx.n(3, 30), objs=1, outs=(1, 2, 3, 4, 5, 6), ins=(1, 2, 3), sels=(sel,), cfgs=(cfg,), salt=100 + k)
            k += 1
    hs += history.generate(ctx, qs, [], dumps, 12, ctx.n(10, 200), objs=2, dests=(1, 2), cfgs=(1, 2, 3), salt=99)
    history.replay(ctx, [history.fresh(history.STALE_SELECTION), history.fresh(history.STALE_UNITS)] + [history.fresh(h) for h in history.REDUMPED] + hs, "dumps and reloads")
