"""C06: ell density profiles against module Profiles."""
import dens


def run(ctx):
    dens.run_kind(ctx, "ell", ctx.n(80, 640), 1e-5)
