"""C05: sph density profiles against module Profiles."""
import dens


def run(ctx):
    dens.run_kind(ctx, "sph", ctx.n(60, 480), 1e-6)
