"""C07: ker density profiles against module Profiles."""
import dens


def run(ctx):
    dens.run_kind(ctx, "ker", ctx.n(40, 320), 1e-3)
