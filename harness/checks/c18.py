"""C18: concentrations against the fit of the same profile, judged by FitTrace (and, through it, the fit itself)."""
import fits


def run(ctx):
    fits.run(ctx, 70, 600, True)
