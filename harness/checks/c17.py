"""C17: fits of exact, noisy, holed and empty profiles under every set of fixed parameters, judged by FitTrace."""
import fits


def run(ctx):
    fits.run(ctx, 110, 900, False)
