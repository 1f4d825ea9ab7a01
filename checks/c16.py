"""C16: local compilation sessions."""
import drv


def run(ctx):
    drv.run(ctx, False)
