"""C19: compilation sessions in a container."""
import drv


def run(ctx):
    drv.run(ctx, True)
