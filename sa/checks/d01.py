"""D01: the daemon serves only after each start step succeeded, else exits with an error."""
from .. import daemon


def run(ctx):
    daemon.d01(ctx)
    if not ctx.viol:
        ctx.need('status', 2, 'failing steps')
        ctx.need('accept', 3, 'shapes of accepted command lines')
