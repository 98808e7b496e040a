"""D02: termination requests end the service in an orderly way; lost clients do not."""
from .. import daemon


def run(ctx):
    daemon.d02(ctx)
    if not ctx.viol:
        ctx.need('handler', 1, 'termination signals')
        ctx.need('release', 2, 'ways out of the service loop')
        ctx.need('serve', 2, 'outcomes of an accepting attempt')
