"""D03: closing the proxy ends everything and leaves it ready to be opened again."""
from .. import life


def run(ctx):
    life.d03(ctx)
    if not ctx.viol:
        ctx.need('clean', 3, 'openings after a close')
        ctx.need('join', 2, 'releases after joining')
        ctx.need('relay', 1, 'releases of a slot')
