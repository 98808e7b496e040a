"""S05: every change of slot availability is reported, with the figures of that time and the status they imply."""
from .. import pool


def run(ctx):
    pool.run(ctx, ['authorised', 'ended'], ['session'])
    pool.starting(ctx, ['told'])
    pool.telling(ctx, ['figures'])
    if not ctx.viol:
        ctx.need('authorised', 1, 'authorised stations')
        ctx.need('ended', 1, 'ends of sessions')
        ctx.need('told', 1, 'start and shutdown')
        ctx.need('figures', 3, 'figures')
        ctx.need('status', 3, 'statuses')
