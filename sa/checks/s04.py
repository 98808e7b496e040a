"""S04: a worker is taken only while slots are usable; they become usable last and unusable first."""
from .. import pool


def run(ctx):
    pool.run(ctx, ['usable', 'served'], ['process'])
    pool.starting(ctx, ['announce', 'shutdown'])
    if not ctx.viol:
        ctx.need('usable', 1, 'workers taken')
        ctx.need('announce', 2, 'changes of the number of usable slots')
        ctx.need('shutdown', 1, 'shutdowns')
