"""R01: releasing an object releases all its parts once, threads first; a failed initialisation releases everything."""
from .. import own, pool


def run(ctx):
    own.check(ctx)
    pool.starting(ctx, ['undo'])
    if not ctx.viol:
        ctx.need('init', 10, 'failing and succeeding initialisations')
        ctx.need('free', 20, 'parts released')
        ctx.need('setup', 10, 'parts torn down that were set up')
        ctx.need('order', 5, 'destructions')
        ctx.need('harmless', 5, 'releases of objects never set up')
