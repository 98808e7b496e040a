"""R05: no write exceeds the memory it is meant for; text is terminated within its buffer."""
from .. import bounds


def run(ctx):
    sh = bounds.run(ctx)
    if not ctx.viol:
        ctx.need('bound', 40, 'writes')
        ctx.need('string', 5, 'texts handed on')
