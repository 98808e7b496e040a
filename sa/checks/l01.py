"""L01: log messages obey level and medium; switching leaks nothing."""
from .. import logs


def run(ctx):
    logs.l01(ctx)
    if not ctx.viol:
        ctx.need('filter', 200, 'combinations of medium, level and severity')
        ctx.need('state', 25, 'changes of the medium')
