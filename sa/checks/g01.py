"""G01: each documented setting changes only its own value; bad values are refused."""
from .. import conftext, slots


def run(ctx):
    conftext.g01(ctx)
    slots.load(ctx)
    if not ctx.viol:
        ctx.need('value', 50, 'shapes of accepted values')
        ctx.need('name', 40, 'lengths of names')
