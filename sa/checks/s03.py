"""S03: a slot is taken only out of the pool and only by one station, atomically, and vacated on failure."""
from .. import pool


def run(ctx):
    pool.run(ctx, ['pooled', 'same', 'callsign'], ['session'])
    pool.take(ctx)
    if not ctx.viol:
        ctx.need('take', 1, 'stations taken in')
        ctx.need('pooled', 10, 'slots offered')
