"""S01: slots and workers taken for a session return exactly once, and the pools stay well formed (shape analysis)."""
from .. import pool


def run(ctx):
    pool.run(ctx, ['pool', 'slot', 'mark', 'worker', 'map'])
