"""S02: one owner per accepted connection; closed and released exactly once."""
from .. import pool


def run(ctx):
    pool.run(ctx, ['owner', 'once', 'clear', 'before', 'end', 'use', 'second'])
