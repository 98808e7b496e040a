"""C01: typestate analysis over every path of every operation: each lock taken is released exactly
once in the mode it was taken, before the operation returns; conditions are waited for with the
lock held exclusively."""
from ..common import *
from .. import locks


def run(ctx):
    l = locks.get(ctx)
    l.report(ctx, 'C01')
    l.count(ctx, 'unlock', 'released in its own mode')
    l.count(ctx, 'return', 'nothing held at return')
    l.count(ctx, 'wait', 'waits with the lock held exclusively')
    ctx.need('released in its own mode', 40, 'unlock sites')
    ctx.need('nothing held at return', 40, 'returns')
