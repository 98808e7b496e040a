"""R02: whatever an operation acquires it releases once, or hands on; nothing is used after its release."""
from .. import heap


def run(ctx):
    heap.run(ctx, ['once', 'use', 'leak', 'dangling', 'alloc', 'subs', 'inner'])
    heap.lists(ctx)
    if not ctx.viol:
        ctx.need('leak', 5, 'resources at the end of operations')
        ctx.need('once', 10, 'releases')
