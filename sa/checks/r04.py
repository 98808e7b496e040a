"""R04: the result of every allocation, and every optional setting, is checked before it is used."""
from .. import heap


def run(ctx):
    heap.run(ctx, ['null', 'password'])
    if not ctx.viol:
        ctx.need('password', 1, 'ways proxy_open succeeds')
        ctx.need('null', 20, 'uses of memory that may be absent')
