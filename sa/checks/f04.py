"""F04: TCP open: order of closing, waiting, connecting, starting the relay and answering; end of the TCP relay; ports."""
from ..common import *
from .. import relay, slots


def run(ctx):
    P = ctx.prog
    eps = relay.run(ctx, ['reopen', 'target', 'answer', 'relay', 'announced', 'own-endpoint'], ['process', 'forward'])
    ctx.run(relay.Init(eps, ('source',)), P.fn('proxy_conn_init'))
    for n in range(slots.MAXN + 1):
        c = relay.Ports(n)
        ctx.run(c, P.fn('proxy_open'), unroll=40, setup=c.setup)
    if not ctx.viol:
        ctx.need('ports', 1, 'ports of the slots')
