"""F05: the end of a session, step by step, and how each relay ends."""
from ..common import *
from .. import relay


def run(ctx):
    P = ctx.prog
    eps = relay.run(ctx, ['own-endpoint', 'unexpected', 'stops'], ['forward'])
    ctx.run(relay.Init(eps, ('binding',)), P.fn('proxy_conn_init'))
    ctx.run(relay.Finish({'vacate', 'order'}), P.fn('proxy_conn_finish'))
    for f in entries(P, ('proxy_conn',)):
        if f.name not in ('proxy_conn_finish', 'proxy_conn_process', 'proxy_conn_init', 'proxy_conn_free', 'proxy_conn_stop') and not f.addr_taken:
            ctx.run(relay.Finish({'vacate'}, 'other'), f)
    if not ctx.viol:
        ctx.need('binding', 1, 'relay workers')
