"""F02: typestate and provenance of every message sent to the client: lock held, label, address, size, payload."""
from ..common import *
from .. import relay


def run(ctx):
    relay.run(ctx, ['exclusive', 'whole', 'label', 'forward2', 'peer', 'content', 'alive'], ['process', 'forward'])
    ctx.run(relay.From(), ctx.prog.fn('conn_recv_any'))
