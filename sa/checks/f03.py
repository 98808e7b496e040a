"""F03: the payload loop: ghost count of the bytes taken, every chunk sent once and unchanged before the next is taken."""
from ..common import *
from .. import relay


def run(ctx):
    relay.run(ctx, ['payload', 'forward', 'addressed', 'content', 'told', 'client-error'], ['process'])
    ctx.run(relay.To(), ctx.prog.fn('conn_send_to'))
