"""F01: what a client message leads to.  The header's type, address and size are symbolic; every effect (transmission,
connect, close) is compared with the type decided on that path, and the result with what the type allows."""
from ..common import *
from .. import relay


def run(ctx):
    relay.run(ctx, ['header', 'effect', 'unknown', 'client-error', 'ended'], ['process'])
    relay.session(ctx)
