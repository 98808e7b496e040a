"""K02: lookup hashing and hexadecimal conversions."""
from .. import hexchk


def run(ctx):
    hexchk.k02(ctx)
