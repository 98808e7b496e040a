"""K03: feeding and finishing a message."""
from .. import md5stream


def run(ctx):
    md5stream.k03(ctx)
