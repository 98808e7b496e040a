"""K01: the digest core is that of RFC 1321."""
from .. import md5chk


def run(ctx):
    md5chk.k01(ctx)
    if not ctx.viol:
        ctx.need('init', 4, 'words of the initial state')
        ctx.need('block', 1, 'block transformations')
        ctx.need('output', 16, 'bytes of the digest')
