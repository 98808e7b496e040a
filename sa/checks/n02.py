"""N02: what a registration report says about the proxy is prepared from its configuration and signed."""
from .. import report


def run(ctx):
    report.n02(ctx)
    if not ctx.viol:
        ctx.need('ending', 1, 'prepared endings')
        ctx.need('public', 1, 'announcements as public')
