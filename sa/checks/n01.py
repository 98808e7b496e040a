"""N01: directory registration is opt-in, reports every state and signs off at stop."""
from .. import report


def run(ctx):
    report.n01(ctx)
    if not ctx.viol:
        ctx.need('complete', 1, 'statuses reported')
        ctx.need('update', 1, 'statuses updated')
        ctx.need('signoff', 1, 'statuses before stopping')
