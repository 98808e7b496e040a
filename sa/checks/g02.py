"""G02: one slot per external address, each bound to its own address."""
from .. import slots, conftext


def run(ctx):
    slots.g02(ctx)
    for key, (f, kind) in conftext.DOC.items():
        if kind == conftext.LIST:
            n = conftext.run_shapes(ctx, conftext.shapes_list(key), (0, 2))
            ctx.notes.append('%d shapes of address lists analysed' % n)
    if not ctx.viol:
        ctx.need('slots', 2, 'numbers of addresses')
        ctx.need('bind', 1, 'sockets bound')
        ctx.need('list', 10, 'shapes of lists')
