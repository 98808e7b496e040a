"""C02: lock-order graph over all operations (acquisition while holding, propagated through the
call graph); the graph must be acyclic and no lock may be re-taken by its holder."""
from ..common import *
from .. import locks


def run(ctx):
    l = locks.get(ctx)
    l.report(ctx, 'C02')
    edges = {}
    for n, w in l.walks.items():
        for (a, b), (I, hm, m, tr) in w.edges.items():
            edges.setdefault((a, b), (I, hm, m))
        for (g, held), (I, tr, st) in w.calls.items():
            for (tag, m) in l.acq.get(g, {}):
                for (ht, hm) in held:
                    edges.setdefault((ht, tag), (I, hm, m))
    for (a, b), (I, hm, m) in edges.items():
        ctx.obligation('ordered pair of locks', (locks.Walk.nm(a), locks.Walk.nm(b), I.fn.name, I.line))
    # cycles
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def path(a, b):
        work, prev = [a], {a: None}
        while work:
            x = work.pop(0)
            for y in sorted(succ.get(x, ()), key=repr):
                if y == b:
                    r = [y, x]
                    while prev[x] is not None:
                        x = prev[x]
                        r.append(x)
                    return r[::-1]
                if y not in prev:
                    prev[y] = x
                    work.append(y)
        return None
    done = set()
    for (a, b), (I, hm, m) in sorted(edges.items(), key=lambda kv: (kv[1][0].fn.name, kv[1][0].line)):
        if a == b and hm == 's' and m == 's':
            continue
        p = path(b, a) if a != b else [a, a]
        if p:
            k = frozenset(p)
            if k in done:
                continue
            done.add(k)
            sites = []
            for x, y in zip(p, p[1:]):
                J = edges[(x, y)][0]
                sites.append('%s before %s in %s:%s' % (locks.Walk.nm(x), locks.Walk.nm(y), J.fn.name, J.line))
            ctx.violation(I, 'lock-order', 'takes %s while holding %s, but elsewhere %s' % (
                locks.Walk.nm(b), locks.Walk.nm(a), '; '.join(sites)))
    # a signal handler runs on top of an interrupted thread: any lock it takes may be held by that thread
    for f in ctx.prog.allf:
        if f.addr_taken and f.module == 'proxyd':
            names = locks.inline_closure(ctx.prog, f)[1]
            taken = {}
            for g in sorted(x for x in names if x):
                for (tag, m), i in l.acq.get(g, {}).items():
                    taken.setdefault(tag, g)
            for tag, g in sorted(taken.items()):
                ctx.violation(f, 'signal-context', 'signal handler takes %s (through %s), which the interrupted thread may hold' % (
                    locks.Walk.nm(tag), g))
            ctx.obligation('signal handler takes no lock', f.name, not taken)
    l.count(ctx, 'lock', 'lock not already held by its taker')
    ctx.need('ordered pair of locks', 5, 'nested acquisitions')
    ctx.need('lock not already held by its taker', 40, 'lock sites')
