"""C04: effect analysis of blocking operations: for every wait for a thread and every blocking
network operation, the locks held there are compared with the locks the awaited thread, or the
operation that interrupts the transfer, needs."""
from ..common import *
from .. import locks


def run(ctx):
    prog = ctx.prog
    l = locks.get(ctx)
    l.report(ctx, 'C04')
    cbs = callbacks_by_slot(prog)

    def need(names):
        out = {}
        for n in names:
            for k, i in l.acq.get(n, {}).items():
                out.setdefault(k, i)
        return out
    allcb = sorted({f.name for fs in cbs.values() for f in fs})
    threads = [f.name for f in prog.allf if f.addr_taken and f.module == 'worker']
    # transitive: what waits / blocks does each operation do, seen from its callers
    eff = {n: {} for n in l.walks}
    for n, w in l.walks.items():
        for e in w.events:
            if e[0] == 'block':
                eff[n][(e[2], e[3])] = e[1]
    ch = True
    while ch:
        ch = False
        for n, w in l.walks.items():
            for (g, held) in w.calls:
                for k, i in eff.get(g, {}).items():
                    # inside the worker and thread modules the awaited thread is known from the caller
                    if g == 'thread_start':
                        continue        # joins a thread that has already stopped: see stopped-before-restart
                    if k[0] in locks.WAITS and g in locks.WAITS:
                        continue
                    if k[0] in locks.NETWORK and g in locks.NETWORK:
                        continue
                    if k not in eff[n]:
                        eff[n][k] = i
                        ch = True

    # who interrupts a transfer on a connection: closing, dropping or shutting it down
    inter = need(['conn_close', 'conn_drop', 'conn_shutdown', 'conn_free', 'proxy_conn_drop', 'proxy_drop',
                  'proxy_shutdown'])
    inter0 = need(['conn_shutdown', 'proxy_conn_drop'])

    def judge(I, name, tag, held, st=None, via=None):
        if not held:
            ctx.obligation('blocking operation with no lock held', (I.fn.name, I.line, name, tag))
            return
        for ht, hm in held:
            if name in locks.WAITS:
                who = cbs.get(tag)
                names = [f.name for f in who] if who else allcb + threads
                if tag is not None and tag[0] == 'worker_priv' or name in ('pthread_join', 'thread_join', 'thread_free'):
                    names = allcb + threads
                nd = need(names)
                if name == 'worker_wait_idle' or name in ('worker_join', 'worker_free'):
                    nd = dict(nd)
                    for t in threads:
                        nd.update(l.acq.get(t, {}))
                what = 'the thread waited for'
            else:
                nd = inter if hm == 'x' else inter
                what = 'the operation that would interrupt this transfer'
                if hm == 's' and ht == ('conn_priv', 'mutex'):
                    # interrupted by shutdown(), which needs shared access only: checked separately
                    ctx.obligation('transfer under shared access only', (I.fn.name, I.line, name))
                    continue
            clash = [m for (t, m) in nd if t == ht and (m == 'x' or hm == 'x')]
            if name in locks.NETWORK and ht != ('conn_priv', 'mutex'):
                # what a caller must take to reach the interrupting call
                clash = [m for (t, m) in need(['proxy_conn_drop', 'proxy_drop', 'proxy_shutdown', 'proxy_conn_finish']) if False] or clash
            ok = not clash
            ctx.obligation('blocking operation does not hold what its waker needs', (I.fn.name, I.line, name, ht, via), ok)
            if not ok:
                ctx.violation(I, 'blocking-locked', '%s%s blocks while holding %s, which %s needs' % (
                    name, ' (inside %s)' % via if via else '', locks.Walk.nm(ht), what), st)
    for n, w in l.walks.items():
        for e in w.events:
            if e[0] == 'block':
                judge(e[1], e[2], e[3], e[4])
        for (g, held), (I, tr, st) in w.calls.items():
            if held and g not in locks.WAITS and g not in locks.NETWORK and g != 'thread_start':
                for (name, tag), i in eff.get(g, {}).items():
                    judge(I, name, tag, held, st, g)
    # starting a thread again joins its predecessor: only when that one has announced its end
    r = Restart()
    ctx.run(r, prog.fn('worker_start'))
    ctx.need('predecessor has stopped', 1, 'thread starts')
    # closing: shutdown before exclusive access
    for n in ('conn_close', 'conn_drop'):
        c = Interrupt()
        ctx.run(c, prog.fn(n), unroll=2, inline=lambda f: True if f.module == 'conn' else None)
        ctx.obligation('interrupts before exclusive access', n, not c.bad)
    ctx.need('interrupts before exclusive access', 2, 'closing operations')
    l.count(ctx, 'callback', 'callback runs without locks')
    ctx.need('callback runs without locks', 1, 'the worker callback')
    ctx.need('transfer under shared access only', 5, 'transfers')
    ctx.need('blocking operation with no lock held', 10, 'waits')


class Restart(LockClient):
    def on_call(self, eng, st, I, name, args):
        if name == 'thread_start':
            p = eng.as_ptr(args[0])
            ok = False
            for f in st.cl:
                if eng.decide(st, 'sle', f, eng.prog.enums['WORKER_STOPPED']) is True:
                    ok = True
            self.ctx.obligation('predecessor has stopped', (I.fn.name, I.line), ok)
            if not ok:
                self.ctx.violation(I, 'restart-stopped', 'starts the thread (joining its predecessor with the lock held) although the worker is not known to have stopped', st)
        return None

    def on_load(self, eng, st, I, p):
        if p.tag == ('worker_priv', 'state'):
            v = eng.load(st, p, I.ty)
            st.cl = tuple(set(st.cl) | {v})
            return v

    def atoms(self, eng, st, live):
        for v in st.cl:
            vatoms(v, live)


class Interrupt(LockClient):
    """every descriptor that may be open was shut down before exclusive access is asked for"""
    bad = False

    def start(self, eng, st, fn):
        return (frozenset(), frozenset())

    def lock_event(self, eng, st, I, name, args):
        pass        # the descriptors are followed across the two critical sections

    def on_load(self, eng, st, I, p):
        if p.tag in (('conn_priv', 'conn_fd'), ('conn_priv', 'sock_fd')):
            v = eng.load(st, p, I.ty)
            st.cl = (st.cl[0], st.cl[1] | {v})
            return v
        return None

    def on_call(self, eng, st, I, name, args):
        if name == 'shutdown':
            st.cl = (st.cl[0] | {args[0]}, st.cl[1])
        elif name == 'mutex_lock':
            p = eng.as_ptr(args[0])
            if p.tag == ('conn_priv', 'mutex'):
                for f in ('conn_fd', 'sock_fd'):
                    if f == 'sock_fd' and st.frames[0].fn.name == 'conn_drop':
                        continue
                    q = Ptr(p.b, add(p.o, -eng.prog.off('conn_priv', 'mutex') + eng.prog.off('conn_priv', f)), ('conn_priv', f))
                    t = ir.Ty()
                    t.kind, t.bits, t.size, t.name = 'int', 32, 4, None
                    v = eng.load(st, q, t)
                    if eng.decide(st, 'ne', v, -1) is not False and v not in st.cl[0]:
                        self.bad = True
                        self.ctx.violation(I, 'interrupt-first', 'asks for exclusive access while %s may be open and was not shut down, so a blocked transfer is never interrupted' % f, st)
        return None

    def atoms(self, eng, st, live):
        for v in st.cl[0] | st.cl[1]:
            vatoms(v, live)


def callbacks_by_slot(prog):
    """(struct, worker field) -> callback functions stored into it"""
    out = {}
    for t, h in callback_slots(prog):
        out.setdefault(t, []).append(h)
    return out
