"""C07: ownership typestate of socket handles: every handle an operation creates is closed or kept where closing finds
it; kept handles are closed once, after shutting them down, under exclusive access, and marked invalid at once; and no
caller sets up a connection object that may still hold an open handle."""
from ..common import *
from .. import models as M

KEEP = ('sock_fd', 'conn_fd')
ALL = KEEP + ('fd',)
USES = {'recvfrom': 0, 'recv': 0, 'send': 0, 'sendto': 0, 'setsockopt': 0, 'bind': 0, 'listen': 0, 'connect': 0, 'accept': 0,
        'read': 0, 'write': 0, 'shutdown': 0, 'getsockopt': 0, 'fcntl': 0, 'ioctl': 0}
CLOSES = ('close', 'closesocket')
SETUP = {'conn_listen': 0, 'conn_connect': 0, 'conn_accept': 1}      # which argument is set up: it holds no handle


def priv_of(eng, st, a):
    return eng.as_ptr(fld(eng, st, a, 'conn_handle.priv'))


class Handles(DClient):
    """cl: open/closed/down - handles (values); locks - {base of the private data: mode}"""
    def __init__(self, fn):
        self.fn = fn

    def start(self, eng, st, fn):
        if fn.name in SETUP:
            p = priv_of(eng, st, st.frames[0].args[SETUP[fn.name]])
            for f in ALL:
                eng.store(st, lv(eng, p, 'conn_priv.' + f), 4, -1)
        return D(open=(), closed=(), down=(), locks=(), dirty=())

    # ---------------------------------------------------------------- helpers
    def same(self, eng, st, x, y):
        if x == y:
            return True
        return eng.decide(st, 'eq', x, y)

    def inn(self, eng, st, v, l):
        return any(self.same(eng, st, v, x) is True for x in l)

    def stored(self, eng, st, v):
        """is v the content some handle field had at entry (or a value loaded from one)?"""
        if isinstance(v, Lin) and len(v.t) == 1 and v.k == 0:
            d = adesc(v.t[0][0])
            return d[0] in ('init', 'ld', 'mix', 'lk')
        return False

    def base_of(self, eng, v):
        d = adesc(v.t[0][0])
        return d[1] if d[0] == 'init' else None

    def mode(self, st, b):
        return dict(st.cl.get('locks')).get(b, 0)

    def objects(self, eng, st):
        out = []
        for a, (i, t) in zip(st.frames[0].args, self.fn.params):
            if isinstance(a, Ptr) and not (a.b is None):
                x = self.kinds.get(i)
                if x:
                    p = priv_of(eng, st, a)
                    if isinstance(p, Ptr) and null(eng, st, p) is not True:
                        out.append(p)
        return out

    kinds = {}

    def on_load(self, eng, st, I, p):
        if p.tag == ('conn_handle', 'priv'):
            for a, (i, t) in zip(st.frames[0].args, self.fn.params):
                if isinstance(a, Ptr) and a.b == p.b:
                    self.kinds[i] = True
        return None

    # ---------------------------------------------------------------- events
    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in LOCK or name in UNLOCK:
            p = eng.as_ptr(args[0])
            l = dict(c.get('locks'))
            if name in LOCK:
                l[p.b] = 2 if LOCK[name] == 'x' else 1
            else:
                if l.get(p.b) == 2:
                    self.leave(eng, st, I, p)
                l.pop(p.b, None)
            st.cl = st.cl.set(locks=tuple(sorted(l.items())))
            return 0
        if name in ('socket', 'accept'):
            if name == 'accept':
                self.use(eng, st, I, name, args[0])
            s1, s2 = st.copy(), st.copy()
            h = lin(eng.fresh(s1, ('handle', name) + eng.site(s1, I), 0, (1 << 31) - 1))
            s1.cl = s1.cl.set(open=s1.cl.get('open') + (h,))
            if name == 'accept' and isinstance(args[1], Ptr):
                for s in (s1, s2):
                    eng.blob(s, args[1], 128, 'data', atom(('peer',)))
            M.set_errno(eng, s2, I)
            return [(h, s1), (-1, s2)]
        if name in CLOSES:
            return self.close(eng, st, I, args[0])
        if name == 'shutdown':
            self.use(eng, st, I, name, args[0])
            if args[1] != 2:
                self.bad(I, 'shutdown', 'only one direction is shut down: whoever waits in the other is not released', st)
            st.cl = st.cl.set(down=c.get('down') + (args[0],) if args[0] not in c.get('down') else c.get('down'))
            return 0
        if name in ('dup', 'dup2', 'dup3', 'open', 'pipe'):
            self.bad(I, 'untracked', '%s creates a handle nobody closes' % name, st)
            return None
        if name in USES and name != 'shutdown':
            self.use(eng, st, I, name, args[0])
            return None
        if name == 'conn_close' and self.fn.name != 'conn_close' or name == 'conn_shutdown':
            # another operation of this module on the same object: do what it is verified to do
            p = priv_of(eng, st, args[0])
            dn = list(st.cl.get('down'))
            for f in KEEP:
                v = eng.load(st, lv(eng, p, 'conn_priv.' + f), ity(32))
                if v not in dn:
                    dn.append(v)
            st.cl = st.cl.set(down=tuple(dn))
            if isinstance(args[0], Ptr):
                for a, (i, t) in zip(st.frames[0].args, self.fn.params):
                    if isinstance(a, Ptr) and a.b == args[0].b:
                        self.kinds[i] = True
            if name == 'conn_close':
                op = list(st.cl.get('open'))
                for f in ALL:
                    v = eng.load(st, lv(eng, p, 'conn_priv.' + f), ity(32))
                    op = [x for x in op if x != v]
                    eng.store(st, lv(eng, p, 'conn_priv.' + f), 4, -1)
                st.cl = st.cl.set(open=tuple(op))
            return 0
        return None

    def use(self, eng, st, I, name, v):
        c = st.cl
        if self.inn(eng, st, v, c.get('closed')):
            self.bad(I, 'use', '%s uses a handle that was closed' % name, st)
            return
        if self.inn(eng, st, v, c.get('open')):
            self.ok(I, 'use', (I.fn.name, name, 'own'))
            return
        if v == -1:
            self.bad(I, 'use', '%s uses an invalid handle' % name, st)
            return
        if self.stored(eng, st, v):
            b = self.base_of(eng, v)
            if b is not None and self.mode(st, b) == 0:
                self.bad(I, 'use', '%s uses a handle another thread may close meanwhile' % name, st)
            else:
                self.ok(I, 'use', (I.fn.name, name))

    def close(self, eng, st, I, v):
        c = st.cl
        if self.inn(eng, st, v, c.get('closed')):
            self.bad(I, 'once', 'the handle is closed a second time', st)
            return 0
        if self.inn(eng, st, v, c.get('open')):
            st.cl = c.set(open=tuple(x for x in c.get('open') if self.same(eng, st, x, v) is not True), closed=c.get('closed') + (v,))
            self.ok(I, 'once', (I.fn.name, 'own'))
            return 0
        if v == -1 or isinstance(v, int):
            self.bad(I, 'once', 'what is closed is not a handle', st)
            return 0
        b = self.base_of(eng, v) if self.stored(eng, st, v) else None
        if b is None:
            self.bad(I, 'once', 'it is not decided which handle is closed here', st)
            return 0
        if eng.decide(st, 'eq', v, -1) is not False:
            self.bad(I, 'once', 'the handle may have been invalid or closed before', st)
        elif self.mode(st, b) != 2:
            self.bad(I, 'exclusive', 'the handle is closed without exclusive access: another thread may be using it', st)
        elif not self.inn(eng, st, v, c.get('down')):
            self.bad(I, 'exclusive', 'the handle is closed without having been shut down: those who wait on it are not released', st)
        else:
            self.ok(I, 'once', (I.fn.name, I.line))
        st.cl = st.cl.set(closed=c.get('closed') + (v,), dirty=tuple(sorted(set(c.get('dirty')) | {b})))
        return 0

    def leave(self, eng, st, I, p):
        """exclusive access ends"""
        base = Ptr(p.b, add(p.o, -eng.prog.off('conn_priv', 'mutex')))
        if p.b not in st.cl.get('dirty'):
            return
        for f in ALL:
            v = eng.load(st, lv(eng, base, 'conn_priv.' + f), ity(32))
            bad = self.inn(eng, st, v, st.cl.get('closed'))
            if f == 'fd' and v != -1 and self.stored(eng, st, v):
                bad = True
            if bad:
                self.bad(I, 'invalid', '%s still names a closed handle when exclusive access ends' % f, st)
            else:
                self.ok(I, 'invalid', (I.fn.name, f))
        st.cl = st.cl.set(dirty=tuple(x for x in st.cl.get('dirty') if x != p.b))

    def on_store(self, eng, st, I, p, v, size):
        if p.tag is None or p.tag[0] != 'conn_priv' or p.tag[1] not in KEEP or size != 4:
            return
        old = eng.load(st, p, ity(32))
        c = st.cl
        if old == -1 or self.inn(eng, st, old, c.get('closed')) or eng.decide(st, 'eq', old, -1) is True or self.same(eng, st, old, v):
            self.ok(I, 'overwrite', (I.fn.name, I.line))
        elif self.stored(eng, st, old) and self.fn.name == 'conn_init':
            self.ok(I, 'overwrite', (I.fn.name, I.line))
        elif self.inn(eng, st, old, c.get('open')):
            pass                    # whoever took it over must close or keep it: rule 'leak' at the end
        elif isinstance(old, int) and self.fn.name == 'conn_init':
            pass
        else:
            self.bad(I, 'overwrite', 'a handle that may be open is overwritten', st)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c = st.cl
        nm = self.fn.name
        kept = []
        for p in self.objects(eng, st):
            for f in ALL:
                x = eng.load(st, lv(eng, p, 'conn_priv.' + f), ity(32))
                if f != 'fd':
                    kept.append(x)
                if self.inn(eng, st, x, c.get('closed')):
                    self.bad(I, 'invalid', '%s still names a closed handle at the end of %s' % (f, nm), st)
                if x != -1 and nm in ('conn_close', 'conn_drop') and f in (('fd', 'conn_fd') if nm == 'conn_drop' else ALL) and \
                        eng.decide(st, 'eq', x, -1) is not True:
                    self.bad(I, 'all', '%s leaves %s open' % (nm, f), st)
                elif nm in ('conn_close', 'conn_drop'):
                    self.ok(I, 'all', (nm, f))
                if nm == 'conn_shutdown' and f != 'fd':
                    if eng.decide(st, 'eq', x, -1) is not True and not self.inn(eng, st, x, c.get('down')) and not self.inn(eng, st, x, c.get('closed')):
                        self.bad(I, 'all', '%s does not shut %s down' % (nm, f), st)
                    else:
                        self.ok(I, 'all', (nm, f))
                if nm == 'conn_init' and isneg(eng, st, v) is False and x != -1:
                    self.bad(I, 'fresh', 'a new connection starts with %s naming handle %s' % (f, x if isinstance(x, int) else 'unknown'), st)
                elif nm == 'conn_init':
                    self.ok(I, 'fresh', f)
        for h in c.get('open'):
            if not self.inn(eng, st, h, kept):
                self.bad(I, 'leak', 'the handle %s created is neither closed nor kept' % nm, st)
            else:
                self.ok(I, 'leak', (nm, I.line))
        if nm in SETUP:
            p = priv_of(eng, st, st.frames[0].args[SETUP[nm]])
            x = eng.load(st, lv(eng, p, 'conn_priv.fd'), ity(32))
            if isneg(eng, st, v) is False and not self.inn(eng, st, x, c.get('open')):
                self.bad(I, 'usable', '%s succeeds without the connection being usable' % nm, st)
            elif isneg(eng, st, v) is True and self.inn(eng, st, x, c.get('open')):
                self.bad(I, 'usable', '%s fails leaving the connection in use' % nm, st)
            elif nm != 'conn_accept' and isneg(eng, st, v) is True and any(
                    self.inn(eng, st, eng.load(st, lv(eng, p, 'conn_priv.' + f), ity(32)), c.get('open')) for f in KEEP):
                # who tries again (connecting or opening anew) would lose it
                self.bad(I, 'left', '%s fails keeping an open handle, which the next attempt overwrites' % nm, st)
            else:
                self.ok(I, 'usable', (nm, I.line))


# callers that set up a member of a longer-lived object; what makes it closed then
CLOSED_BY = {
    'proxy_open': 'the caller opens a proxy that is not open (proxy_close closes the listener: D03)',
    'proxy_client_connect': 'the caller connects a client that is not connected (proxy_client_disconnect closes it)',
    'proxy_conn_accept': 'the slot was free: it is freed only after its endpoints were closed (F05)',
}


class Callers(DClient):
    def start(self, eng, st, fn):
        return D(st=())

    def on_call(self, eng, st, I, name, args):
        c = dict(st.cl.get('st'))
        if name in SETUP:
            p = eng.as_ptr(args[SETUP[name]])
            k = (p.b, repr(p.o))
            top = st.frames[0].fn.name
            s = c.get(k)
            if s == 'open' or s is None and top not in CLOSED_BY:
                self.bad(I, 'reuse', '%s is called for a connection that may still hold a handle' % name, st)
            else:
                self.ok(I, 'reuse', (top, I.fn.name, name, s))
            c[k] = 'open'
            st.cl = st.cl.set(st=tuple(sorted(c.items(), key=repr)))
            return None
        if name in ('conn_close', 'conn_init', 'conn_free'):
            p = eng.as_ptr(args[0])
            if name != 'conn_init' or c.get((p.b, repr(p.o))) != 'open':
                c[(p.b, repr(p.o))] = 'closed'
            st.cl = st.cl.set(st=tuple(sorted(c.items(), key=repr)))
        return None


def run(ctx):
    P = ctx.prog
    n = 0
    for f in entries(P, ('conn',)):
        h = Handles(f)
        h.kinds = {}
        ctx.run(h, f, unroll=2)
        n += 1
    for f in entries(P):
        if f.module == 'conn':
            continue
        fns, names = reach(P, f, stop=[g.name for g in P.allf if g.boundary])
        if any(x in SETUP for x in names):
            ctx.run(Callers(), f, unroll=3)
    ctx.assumptions = ['%s: %s' % x for x in sorted(CLOSED_BY.items())] + [
        'the POSIX build configuration is analysed', 'libc and POSIX behave as documented (sa/models.py)']
    if not ctx.viol:
        ctx.need('leak', 1, 'handles created')
        ctx.need('once', 2, 'handles closed')
        ctx.need('reuse', 3, 'set-up calls')

