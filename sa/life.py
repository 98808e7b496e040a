"""D03: closing (and a failed opening) leaves a proxy that can be opened again.

Everything proxy_close leaves behind is collected; opening is then analysed from exactly that (a field that is not
reset by every close or failed open counts as stale), so that it does not matter which of the two resets what."""
from .common import *
from . import slots

CL, WK = atom(('O', 'node', 'array', 'clients')), atom(('O', 'node', 'array', 'workers'))
HEADS = ('idle_workers_head', 'idle_clients_head', 'idle_clients_tail_ptr')
TAKEN = ('registration_service_stop', 'proxy_shutdown', 'proxy_drop')
PIECES = ('proxy_shutdown', 'proxy_drop')


def inl(fn):
    return True if fn.name in PIECES else None


def priv_of(eng, st):
    return eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv'))


def pf(eng, st, name, bits=None):
    return eng.load(st, lv(eng, priv_of(eng, st), 'proxy_priv.' + name), ity(bits) if bits else pty())


def index(eng, st, p, b, struct, off=0):
    sz = eng.prog.sizes[struct]
    p = eng.as_ptr(p)
    if b is None or p.b != b or not isinstance(p.o, int) or (p.o - off) % sz:
        return None
    return (p.o - off) // sz


def mapzero(eng, st):
    b = lv(eng, priv_of(eng, st), 'proxy_priv.clients_by_call')
    return all(null(eng, st, eng.load(st, Ptr(b.b, add(b.o, 8 * i), b.tag), pty())) is True for i in range(256))


def clean(eng, st):
    """{field: is it reset}"""
    r = {h: null(eng, st, pf(eng, st, h)) is True for h in HEADS}
    r['map'] = mapzero(eng, st)
    return r


class Events(DClient):
    def base(self, eng, st):
        """(block of the slots, block of the workers)"""
        return CL, WK

    def event(self, eng, st, I, name, args):
        """(kind, index) of a call that matters here"""
        cl, wk = self.base(eng, st)
        W = eng.prog.off('proxy_worker', 'worker')
        if name in ('proxy_conn_init', 'proxy_conn_free', 'proxy_conn_drop'):
            i = index(eng, st, args[0], cl, 'proxy_conn_handle')
            return (name, i)
        if name in ('worker_init', 'worker_free', 'worker_join'):
            i = index(eng, st, args[0], wk, 'proxy_worker', W)
            return None if i is None else (name, i)
        if name in ('conn_shutdown', 'conn_close', 'conn_free'):
            if eng.as_ptr(args[0]).tag == ('proxy_priv', 'conn_listen'):
                return (name, 'listen')
            return None
        if name in ('registration_service_stop', 'log_close'):
            return (name, 0)
        if name == 'free':
            if isinstance(args[0], Ptr) and args[0].b in (cl, wk) and args[0].o == 0:
                return ('free', 'slots' if args[0].b == cl else 'workers')
        return None


class Close(Events):
    def __init__(self, n):
        self.n = n
        self.left = None

    def start(self, eng, st, fn):
        return D(ev=(), drop=())

    def peel(self, eng, st, hdr):
        return self.n + 2

    def setup(self, eng, st):
        b = priv_of(eng, st)
        eng.store(st, lv(eng, b, 'proxy_priv.num_clients'), 4, self.n)
        eng.store(st, lv(eng, b, 'proxy_priv.clients'), 8, Ptr(CL, 0) if self.n else 0)
        eng.store(st, lv(eng, b, 'proxy_priv.client_workers'), 8, Ptr(WK, 0) if self.n else 0)

    def distinct(self, eng, st, a, b):
        return None

    def on_call(self, eng, st, I, name, args):
        if name in LOCK or name in UNLOCK:
            return 0
        if name == 'conn_drop':
            p = args[0]
            for i in range(self.n):
                f = Ptr(WK, i * eng.prog.sizes['proxy_worker'] + eng.prog.off('proxy_worker', 'conn_client'))
                if eng.decide(st, 'eq', eng.load(st, f, pty()), p) is True:
                    st.cl = st.cl.set(drop=tuple(sorted(set(st.cl.get('drop') + (i,)))))
            return 0
        e = self.event(eng, st, I, name, args)
        if e is None:
            return None
        ev = st.cl.get('ev')
        if e in (('conn_close', 'listen'), ('conn_free', 'listen')):
            e = ('conn_close', 'listen')
        k, i = e
        if i is None or isinstance(i, int) and k.startswith(('worker', 'proxy_conn')) and not 0 <= i < self.n:
            self.bad(I, 'close', 'closing %d slots touches something that is not one of them' % self.n, st, k)
            return 0
        if k in ('worker_free', 'worker_join'):
            conns = [i for i in range(self.n) if ('proxy_conn_drop', i) not in ev]
            f = Ptr(WK, i * eng.prog.sizes['proxy_worker'] + eng.prog.off('proxy_worker', 'conn_client'))
            if conns:
                self.bad(I, 'drop', 'a worker is waited for while the station of a slot has not been disconnected', st, 'slot')
            elif i not in st.cl.get('drop') and null(eng, st, eng.load(st, f, pty())) is not True and (k, i) not in ev:
                self.bad(I, 'drop', 'a worker is waited for while the connection it was handed has not been disconnected', st, 'conn')
            else:
                self.ok(I, 'drop', (self.n, i))
            if ('conn_shutdown', 'listen') not in ev and ('conn_close', 'listen') not in ev:
                self.bad(I, 'shut', 'workers are ended while new clients can still connect', st)
            else:
                self.ok(I, 'shut')
        if k == 'proxy_conn_free' or e == ('free', 'workers') or e == ('free', 'slots'):
            run = [j for j in range(self.n) if ('worker_free', j) not in ev and ('worker_join', j) not in ev]
            if run:
                self.bad(I, 'join', '%s released while a worker thread that uses %s may still run' % (
                    ('the workers are' if i == 'workers' else 'slots are'), 'them'), st, e[0])
            else:
                self.ok(I, 'join', (self.n, e))
        if e == ('free', 'slots'):
            miss = [j for j in range(self.n) if ('proxy_conn_free', j) not in ev]
            if miss:
                self.bad(I, 'free', 'the slots are released without having been ended', st)
            else:
                self.ok(I, 'free', self.n)
        if e == ('free', 'workers'):
            miss = [j for j in range(self.n) if ('worker_free', j) not in ev]
            if miss:
                self.bad(I, 'free', 'the workers are released without having been ended', st, 'w')
            else:
                self.ok(I, 'free', ('w', self.n))
        if e not in ev:
            st.cl = st.cl.set(ev=tuple(sorted(ev + (e,), key=repr)))
        if name in ('registration_service_stop',):
            return None
        return 0 if I.ty.kind == 'void' else None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        ev = st.cl.get('ev')
        for e, msg in ((('registration_service_stop', 0), 'closing does not stop the registration service'),
                       (('conn_close', 'listen'), 'closing leaves the listener open'),
                       (('log_close', 0), None)):
            if e not in ev and msg:
                self.bad(I, 'close', msg, st, e[0])
            else:
                self.ok(I, 'close', e)
        for i in range(self.n):
            for k, msg in (('worker_free', 'a worker is not ended by closing'), ('proxy_conn_free', 'a slot is not ended by closing')):
                if (k, i) not in ev:
                    self.bad(I, 'close', msg, st, (k,))
                else:
                    self.ok(I, 'close', (self.n, k, i))
        empty(self, eng, st, I, 'closing')
        c = clean(eng, st)
        self.left = c if self.left is None else {k: self.left[k] and c[k] for k in c}


def empty(self, eng, st, I, what):
    """no slots: closing again or freeing finds nothing"""
    n = pf(eng, st, 'num_clients', 32)
    if eng.decide(st, 'eq', n, 0) is not True:
        self.bad(I, 'reset', '%s leaves a number of slots behind' % what, st, 'n')
    else:
        self.ok(I, 'reset', (what, 'n'))
    for f in ('clients', 'client_workers'):
        if null(eng, st, pf(eng, st, f)) is not True:
            self.bad(I, 'reset', '%s leaves a reference to the released %s behind' % (
                what, 'slots' if f == 'clients' else 'workers'), st, f)
        else:
            self.ok(I, 'reset', (what, f))


class ReOpen(slots.Open, Events):
    def __init__(self, n, prior):
        slots.Open.__init__(self, n)
        self.prior = prior
        self.left = None

    def start(self, eng, st, fn):
        return D(inits=(), ev=())

    def setup(self, eng, st):
        slots.Open.setup(self, eng, st)
        b = priv_of(eng, st)
        eng.store(st, lv(eng, b, 'proxy_priv.num_clients'), 4, 0)
        for f in ('clients', 'client_workers'):
            eng.store(st, lv(eng, b, 'proxy_priv.' + f), 8, 0)
        for h in HEADS:
            eng.store(st, lv(eng, b, 'proxy_priv.' + h), 8, 0 if self.prior[h] else Ptr(atom(('O', 'stale', h)), 0))
        m = lv(eng, b, 'proxy_priv.clients_by_call')
        for i in range(256):
            eng.store(st, Ptr(m.b, add(m.o, 8 * i), m.tag), 8, 0 if self.prior['map'] else Ptr(atom(('O', 'stale', 'map')), 0))

    def base(self, eng, st):
        a, b = pf(eng, st, 'clients'), pf(eng, st, 'client_workers')
        return (a.b if isinstance(a, Ptr) else None), (b.b if isinstance(b, Ptr) else None)

    def on_call(self, eng, st, I, name, args):
        e = self.event(eng, st, I, name, args)
        if e is None or e[1] is None:
            return None
        k, i = e
        ev = st.cl.get('ev')
        if k in ('proxy_conn_init', 'worker_init'):
            s2 = st.copy()
            st.cl = st.cl.set(ev=tuple(sorted(set(ev + (e,)), key=repr)))
            return [(0, st), (lin(eng.fresh(s2, ('ierr', k) + eng.site(s2, I), -4095, -1)), s2)]
        if k in ('proxy_conn_free', 'worker_free'):
            w = (k.replace('free', 'init'), i)
            st.cl = st.cl.set(ev=tuple(x for x in ev if x != w))
            return 0
        if k == 'free':
            kind = 'proxy_conn_init' if i == 'slots' else 'worker_init'
            if any(x[0] == kind for x in ev):
                self.bad(I, 'undo', 'a failing open releases %s without ending those it had set up' % i, st, i)
            else:
                self.ok(I, 'undo', (self.n, i))
        return None

    def chain(self, eng, st, head, b, struct):
        out, p = [], head
        while isinstance(p, Ptr) and len(out) <= self.n + 1:
            i = index(eng, st, p, b, struct)
            if i is None:
                return None
            out.append(i)
            p = eng.load(st, lv(eng, p, struct + '.next'), pty())
        return out if p == 0 and isinstance(p, int) else None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        if isneg(eng, st, v) is True:
            if eng.decide(st, 'eq', fld(eng, st, st.frames[0].args[0], 'proxy_handle.conf.proxy_conf.password'), 0) is not True:
                empty(self, eng, st, I, 'a failing open')
            c = clean(eng, st)
            self.left = c if self.left is None else {k: self.left[k] and c[k] for k in c}
            return
        self.good += 1
        cl, wk = self.base(eng, st)
        every = list(range(self.n + 1))
        ws = self.chain(eng, st, pf(eng, st, 'idle_workers_head'), wk, 'proxy_worker')
        if ws is None or sorted(ws) != every:
            self.bad(I, 'clean', 'after opening again not exactly the %d new workers are available' % (self.n + 1), st, 'w')
        else:
            self.ok(I, 'clean', (self.n, 'workers'))
        h = pf(eng, st, 'idle_clients_head')
        cs = self.chain(eng, st, h, cl, 'proxy_conn_handle')
        if cs is None or sorted(cs) != every:
            self.bad(I, 'clean', 'after opening again not exactly the %d new slots are available' % (self.n + 1), st, 'c')
        else:
            sz = eng.prog.sizes['proxy_conn_handle']
            prev = lv(eng, priv_of(eng, st), 'proxy_priv.idle_clients_head')
            good = True
            for i in cs:
                c = Ptr(cl, sz * i)
                good = good and eng.decide(st, 'eq', eng.load(st, lv(eng, c, 'proxy_conn_handle.prev_ptr'), pty()), prev) is True
                prev = lv(eng, c, 'proxy_conn_handle.next')
                for f in ('prev_by_call_ptr', 'next_by_call'):
                    good = good and null(eng, st, eng.load(st, lv(eng, c, 'proxy_conn_handle.' + f), pty())) is True
            good = good and eng.decide(st, 'eq', pf(eng, st, 'idle_clients_tail_ptr'), prev) is True
            if not good:
                self.bad(I, 'clean', 'after opening again the pool of slots is not properly linked', st, 'l')
            else:
                self.ok(I, 'clean', (self.n, 'slots'))
        if not mapzero(eng, st):
            self.bad(I, 'clean', 'after opening again the callsign map refers to slots that are gone', st, 'm')
        else:
            self.ok(I, 'clean', (self.n, 'map'))
        if len([x for x in st.cl.get('ev') if x[0] == 'worker_init']) != self.n + 1 or \
                len([x for x in st.cl.get('ev') if x[0] == 'proxy_conn_init']) != self.n + 1:
            self.bad(I, 'clean', 'opening succeeds although not every slot and worker was set up', st, 'i')
        else:
            self.ok(I, 'clean', (self.n, 'init'))


class Release(DClient):
    """proxy_conn_free and worker_free: threads are joined before what they use is released"""
    def __init__(self, kind):
        self.kind = kind

    def start(self, eng, st, fn):
        return D(done=())

    def on_call(self, eng, st, I, name, args):
        p = eng.as_ptr(args[0]) if args else None
        done = st.cl.get('done')
        if self.kind == 'conn':
            if name in ('worker_free', 'worker_join') and p.tag and p.tag[0] == 'proxy_conn_priv':
                st.cl = st.cl.set(done=tuple(sorted(set(done + (p.tag[1],)))))
                return 0
            pv = fld(eng, st, st.frames[0].args[0], 'proxy_conn_handle.priv')
            rel = name in ('conn_free', 'mutex_free', 'condvar_free') and p.tag and p.tag[0] == 'proxy_conn_priv' or \
                name == 'free' and isinstance(args[0], Ptr) and eng.decide(st, 'eq', args[0], pv) is True
            need = ('worker_control', 'worker_data', 'worker_tcp')
            if rel:
                miss = [x for x in need if x not in done]
                if miss:
                    self.bad(I, 'relay', 'a slot is released while its relay (%s) may still run' % miss[0], st, name)
                else:
                    self.ok(I, 'relay', p.tag)
        else:
            if name in ('worker_join', 'thread_join'):
                st.cl = st.cl.set(done=('join',))
                return eng.result(st, I, -4095, 0)
            pv = fld(eng, st, st.frames[0].args[0], 'worker_handle.priv')
            rel = name in ('thread_free', 'mutex_free', 'condvar_free') or \
                name == 'free' and isinstance(args[0], Ptr) and eng.decide(st, 'eq', args[0], pv) is True
            if rel:
                if not done:
                    self.bad(I, 'thread', 'a worker is released while its thread may still run', st, name)
                else:
                    self.ok(I, 'thread', name)
        return None


class Join(DClient):
    """worker_join waits for the thread"""
    def start(self, eng, st, fn):
        return D(join=False)

    def on_call(self, eng, st, I, name, args):
        if name in ('thread_join', 'pthread_join'):
            st.cl = st.cl.set(join=True)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        if isneg(eng, st, v) is not True and not st.cl.get('join'):
            self.bad(I, 'thread', 'a worker counts as stopped although its thread was not waited for', st, 'join')
        else:
            self.ok(I, 'thread', 'join')


def d03(ctx):
    P = ctx.prog
    fn = P.fn('proxy_close')
    left = None
    for n in range(0, 4):
        c = Close(n)
        ctx.run(c, fn, unroll=40, setup=c.setup, inline=inl)
        if c.left is not None:
            left = c.left if left is None else {k: left[k] and c.left[k] for k in left}
    ctx.run(Release('conn'), P.fn('proxy_conn_free'))
    ctx.run(Release('worker'), P.fn('worker_free'))
    ctx.run(Join(), P.fn('worker_join'))
    if left is None:
        ctx.errors.append('proxy_close never returns')
        return
    # from what closing leaves behind, and then from what a failing open leaves behind
    for rnd in range(3):
        new = dict(left)
        for n in range(0, 3):
            c = ReOpen(n, left)
            ctx.run(c, P.fn('proxy_open'), unroll=40, setup=c.setup)
            if c.left is not None:
                new = {k: new[k] and c.left[k] for k in new}
            if not c.good and not ctx.viol:
                ctx.errors.append('proxy_open never succeeds')
        if new == left:
            break
        left = new
    ctx.notes.append('left behind by every close and failed open: %s' % ', '.join(k for k in sorted(left) if left[k]))
