"""One walk over every operation recording lock events; C01-C04 read its results."""
from collections import namedtuple
from .common import *

# operations during which the object of that kind is not yet / no longer shared
PRIVATE = {
    'conn_priv': {'conn_init', 'conn_free'},
    'proxy_priv': {'proxy_init', 'proxy_open', 'proxy_close', 'proxy_free'},
    'proxy_conn_handle': {'proxy_init', 'proxy_open', 'proxy_close', 'proxy_free'},
    'proxy_worker': {'proxy_init', 'proxy_open', 'proxy_close', 'proxy_free'},
    'proxy_conn_priv': {'proxy_conn_init', 'proxy_conn_free'},
    'worker_priv': {'worker_init', 'worker_free'},
    'registration_service_priv': {'registration_service_init', 'registration_service_free'},
    'thread_priv': {'thread_init', 'thread_free'},
}
# set-up operations: the caller owns the handle being set up, nobody else opens sockets in it
SETUP = {('conn_listen', ('conn_priv', 'sock_fd')), ('conn_connect', ('conn_priv', 'sock_fd')),
         ('conn_accept', ('conn_priv', 'conn_fd')), ('conn_accept', ('conn_priv', 'sock_fd'))}
ENDS = {'worker_free', 'worker_join', 'thread_join', 'thread_free', 'pthread_join'}
NETWORK = {'conn_recv', 'conn_recv_any', 'conn_send', 'conn_send_to', 'conn_accept', 'conn_connect',
           'recv', 'recvfrom', 'send', 'sendto', 'accept', 'connect'}
RAWNET = {'recv', 'recvfrom', 'send', 'sendto', 'accept'}
WAITS = {'worker_join', 'worker_free', 'worker_wait_idle', 'thread_join', 'thread_free', 'pthread_join'}

L = namedtuple('L', 'held unlocked ptrs')


class Walk(LockClient):
    """typestate: locks held (pointer, field, mode), unlocked accesses made, guarded pointers read"""
    def __init__(self, session):
        self.session = session
        self.events = []            # (kind, ...)
        self.acq = {}
        self.calls = {}
        self.edges = {}
        self.seen = set()

    def start(self, eng, st, fn):
        self.fn = fn
        return L((), frozenset(), ())

    def atoms(self, eng, st, live):
        for k, tag, mode in st.cl.held:
            live.add(k[0])
            vatoms(k[1], live)
        for b, k, t in st.cl.ptrs:
            live.add(b)

    def prune(self, eng, st, live):
        if st.cl.ptrs:
            st.cl = st.cl._replace(ptrs=tuple(x for x in st.cl.ptrs if x[0] in live))

    out = None

    def ev(self, kind, I, *a):
        k = (kind, I.fn.name, I.line, a)
        if k not in self.seen:
            self.seen.add(k)
            self.events.append((kind, I) + a)

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in LOCK:
            p = eng.as_ptr(args[0])
            k = (p.b, p.o)
            tag, mode = p.tag, LOCK[name]
            if tag is None:
                tag = self.guess(p)
            for (hk, ht, hm) in c.held:
                if hk == k and (mode == 'x' or hm == 'x'):
                    self.viol('C02', I, 'self-deadlock', 'takes %s %s while it already holds it %s' % (
                        self.nm(tag), self.md(mode), self.md(hm)), st)
                elif hk != k:
                    self.edges.setdefault((ht, tag), (I, hm, mode, trace_lines(st)))
                    if ht == tag:
                        self.edges.setdefault((ht, tag), (I, hm, mode, trace_lines(st)))
            self.acq.setdefault((tag, mode), I)
            self.ev('lock', I, tag, mode)
            self.lock_event(eng, st, I, name, args)
            # references read in an earlier critical section of this kind are not followed further
            pt = tuple(x for x in st.cl.ptrs if x[1] == k or x[2] != tag)
            st.cl = st.cl._replace(held=st.cl.held + ((k, tag, mode),), ptrs=pt)
            return 0
        if name in UNLOCK:
            p = eng.as_ptr(args[0])
            k = (p.b, p.o)
            mode = UNLOCK[name]
            h = [x for x in c.held if x[0] == k]
            tag = p.tag or (h[0][1] if h else None) or self.guess(p)
            self.ev('unlock', I, tag, mode)
            if not h:
                self.viol('C01', I, 'unlock-held', 'releases %s which is not held on this path' % self.nm(tag), st)
                return 0
            m = [x for x in h if x[2] == mode]
            if not m:
                self.viol('C01', I, 'unlock-mode', '%s was taken %s but is released %s' % (
                    self.nm(tag), self.md(h[-1][2]), self.md(mode)), st)
                m = h
            l = list(c.held)
            l.remove(m[-1])
            st.cl = c._replace(held=tuple(l))
            return 0
        if name in ('condvar_wait', 'condvar_wait_time'):
            p = eng.as_ptr(args[1])
            h = [x for x in c.held if x[0] == (p.b, p.o)]
            self.ev('wait', I, p.tag)
            if not any(x[2] == 'x' for x in h):
                self.viol('C01', I, 'wait-held', 'waits on a condition without holding %s exclusively' % self.nm(p.tag), st)
            for x in c.held:
                if x[0] != (p.b, p.o):
                    self.viol('C04', I, 'wait-other', 'waits on a condition while also holding %s' % self.nm(x[1]), st)
            # the lock is released while waiting
            self.lock_event(eng, st, I, 'mutex_lock', [args[1]])
            return eng.result(st, I, -4095, 1)
        if name == 'mutex_free':
            p = eng.as_ptr(args[0])
            if any(x[0] == (p.b, p.o) for x in c.held):
                self.viol('C01', I, 'free-held', 'destroys %s while holding it' % self.nm(p.tag), st)
            return 0
        held = tuple((t, m) for _, t, m in c.held)
        if name is None:
            tag = None
            self.ev('callback', I, held)
            for t, m in held:
                self.viol('C04', I, 'callback-unlocked', 'runs a callback while holding %s' % self.nm(t), st)
            return None
        if name in WAITS or name in NETWORK:
            a0 = eng.as_ptr(args[0]) if args and isinstance(args[0], Ptr) else None
            self.ev('block', I, name, a0.tag if a0 is not None else None, held)
        g = eng.prog.funcs.get(name)
        if g is not None and not eng.should_inline(st, g):
            self.calls.setdefault((name, held), (I, trace_lines(st), st))
        if name in ENDS:
            a0 = eng.as_ptr(args[0])
            if a0.tag == ('proxy_worker', 'worker'):
                self.thread_end(eng, st, I, name)
        for a in args:
            if isinstance(a, Ptr):
                for b, k, t in c.ptrs:
                    if a.b == b and not any(x[0] == k for x in c.held):
                        self.viol('C03', I, 'guarded-use', 'uses an object reached through a protected reference after the lock was released', st)
        return None

    def thread_end(self, eng, st, I, name):
        if self.fn.name in ('proxy_close', 'proxy_free'):
            for f in st.cl.unlocked:
                if GUARD_OF[f][1] in ('idle_workers_mutex', 'idle_clients_mutex'):
                    self.viol('C03', I, 'quiescent', '%s.%s was changed without its lock while threads that use it were still running (they end here)' % f, st)

    def guess(self, p):
        d = adesc(p.b)
        return ('?', str(d[:2]), p.o if isinstance(p.o, int) else 0)

    @staticmethod
    def nm(t):
        return '%s.%s' % t[:2] if t else 'a lock'

    @staticmethod
    def md(m):
        return 'exclusively' if m == 'x' else 'shared'

    def viol(self, prop, I, rule, msg, st):
        self.out.append((prop, I, rule, msg, st))

    # ---------------------------------------------------- guarded accesses
    def access(self, eng, st, I, p, write, what='access'):
        f = p.tag
        if f not in GUARD_OF:
            return
        lock = GUARD_OF[f]
        fn = self.fn.name
        self.ev('access', I, f, write)
        if adesc(p.b)[0] == 'H' and fn not in PRIVATE.get(f[0], ()):
            # freshly allocated here: private until published
            return
        if fn in PRIVATE.get(f[0], ()):
            if not any(t == lock for _, t, _ in st.cl.held) and write:
                st.cl = st.cl._replace(unlocked=st.cl.unlocked | {f})
            return
        if (fn, f) in SETUP:
            return
        if f in (('proxy_worker', 'conn_client'), ('proxy_conn_priv', 'conn_client'), ('proxy_conn_priv', 'callsign')):
            if not write and fn in self.session:
                return
            if f[1] == 'callsign' and not write and what != 'strcmp':
                return
        if lock[0] == f[0]:
            if eng.prog.structs[f[0]][eng.prog.off(*f)][1] > 8:      # an array: any element
                h = [x for x in st.cl.held if x[0][0] == p.b and x[1] == lock]
            else:
                o = add(add(p.o, -eng.prog.off(*f)), eng.prog.off(*lock))
                h = [x for x in st.cl.held if x[0] == (p.b, o)]
        else:
            h = [x for x in st.cl.held if x[1] == lock]
        if f == ('proxy_conn_handle', 'next') and write and not h and fn in self.session:
            # a slot taken out of the pool belongs to its session
            return
        if f == ('proxy_worker', 'next') and write and not h and fn in self.session:
            return
        if not h:
            self.viol('C03', I, 'guarded-' + ('write' if write else 'read'),
                      '%s.%s is %s without holding %s.%s' % (f + ('modified' if write else 'read',) + lock), st)
        elif write and not any(x[2] == 'x' for x in h):
            self.viol('C03', I, 'guarded-write', '%s.%s is modified while holding %s.%s only shared' % (f + lock), st)

    def on_load(self, eng, st, I, p):
        self.access(eng, st, I, p, False)
        if p.tag in (('proxy_conn_priv', 'conn_client'), ('proxy_worker', 'conn_client')) and \
                self.fn.name not in self.session and self.fn.name not in PRIVATE[p.tag[0]]:
            v = eng.load(st, p, I.ty)
            if isinstance(v, Ptr):
                lock = GUARD_OF[p.tag]
                o = add(add(p.o, -eng.prog.off(*p.tag)), eng.prog.off(*lock))
                st.cl = st.cl._replace(ptrs=tuple(sorted(set(st.cl.ptrs) | {(v.b, (p.b, o), lock)}, key=repr)))
            return v
        return None

    def on_store(self, eng, st, I, p, v, size):
        self.access(eng, st, I, p, True)

    def on_write(self, eng, st, I, p, n, what):
        self.access(eng, st, I, p, True)

    def on_read(self, eng, st, I, p, n, what):
        self.access(eng, st, I, p, False, what)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        self.ev('return', I)
        for k, tag, mode in st.cl.held:
            self.viol('C01', I, 'released', '%s returns still holding %s (%s)' % (self.fn.name, self.nm(tag), self.md(mode)), st)


def inline_closure(prog, f):
    seen, work, names = set(), [f], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for b in x.blocks:
            for i in b.insts:
                if i.op != 'call':
                    continue
                to = targets(prog, i)
                if not to:
                    names.add(None)
                for g in to:
                    names.add(g if isinstance(g, str) else g[1])
                    h = prog.funcs.get(g)
                    if h is not None and not h.boundary:
                        work.append(h)
    return seen, names


class Locks:
    """whole-program result"""
    def __init__(self, ctx):
        prog = ctx.prog
        self.prog = prog
        self.walks = {}
        self.out = []
        session = {f.name for f in func_of_callbacks(prog)} | {'proxy_conn_process'}
        session -= {'registration_func'}
        rel = set(LOCK) | set(UNLOCK) | WAITS | NETWORK | {None, 'condvar_wait', 'condvar_wait_time'}
        for f in entries(prog):
            if f.module in ('mutex_posix',):
                continue
            seen, names = inline_closure(prog, f)
            gets = f.module in ('proxy', 'proxy_conn', 'worker', 'conn', 'registration', 'thread_posix')
            if not gets and not (names & rel):
                continue
            w = Walk(session)
            w.out = self.out
            ctx.run(w, f, unroll=2, limit=64)
            self.walks[f.name] = w
        # transitive acquisitions
        self.acq = {n: dict(w.acq) for n, w in self.walks.items()}
        self.blocks = {n: {e[2]: e[1] for e in w.events if e[0] == 'block'} for n, w in self.walks.items()}
        ch = True
        while ch:
            ch = False
            for n, w in self.walks.items():
                for (g, held) in w.calls:
                    for k, i in self.acq.get(g, {}).items():
                        if k not in self.acq[n]:
                            self.acq[n][k] = i
                            ch = True

    def report(self, ctx, prop):
        for p, I, rule, msg, st in self.out:
            if p == prop:
                ctx.violation(I, rule, msg, st)
                ctx.obligation(rule, (I.fn.name, I.line, msg), False)

    def count(self, ctx, kind, rule):
        for n, w in self.walks.items():
            for e in w.events:
                if e[0] == kind:
                    ctx.obligation(rule, (e[1].fn.name, e[1].line) + tuple(map(str, e[2:])))


_cache = {}


def get(ctx):
    k = id(ctx.prog)
    if k not in _cache:
        _cache[k] = (Locks(ctx), dict(ctx.analysed), getattr(ctx, 'unmod', {}))
    l, a, u = _cache[k]
    ctx.analysed.update(a)
    ctx.unmod = u
    return l
