"""R01: initialisation and release of every kind of object (on the ownership typestate of heap.py)."""
from .heap import *
from . import heap

NOTHING = {'conf'}                          # initialising a configuration acquires nothing
STOPS = {'worker_join': 'worker', 'thread_join': 'thread', 'registration_service_stop': 'registration', 'proxy_conn_stop': 'proxy_conn'}
# released by the worker before it returns to the pool (R02, S04), which worker_free waits for
ELSEWHERE = {('proxy_worker', 'conn_client')}
SOCKETS = (('conn_priv', 'sock_fd'), ('conn_priv', 'conn_fd'))
KINDS = {'registration_service': 'registration', 'mutex': 'mutex'}


def objects(P):
    """kind -> (init function, free function)"""
    out = {}
    for f in P.allf:
        if f.name.endswith('_free') and f.params and f.params[0][1].kind == 'ptr':
            x = f.name[:-5]
            i = next((g for g in P.allf if g.name == x + '_init' and g.params), None)
            if i is not None:
                out[x] = (i, f)
    return out


class Own(Heap):
    record = True

    def __init__(self, obj, mode, info):
        Heap.__init__(self, ['once', 'subs', 'dangling', 'init', 'free', 'order', 'harmless', 'fresh', 'inner', 'fd', 'setup'] + (['null', 'use'] if mode == 'none' else []))
        self.obj, self.mode, self.info = obj, mode, info

    # a handle's own fields, or those of its private part
    def mine(self, t):
        return t is not None and (t[0] == self.obj or t[0] == self.obj + '_handle' or t[0].startswith(self.obj + '_priv')
                                  or self.obj == 'conf' and t[0] == 'proxy_conf')

    def setup(self, eng, st):
        a = st.frames[0].args[0]
        if self.mode == 'none' and self.obj == 'conf':
            n = eng.prog.sizes['proxy_conf']
            for o in range(0, n, 8):
                eng.store(st, Ptr(a.b, o), min(8, n - o), 0)
        if (self.obj + '_handle', 'priv') in eng.prog.fieldoff:
            o = eng.prog.off(self.obj + '_handle', 'priv')
            if self.mode in ('init', 'none'):
                eng.store(st, Ptr(a.b, o), 8, 0)
            else:
                eng.assume(st, 'ne', eng.load(st, Ptr(a.b, o), pty()), 0)

    def overwrites(self, I):
        return self.mode == 'free'

    def pending(self, st):
        """sub-objects with threads that have not been stopped"""
        rel = set(st.cl.get('rel'))
        return [(t, k) for t, k in self.info['subs'].get(self.obj, ()) if k in self.info['thready'] and (t, k) not in rel and (t, 'stopped') not in rel]

    def order(self, eng, st, I, k, p):
        if self.mode != 'free' or k in self.info['thready']:
            return
        if k == 'heap' and not self.inside(eng, p):
            return
        for t, kk in self.pending(st):
            self.bad(I, 'order', '%s: something is destroyed while the %s %s.%s may run' % (self.fn.name, kk, t[0], t[1]), st)
        self.ok(I, 'order', (self.fn.name, I.line, k))

    def inside(self, eng, p):
        return True

    def note(self, st, x):
        st.cl = st.cl.set(rel=tuple(sorted(set(st.cl.get('rel')) | {x}, key=repr)))

    def on_call(self, eng, st, I, name, args):
        if name in LOCK or name in UNLOCK:
            return 0
        if self.mode == 'none' and (name in ENDS and args or name in RELEASE and null(eng, st, args[0]) is not True):
            self.bad(I, 'harmless', '%s releases parts of an object that was never set up' % self.fn.name, st)
            return 0
        if name in STOPS:
            p = eng.as_ptr(args[0])
            g = eng.prog.funcs.get(name)
            if p.tag and not (g is not None and eng.should_inline(st, g)):
                self.note(st, (p.tag, 'stopped'))
        if name == 'pthread_join':
            self.note(st, ('thread', 'ended'))
        if name in ('close', 'shutdown') and self.obj == 'conn':
            if name == 'close':
                if ('closed', args[0]) in st.cl.get('rel'):
                    self.bad(I, 'once', 'a socket is closed twice', st)
                self.note(st, ('closed', args[0]))
            return 0
        if name in ENDS and args:
            p = eng.as_ptr(args[0])
            k = ENDS[name]
            if self.mode == 'free' and p.tag is not None and self.mine(p.tag) and I.fn.module == self.fn.module:
                if (p.tag, k) not in self.info['always'].get(self.obj, ()):
                    self.bad(I, 'setup', '%s tears down %s.%s, which initialisation does not set up' % ((self.fn.name,) + p.tag), st)
                else:
                    self.ok(I, 'setup', (self.fn.name, p.tag))
            if self.mode == 'free' and (p.tag, k) in st.cl.get('rel') and self.mine(p.tag) and self.single(eng, p):
                self.bad(I, 'once', '%s: %s.%s is torn down twice' % ((self.fn.name,) + p.tag), st)
        if name in ('proxy_log', 'log_printf', 'log_vprintf') and self.mode == 'none':
            return 0
        return Heap.on_call(self, eng, st, I, name, args)

    def others(self, eng, st, I, p):
        t = self.names.get(p.b) or cfgname(p.b)
        for k in self.info['inner'].get(t, ()):
            if (p.b, 0, k) not in st.cl.get('ended') and isinstance(p.o, int):
                self.bad(I, 'inner', '%s.%s is released although its %s was not torn down' % (t[0], t[1], k), st)
            else:
                self.ok(I, 'inner', (I.fn.name, I.line))
        if self.mode == 'free':
            self.whole(eng, st, I, p.b, t)

    def whole(self, eng, st, I, b, t):
        """the object at b goes: everything it owns must be gone"""
        if not t or t[1] != 'priv' or not self.mine(t):
            return
        rel = set(st.cl.get('rel'))
        for f in sorted(self.info['owned']):
            if self.mine(f) and f[0].startswith(self.obj + '_priv') and f not in ELSEWHERE:
                v = eng.load(st, Ptr(b, eng.prog.off(*f)), pty())
                if (f, 'heap') not in rel and null(eng, st, v) is not True:
                    self.bad(I, 'free', '%s does not release %s.%s' % ((self.fn.name,) + f), st)
                else:
                    self.ok(I, 'free', (self.fn.name, f))
        if self.obj == 'conn':
            for f in SOCKETS:
                v = eng.load(st, Ptr(b, eng.prog.off(*f)), ity(32))
                if eng.decide(st, 'eq', v, -1) is not True and ('closed', v) not in rel:
                    self.bad(I, 'fd', '%s does not close %s.%s' % ((self.fn.name,) + f), st)
                else:
                    self.ok(I, 'fd', (self.fn.name, f))
        if self.obj == 'thread':
            v = eng.load(st, Ptr(b, eng.prog.off('thread_priv', 'dirty')), ity(8))
            if ('thread', 'ended') not in rel and eng.decide(st, 'eq', v, 0) is not True:
                self.bad(I, 'order', '%s does not wait for the thread' % self.fn.name, st)
            else:
                self.ok(I, 'order', (self.fn.name, I.line))

    def finish(self, eng, st, I, v):
        a = st.frames[0].args[0]
        c = st.cl
        rel = set(c.get('rel'))
        h = (self.obj + '_handle', 'priv')
        pv = None
        if h in eng.prog.fieldoff:
            pv = eng.load(st, Ptr(a.b, eng.prog.off(*h)), pty())
        if self.mode == 'init':
            if isneg(eng, st, v) is False:
                got = {(t, k) for b, o, k, t in c.get('subs') if t and self.mine(t)}
                self.info['always'][self.obj] = self.info['always'].get(self.obj, got) & got
                for b, o, k, t in c.get('subs'):
                    if t and self.mine(t):
                        self.info['subs'].setdefault(self.obj, set()).add((t, k))
                self.ok(I, 'init', (self.fn.name, 'success'))
                return
            for b, k, w in c.get('live'):
                self.bad(I, 'init', '%s fails without releasing what was created at %s:%d' % (self.fn.name, w[0], w[1]), st)
            for b, o, k, t in c.get('subs'):
                if k not in NOTHING:
                    self.bad(I, 'init', '%s fails without tearing down its %s' % (self.fn.name, '%s.%s' % t if t else k), st)
            if pv is not None and null(eng, st, pv) is not True:
                self.bad(I, 'init', '%s fails leaving the object looking initialised' % self.fn.name, st)
            self.ok(I, 'init', (self.fn.name, I.line))
            return
        if self.mode == 'none':
            self.ok(I, 'harmless', (self.fn.name, I.line))
            return
        for t, k in sorted(self.info['subs'].get(self.obj, ())):
            if (t, k) not in rel:
                self.bad(I, 'free', '%s does not tear down %s.%s' % ((self.fn.name,) + t), st)
            else:
                self.ok(I, 'free', (self.fn.name, t))
        if pv is not None:
            if (h, 'heap') not in rel:
                self.bad(I, 'free', '%s does not release %s.%s' % ((self.fn.name,) + h), st)
            else:
                self.ok(I, 'free', (self.fn.name, h))
        for f in sorted(self.info['owned']):
            if self.mine(f) and not f[0].startswith(self.obj + '_priv') and f not in ELSEWHERE and f != h:
                w = eng.load(st, Ptr(a.b, eng.prog.off(*f)), pty())
                if (f, 'heap') not in rel and null(eng, st, w) is not True:
                    self.bad(I, 'free', '%s does not release %s.%s' % ((self.fn.name,) + f), st)
                else:
                    self.ok(I, 'free', (self.fn.name, f))


def check(ctx):
    P = ctx.prog
    owned, inner = heap.run(ctx, ['fresh'])
    info = {'owned': owned, 'inner': inner, 'subs': {}, 'always': {}, 'thready': set(THREADS)}
    obs = objects(P)
    for x, (i, f) in sorted(obs.items()):
        h = Own(x, 'init', info)
        h.names = {}
        ctx.run(h, i, setup=lambda e, s: h.setup(e, s), unroll=3, limit=96)
    kindof = {i.name: SUBS.get(i.name, x) for x, (i, f) in obs.items()}
    ch = True
    while ch:
        ch = False
        for x, (i, f) in obs.items():
            k = kindof[i.name]
            if k not in info['thready'] and any(kk in info['thready'] for t, kk in info['subs'].get(x, ())):
                info['thready'].add(k)
                ch = True
    for x, (i, f) in sorted(obs.items()):
        for mode in ('free', 'none'):
            if mode == 'none' and (x + '_handle', 'priv') not in P.fieldoff and x != 'conf':
                continue
            h = Own(x, mode, info)
            h.names = {}
            lib = {g.name for g in P.allf if g.module == f.module and g.name not in ENDS and g.name not in SUBS and g.name not in ('proxy_log', 'log_printf', 'log_vprintf')}
            ctx.run(h, f, setup=lambda e, s: h.setup(e, s), unroll=3, limit=96, inline=lambda g, lib=lib, f=f: not g.boundary or g.name in lib)
            for (t, w), (I, st, msg) in h.lost.items():
                if t in owned and h.mine(t):
                    ctx.violation(I, 'free', msg, st)
    heap.lists(ctx)
    ctx.notes.append('parts set up by each kind of object: ' + '; '.join('%s: %s' % (x, ', '.join('%s.%s' % t for t, k in sorted(v))) for x, v in sorted(info['subs'].items())))
    return info
