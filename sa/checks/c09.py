"""C09: every thread runs the function it was given on the object it serves, and is joined exactly once."""
from ..common import *
from ..engine import Fn

HANDLES = ('worker_handle', 'thread_handle')
INITS = {'worker_init': 'worker_handle', 'thread_init': 'thread_handle'}


def context(prog, g, depth=0, pid=None):
    """the struct type whose fields g reaches through the context of its handle (depth 0), or through parameter pid"""
    ctx = {pid} if depth else set()
    insts = [i for b in g.blocks for i in b.insts]
    for _ in range(3):
        hg = set()
        if not depth:
            hg = {i.id for i in insts if i.op == 'gep' and i.x[2] and i.x[2][-1][0] in HANDLES and i.args[0] == ('v', g.params[0][0])
                  and (prog.structs[i.x[2][-1][0]].get(i.x[2][-1][1]) or ('',))[0] == 'func_ctx'}
            ctx |= {i.id for i in insts if i.op == 'load' and i.args[0][0] == 'v' and i.args[0][1] in hg}
    for i in insts:
        if i.op == 'gep' and i.args[0][0] == 'v' and i.args[0][1] in ctx and i.x[2]:
            return i.x[2][0][0]
    for i in insts:
        if i.op == 'call' and i.x[0] == 'f' and depth < 3:
            n = i.x[1]
            h = prog.funcs.get(n) or next((f for f in prog.allf if n in (f.name, (f.module, f.name))), None)
            for k, a in enumerate(i.args):
                if h is not None and a[0] == 'v' and a[1] in ctx and k < len(h.params):
                    t = context(prog, h, depth + 1, h.params[k][0])
                    if t:
                        return t
    return None


class Given(DClient):
    """handles of threads and workers have their function and context when their owner is ready"""
    def __init__(self, found, last):
        self.found, self.last, self.wrong = found, last, []

    def bad(self, I, rule, msg, st=None, inst=None):
        self.wrong.append((I, rule, msg, st))

    def start(self, eng, st, fn):
        self.fn = fn
        return D(pend=(), got=())

    def state(self, eng, st, p, struct):
        """None if in order, else what is wrong"""
        g = eng.load(st, lv(eng, p, struct + '.func_ptr'), pty())
        if not isinstance(g, Fn):
            return 'no function', None
        f = eng.prog.funcs.get(g.g) or next((x for x in eng.prog.allf if g.g in (x.name, (x.module, x.name))), None)
        if f is None:
            return 'an unknown function', None
        t = context(eng.prog, f)
        q = eng.load(st, lv(eng, p, struct + '.func_ctx'), pty())
        key = (p.tag, f.name, q.b if isinstance(q, Ptr) else None)
        if t is None:
            return None, key
        if not isinstance(q, Ptr):
            return 'no context for %s' % f.name, None
        if p.tag is None:
            return 'a handle outside any object', None
        o = eng.prog.off(*p.tag)
        base = add(p.o, -o)
        if p.tag[0] == t and q.b == p.b and q.o == base:
            return None, key
        if t in HANDLES and p.tag[0].endswith('_priv'):
            pass
        h = (t, 'priv')
        if h in eng.prog.fieldoff:
            x = eng.load(st, Ptr(q.b, add(q.o, eng.prog.off(*h))), pty())
            if isinstance(x, Ptr) and x.b == p.b and x.o == base:
                return None, key
        return 'another object than its own as context of %s' % f.name, None

    def judge(self, eng, st, I, p, struct):
        w, key = self.state(eng, st, p, struct)
        if w is None:
            self.found.add((key[0], key[1]))
            dup = [k for k in st.cl.get('got') if k[1:] == key[1:] and k[0] != key[0]]
            if dup:
                return 'the same function and context as %s.%s' % dup[0][0]
            st.cl = st.cl.set(got=tuple(sorted(set(st.cl.get('got')) | {key}, key=repr)))
        return w

    def on_call(self, eng, st, I, name, args):
        g = eng.prog.funcs.get(name)
        if name in INITS and not (g is not None and eng.should_inline(st, g)):
            p = eng.as_ptr(args[0])
            w = self.judge(eng, st, I, p, INITS[name])
            if w is None:
                self.ok(I, 'given', (I.fn.name, p.tag))
            s2 = st.copy()
            if w is not None and (not isinstance(p.o, int) or any(x[3] is I and x[0] != p for x in st.cl.get('pend'))):
                self.bad(I, 'given', '%s: %s is given %s' % (self.fn.name, '%s.%s' % p.tag if p.tag else 'a handle', w), st)
            elif w is not None:
                st.cl = st.cl.set(pend=tuple([x for x in st.cl.get('pend') if x[3] is not I] + [(p, INITS[name], w, I)]))
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)), s2)]
        if name in LOCK or name in UNLOCK or g is not None and name.endswith('_init') and not eng.should_inline(st, g):
            s2 = st.copy()
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)), s2)]
        return None

    def atoms(self, eng, st, live):
        if st.cl is DEAD:
            return
        for p, s, w, I in st.cl.get('pend'):
            vatoms(p, live)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or isneg(eng, st, v) is True:
            return
        for p, struct, w, J in st.cl.get('pend'):
            w = self.judge(eng, st, I, p, struct)
            if w is not None:
                self.bad(J, 'given', '%s: %s is given %s' % (self.fn.name, '%s.%s' % p.tag if p.tag else 'a handle', w), st)
            else:
                self.ok(J, 'given', (J.fn.name, p.tag))


class Start(DClient):
    def __init__(self, op, dirty):
        self.op, self.dirty = op, dirty

    def priv(self, eng, st):
        return eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'thread_handle.priv'))

    def cell(self, eng, st):
        return lv(eng, self.priv(eng, st), 'thread_priv.dirty')

    def start(self, eng, st, fn):
        eng.store(st, self.cell(eng, st), 1, 1 if self.dirty else 0)
        return D(alive=self.dirty, stack=None, made=None, joined=0, tried=False, held=False)

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in LOCK:
            st.cl = c.set(held=True)
            return 0
        if name in UNLOCK:
            st.cl = c.set(held=False)
            return 0
        if name.startswith('pthread_attr_set'):
            s2 = st.copy()
            st.cl = c.set(stack=args[1]) if name == 'pthread_attr_setstacksize' else c
            if name == 'pthread_attr_setdetachstate' and args[1] != 0:
                self.bad(I, 'join', 'a detached thread cannot be waited for', st)
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095)), s2)]
        if name.startswith('pthread_attr_'):
            s2 = st.copy()
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095)), s2)]
        if name == 'pthread_detach':
            self.bad(I, 'join', 'a detached thread cannot be waited for', st)
            return 0
        if name == 'pthread_create':
            h = eng.as_ptr(st.frames[0].args[0])
            if c.get('alive'):
                self.bad(I, 'join', 'a thread is started in the place of one that was not waited for', st)
            f = fld(eng, st, h, 'thread_handle.func_ptr')
            if eng.decide(st, 'eq', args[2], f) is not True or not isinstance(args[3], Ptr) or args[3].b != h.b or args[3].o != h.o:
                self.bad(I, 'run', 'the thread does not run the function of its handle on that handle', st)
            else:
                self.ok(I, 'run')
            want = fld(eng, st, h, 'thread_handle.stack_size', 32)
            z = eng.decide(st, 'eq', want, 0)
            if z is not True and (args[1] == 0 or c.get('stack') is None or eng.decide(st, 'eq', eng.zx(st, c.get('stack'), 32), eng.zx(st, want, 32)) is not True):
                self.bad(I, 'stack', 'the thread does not get the stack it was given', st)
            elif z is True and c.get('stack') is not None:
                self.bad(I, 'stack', 'the thread gets a stack of another size than the default', st)
            else:
                self.ok(I, 'stack', z)
            if not c.get('held'):
                self.bad(I, 'lock', 'the thread is created without its lock, so a join may overlook it', st)
            s2 = st.copy()
            st.cl = st.cl.set(alive=True, made=True, tried=True)
            s2.cl = s2.cl.set(made=False, tried=True)
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095)), s2)]
        if name in ('pthread_join', 'pthread_timedjoin_np', 'pthread_tryjoin_np'):
            if not c.get('alive'):
                self.bad(I, 'join', 'a thread is waited for that does not run, or was waited for before', st)
            elif name != 'pthread_join':
                self.bad(I, 'join', 'the wait for the thread may give up', st)
            else:
                self.ok(I, 'join', self.op)
            t = eng.load(st, lv(eng, self.priv(eng, st), 'thread_priv.thread'), ity(64))
            if eng.decide(st, 'eq', args[0], t) is not True:
                self.bad(I, 'join', 'another thread is waited for', st)
            s2 = st.copy()
            st.cl = st.cl.set(alive=False, joined=1)
            s2.cl = s2.cl.set(alive=False, joined=1, jfail=True)
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095)), s2)]
        return None

    def on_return(self, eng, st, I, v):
        c = st.cl
        neg = isneg(eng, st, v)
        d = eng.decide(st, 'ne', eng.load(st, self.cell(eng, st), ity(8)), 0)
        if d is not bool(c.get('alive')):
            self.bad(I, 'dirty', '%s: %s' % (self.op, 'a running thread is forgotten' if c.get('alive') else 'a thread that ended or never ran is still waited for'), st)
        else:
            self.ok(I, 'dirty', (self.op, d))
        if self.op == 'thread_join':
            if c.get('alive'):
                self.bad(I, 'join', 'thread_join returns without waiting for the thread', st)
            if neg is not (c.get('jfail') is True):
                self.bad(I, 'result', 'thread_join: a failed wait is not what is reported', st)
        elif neg is not (c.get('made') is not True):
            self.bad(I, 'result', 'thread_start reports %s' % ('a failure although the thread runs' if neg else 'success although no thread was created'), st)
        self.ok(I, 'result', (self.op, neg))


class Work(DClient):
    """the worker's thread calls the worker's function with the worker"""
    def start(self, eng, st, fn):
        return D(wh=fld(eng, st, st.frames[0].args[0], 'thread_handle.func_ctx'))

    def on_call(self, eng, st, I, name, args):
        if name is not None and I.x[0] == 'f':
            return None
        wh = eng.as_ptr(st.cl.get('wh'))
        f = eng.load(st, lv(eng, wh, 'worker_handle.func_ptr'), pty())
        callee = eng.ev(st, I.x[1]) if isinstance(I.x[1], tuple) else None
        if len(args) < 1 or not isinstance(args[0], Ptr) or args[0].b != wh.b or args[0].o != wh.o or callee is not None and eng.decide(st, 'eq', callee, f) is not True:
            self.bad(I, 'work', 'the worker does not run its function on itself', st)
        else:
            self.ok(I, 'work')
        return 0


class Size(DClient):
    """the stack a worker was given reaches its thread"""
    def start(self, eng, st, fn):
        eng.store(st, lv(eng, eng.as_ptr(st.frames[0].args[0]), 'worker_handle.priv'), 8, 0)
        return D()

    def on_call(self, eng, st, I, name, args):
        if name == 'thread_init':
            p = eng.as_ptr(args[0])
            a = eng.load(st, lv(eng, p, 'thread_handle.stack_size'), ity(32))
            w = fld(eng, st, st.frames[0].args[0], 'worker_handle.stack_size', 32)
            if eng.decide(st, 'eq', a, w) is not True:
                self.bad(I, 'stack', 'the worker\'s thread does not get the stack the worker was given', st)
            else:
                self.ok(I, 'stack', 'worker')
        if name.endswith('_init'):
            return 0
        return None


def run(ctx):
    P = ctx.prog
    found = set()
    todo = [f for f in P.allf if f.name != 'thread_init' and any(i.op == 'call' and i.x == ('f', n) for n in INITS for b in f.blocks for i in b.insts)]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        h = next((x for x in P.structs if (x, 'priv') in P.fieldoff and f.name.startswith(x.replace('_handle', ''))), None)

        def setup(eng, st, h=h, f=f):
            if h and f.name.endswith('_init') and f.params:
                eng.store(st, lv(eng, eng.as_ptr(st.frames[0].args[0]), h + '.priv'), 8, 0)
        c = Given(found, f)
        ctx.run(c, f, setup=setup)
        if not c.wrong:
            continue
        up = [g for g in P.allf if any(i.op == 'call' and i.x[0] == 'f' and i.x[1] in (f.name, (f.module, f.name)) for b in g.blocks for i in b.insts)]
        if f.internal and not f.addr_taken and up:
            todo += up                   # what a helper is not given here, its callers may give
        else:
            for w in c.wrong:
                ctx.violation(*w)
                ctx.obligation(w[1], (w[0].fn.name, w[0].line), False)
    for op in ('thread_start', 'thread_join'):
        for d in (False, True):
            ctx.run(Start(op, d), P.fn(op), inline=lambda g: not g.boundary or g.name == 'thread_join')
    for f in P.allf:
        if f.module == P.fn('worker_init').module and f.addr_taken and len(f.params) == 1:
            ctx.run(Work(), f)
    ctx.run(Size(), P.fn('worker_init'))
    ctx.notes.append('handles given a function: ' + ', '.join('%s.%s=%s' % (t[0], t[1], g) for t, g in sorted(x for x in found if x[0])))
    if not ctx.viol:
        for r, k, w in (('given', 2, 'handles given function and context'), ('run', 1, 'threads created'), ('join', 1, 'joins'), ('dirty', 1, 'outcomes'), ('work', 1, 'work functions'), ('stack', 1, 'stack sizes')):
            ctx.need(r, k, w)
