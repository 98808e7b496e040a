"""C08: time limits.  Quotients and remainders by constants are kept symbolic (rem in [0,b), q = (a - rem) / b), so the
deadline given to a timed wait can be compared with 'now + limit' as a linear identity over every clock value and limit."""
from fractions import Fraction
from math import gcd
from ..common import *
from ..engine import Lin
from .. import models as M

NS, US = 10 ** 9, 10 ** 6
CLOCKS = {'pthread_condattr_setclock': 1}


class Linear(DClient):
    """exact linear arithmetic with division by constants"""
    def __init__(self):
        self.wrapped = {}       # atom of a value that left its range -> the value it stands for (modulo the word)
        self.quot = {}          # quotient atom -> (dividend, divisor, remainder)

    def on_binop(self, eng, st, I, a, b, r):
        env = st.top.env
        n = I.ty.bits
        if I.op in ('add', 'sub', 'mul', 'shl'):
            if isinstance(r, Lin) and any((x, n) in self.wrapped for x, _ in r.t):
                w = r.k                     # modular arithmetic: a wrapped intermediate may come back into range
                for x, co in r.t:
                    w = add(w, scale(self.wrapped.get((x, n), lin(x)), co))
                r = env[I.id] = w
            if isinstance(r, Lin) and any(x in self.quot for x, _ in r.t):
                t, k = self.expand(r)
                if k.denominator == 1 and all(c.denominator == 1 for c in t.values()):
                    r = int(k)
                    for x, co in sorted(t.items(), key=str):
                        r = add(r, scale(lin(x), int(co)))
                    env[I.id] = r
            if isinstance(r, Lin):
                lo, hi, _ = eng.rng(st, r)
                out = lambda: lo < -(1 << n - 1) or hi >= 1 << n or lo < 0 and hi >= 1 << n - 1
                if out():                   # the same modulo the word, with every part read as unsigned
                    w = r.k
                    for x, co in r.t:
                        w = add(w, scale(eng.zx(st, lin(x), n) if n <= 32 and x not in self.quot and eng.rng(st, lin(x))[0] < 0 else lin(x), co))
                    lo, hi, _ = eng.rng(st, w)
                    if not out():
                        env[I.id] = w
                if out():
                    o = eng.fresh(st, ('overflow', r) + eng.site(st, I), -(1 << n - 1), (1 << n - 1) - 1)
                    self.wrapped[o, n] = r
                    env[I.id] = lin(o)
            return
        if I.op not in ('udiv', 'sdiv', 'urem', 'srem') or not isinstance(b, int) or b <= 0 or not isinstance(a, Lin):
            return
        lo, hi, _ = eng.rng(st, a)
        if lo < 0:
            return
        if hi < b:
            env[I.id] = 0 if I.op.endswith('div') else a
            return
        g = gcd(b, a.k, *[c for _, c in a.t])
        full = a
        if g > 1:
            b = b // g
            a = full.k // g
            for x, co in full.t:
                a = add(a, scale(lin(x), co // g))
            lo, hi = lo // g, hi // g if hi != INF else hi
        rem = atom(('rem', a, b), 0, b - 1)
        q = atom(('quot', a, b), lo // b, hi // b if hi < 1 << 63 else 1 << 63)
        self.quot[q] = (a, b, rem)
        env[I.id] = lin(q) if I.op.endswith('div') else scale(lin(rem), g)

    def expand(self, v):
        """{atom: coefficient}, constant: v without quotients"""
        t, k = {}, Fraction(0)
        todo = [(v, Fraction(1))]
        while todo:
            x, c = todo.pop()
            if isinstance(x, int):
                k += c * x
                continue
            if not isinstance(x, Lin):
                return None
            k += c * x.k
            for a, co in x.t:
                if a in self.quot:
                    d, b, rem = self.quot[a]
                    todo.append((d, c * co / b))
                    todo.append((lin(rem), -c * co / b))
                else:
                    t[a] = t.get(a, 0) + c * co
        return {a: c for a, c in t.items() if c}, k

    def spread(self, eng, st, v):
        """how far v may be from zero"""
        e = self.expand(v)
        if e is None:
            return None
        lo = hi = e[1]
        for a, c in e[0].items():
            l, h, _ = eng.rng(st, lin(a))
            if l == -INF or h == INF:
                return None
            lo, hi = lo + min(c * l, c * h), hi + max(c * l, c * h)
        return max(abs(lo), abs(hi))


class Wait(Linear):
    def __init__(self, clock, marg):
        Linear.__init__(self)
        self.clock = clock

    def start(self, eng, st, fn):
        self.now, self.ns = None, None
        return D(now=None, out=None, lim=lin(eng.fresh(st, ('limit',), 0, (1 << 32) - 1)))

    def read(self, eng, st, I, clock, unit):
        s = lin(eng.fresh(st, ('sec',) + eng.site(st, I), 0, 1 << 36))
        f = lin(eng.fresh(st, ('sub',) + eng.site(st, I), 0, unit - 1))
        st.cl = st.cl.set(now=(clock, add(scale(s, NS), scale(f, NS // unit))))
        return s, f

    def on_call(self, eng, st, I, name, args):
        if name in ('clock_gettime', 'timespec_get'):
            clk, ts = (args[0], args[1]) if name == 'clock_gettime' else (0, args[0])
            p = eng.as_ptr(ts)
            s, f = self.read(eng, st, I, clk, NS)
            eng.store(st, Ptr(p.b, p.o), 8, s)
            eng.store(st, Ptr(p.b, add(p.o, 8)), 8, f)
            return 0 if name == 'clock_gettime' else 1
        if name == 'gettimeofday':
            p = eng.as_ptr(args[0])
            s, f = self.read(eng, st, I, 0, US)
            eng.store(st, Ptr(p.b, p.o), 8, s)
            eng.store(st, Ptr(p.b, add(p.o, 8)), 8, f)
            return 0
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
            return 0
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_clockwait'):
            s2 = st.copy()
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095))
            eng.assume(s2, 'ne', e, 110)
            s2.cl = s2.cl.set(out='error')
            if name == 'pthread_cond_wait':
                return [(0, st), (e, s2)]
            clk = args[2] if name == 'pthread_cond_clockwait' else self.clock
            p = eng.as_ptr(args[-1])
            s = eng.load(st, Ptr(p.b, p.o), ity(64))
            f = eng.load(st, Ptr(p.b, add(p.o, 8)), ity(64))
            now = st.cl.get('now')
            if now is None:
                self.bad(I, 'deadline', 'the deadline is computed without reading the clock', st)
            elif now[0] != clk:
                self.bad(I, 'clock', 'the deadline is computed from another clock than the one it is compared with', st)
            else:
                ask = add(now[1], scale(self.limit(eng, st), NS // 1000))
                d = self.spread(eng, st, add(add(scale(s, NS), f), ask, -1)) if all(isinstance(x, (int, Lin)) for x in (s, f)) else None
                if d is None or d >= NS // 1000:
                    self.bad(I, 'deadline', 'the deadline of the wait is not the requested time from now', st)
                else:
                    self.ok(I, 'deadline')
                if eng.decide(st, 'sge', f, 0) is not True or eng.decide(st, 'slt', f, NS) is not True:
                    self.bad(I, 'normal', 'the deadline is not in normalised form, so the wait may fail at once', st)
                else:
                    self.ok(I, 'normal')
            s3 = st.copy()
            st.cl = st.cl.set(out='woken')
            s3.cl = s3.cl.set(out='expired')
            return [(0, st), (110, s3), (e, s2)]
        return None

    def limit(self, eng, st):
        return eng.zx(st, st.frames[0].args[2], 32)

    def on_return(self, eng, st, I, v):
        out = st.cl.get('out')
        pos, neg = eng.decide(st, 'sgt', v, 0), isneg(eng, st, v)
        want = {'woken': neg is False and pos is False, 'expired': pos is True, 'error': neg is True}.get(out)
        if want is None:
            self.bad(I, 'wait', 'returns without having waited', st)
        elif not want:
            self.bad(I, 'result', {'woken': 'a wait that was woken is not reported as such', 'expired': 'the expiry of the limit is not reported',
                                   'error': 'a failed wait is not reported as a failure'}[out], st)
        self.ok(I, 'result', out)


class Limit(Linear):
    """the receive time limit of a connection"""
    def start(self, eng, st, fn):
        return D(set=None, fd=None, n=0)

    def on_call(self, eng, st, I, name, args):
        if name in LOCK or name in UNLOCK:
            return 0
        if name == 'setsockopt' and args[1:3] == [1, 20]:
            p = eng.as_ptr(args[3])
            s, f = (eng.load(st, Ptr(p.b, add(p.o, o)), ity(64)) for o in (0, 8))
            lim = eng.zx(st, st.frames[0].args[1], 32)
            d = self.spread(eng, st, add(add(scale(s, US), f), scale(lim, US // 1000), -1)) if all(isinstance(x, (int, Lin)) for x in (s, f)) else None
            if d is None or d >= US // 1000:
                self.bad(I, 'limit', 'the receive time limit is not the requested time', st)
            elif eng.decide(st, 'sge', f, 0) is not True or eng.decide(st, 'slt', f, US) is not True:
                self.bad(I, 'limit', 'the receive time limit is not in normalised form, so it is refused', st)
            elif args[4] != 16:
                self.bad(I, 'limit', 'the receive time limit has the wrong size', st)
            else:
                self.ok(I, 'limit')
            priv = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'conn_handle.priv'))
            fd = eng.load(st, lv(eng, priv, 'conn_priv.fd'), ity(32))
            other = eng.decide(st, 'eq', fd, -1)
            if eng.decide(st, 'eq', args[0], fd) is not True and other is not True:
                self.bad(I, 'socket', 'the time limit is set on another socket than the one received from', st)
            else:
                self.ok(I, 'socket')
            s2 = st.copy()
            st.cl = st.cl.set(set=True)
            s2.cl = s2.cl.set(set=False)
            M.set_errno(eng, s2, I)
            return [(0, st), (-1, s2)]
        return None

    def on_return(self, eng, st, I, v):
        neg = isneg(eng, st, v)
        if neg is not True and st.cl.get('set') is not True or neg is not False and st.cl.get('set') is True:
            self.bad(I, 'result', 'success is reported although the limit was not set, or the reverse', st)
        self.ok(I, 'result', neg)


class Period(DClient):
    """a worker with a period waits exactly that long"""
    def on_call(self, eng, st, I, name, args):
        if name == 'condvar_wait_time':
            th = st.frames[0].args[0]
            wh = eng.as_ptr(fld(eng, st, th, 'thread_handle.func_ctx'))
            per = eng.zx(st, eng.load(st, lv(eng, wh, 'worker_handle.periodic_wake'), ity(32)), 32)
            if eng.decide(st, 'eq', eng.zx(st, args[2], 32), per) is not True:
                self.bad(I, 'period', 'the worker waits for another time than its period', st)
            else:
                self.ok(I, 'period')
        return None


class Periodic(DClient):
    """the registration's worker repeats"""
    def start(self, eng, st, fn):
        eng.store(st, lv(eng, eng.as_ptr(st.frames[0].args[0]), 'registration_service_handle.priv'), 8, 0)
        return D()

    def on_call(self, eng, st, I, name, args):
        g = eng.prog.funcs.get(name)
        if name in LOCK or name in UNLOCK or name.endswith('_init') and g is not None and not eng.should_inline(st, g):
            s2 = st.copy()          # initialisation keeps the settings of the object (R01)
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)), s2)]
        return None

    def on_return(self, eng, st, I, v):
        if isneg(eng, st, v) is not False:
            return
        priv = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'registration_service_handle.priv'))
        n = eng.load(st, lv(eng, priv, 'registration_service_priv.worker.worker_handle.periodic_wake'), ity(32))
        if eng.decide(st, 'ne', n, 0) is not True:
            self.bad(I, 'repeat', 'the registration is not renewed periodically', st)
        else:
            self.ok(I, 'repeat')


def run(ctx):
    P = ctx.prog
    clocks = {I.args[1][1] for f in P.allf if f.module == P.fn('condvar_init').module for b in f.blocks for I in b.insts
              if I.op == 'call' and I.x == ('f', 'pthread_condattr_setclock') and I.args[1][0] == 'i'}
    clock = clocks.pop() if len(clocks) == 1 else 0
    ctx.run(Wait(clock, 1), P.fn('condvar_wait_time'))
    ctx.run(Limit(), P.fn('conn_set_timeout'))
    ths = [f for f in P.allf if f.module == P.fn('worker_init').module and f.addr_taken and len(f.params) == 1]
    for f in ths:
        ctx.run(Period(), f)
    ctx.run(Periodic(), P.fn('registration_service_init'))
    if not ctx.viol:
        for r, n, w in (('deadline', 1, 'deadlines'), ('normal', 1, 'deadlines'), ('result', 2, 'results of timed operations'), ('limit', 1, 'receive time limits'),
                        ('socket', 1, 'sockets'), ('period', 1, 'waits of periodic workers'), ('repeat', 1, 'registration renewal')):
            ctx.need(r, n, w)
