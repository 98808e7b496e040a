"""C05: the shared/exclusive lock, decided on the operations of the underlying mutex and condition.
The reader count is unknown after every acquisition of the internal mutex; what an operation may conclude is
what it then reads."""
from ..common import *
from .. import models as M

RD = ('mutex_priv', 'readers')


class Lock(DClient):
    def __init__(self, op, held, marg):
        self.op, self.held0, self.marg = op, held, marg
        self.entered, self.left = {}, set()      # acquisitions, and those whose lock is given up or kept on purpose

    def priv(self, eng, st):
        return fld(eng, st, st.frames[0].args[self.marg], 'mutex_handle.priv')

    def cell(self, eng, st):
        return lv(eng, eng.as_ptr(self.priv(eng, st)), 'mutex_priv.readers')

    def start(self, eng, st, fn):
        st.cl = D(ent=None)
        p = self.priv(eng, st)
        eng.assume(st, 'ne', p, 0)
        r = lin(eng.fresh(st, ('readers', 0), 0, 1 << 30))
        eng.store(st, self.cell(eng, st), 4, 0 if self.held0 else r)
        return D(ent=None, held=self.held0, base=0 if self.held0 else r, delta=0, woke=False, zero=False)

    def lost(self, eng, st, I):
        """others may have run: the count is unknown again, what this thread did to it is kept"""
        self.account(eng, st)
        r = lin(eng.fresh(st, ('readers',) + eng.site(st, I), 0, 1 << 30))
        if self.op == 'mutex_unlock_shared':
            eng.assume(st, 'sge', r, 1)          # the caller still counts as one
        eng.store(st, self.cell(eng, st), 4, r)
        st.cl = st.cl.set(base=r)
        return r

    def acquired(self, eng, st, I):
        """the two situations found on acquisition: no shared holder, or some"""
        self.account(eng, st)
        out = []
        for zero in (True, False):
            if zero and self.op == 'mutex_unlock_shared':
                continue                          # the caller still counts as one
            s2 = st.copy()
            r = 0 if zero else lin(eng.fresh(s2, ('readers', 'some') + eng.site(s2, I), 1, 1 << 30))
            eng.store(s2, self.cell(eng, s2), 4, r)
            s2.cl = s2.cl.set(base=r)
            ent = eng.site(s2, I) + (zero,)
            self.entered[ent] = I
            s2.cl = s2.cl.set(ent=ent)
            out.append(s2)
        return out

    def event(self, st):
        if st.cl.get('ent') is not None:
            self.left.add(st.cl.get('ent'))
            st.cl = st.cl.set(ent=None)

    def account(self, eng, st):
        now = eng.load(st, self.cell(eng, st), ity(32))
        d = add(now, st.cl.get('base'), -1)
        t = st.cl.get('delta')
        st.cl = st.cl.set(delta=None if t is None or not isinstance(d, int) else t + d)
        if eng.decide(st, 'ne', now, 0) is not True and d != 0:
            st.cl = st.cl.set(zero=True)

    def is_lock(self, eng, st, a):
        p = eng.as_ptr(a)
        return p.tag == ('mutex_priv', 'lock') and p.b == eng.as_ptr(self.priv(eng, st)).b

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name == 'pthread_mutex_lock':
            if not self.is_lock(eng, st, args[0]):
                self.bad(I, 'object', 'another mutex is locked', st)
            if c.get('held'):
                self.bad(I, 'relock', 'the internal mutex is locked although it is held', st)
            s2 = st.copy()
            st.cl = st.cl.set(held=True)
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095))
            s2.cl = s2.cl.set(failed=True)
            self.ok(I, 'acquire')
            return [(0, s) for s in self.acquired(eng, st, I)] + [(e, s2)]
        if name in ('pthread_mutex_trylock', 'pthread_mutex_timedlock'):
            self.bad(I, 'acquire', '%s may give up' % name, st)
            return None
        if name == 'pthread_mutex_unlock':
            if not self.is_lock(eng, st, args[0]) or not c.get('held'):
                self.bad(I, 'release', 'the internal mutex is released although it is not held', st)
            else:
                self.ok(I, 'release')
            self.account(eng, st)
            self.event(st)
            st.cl = st.cl.set(held=False, base=eng.load(st, self.cell(eng, st), ity(32)))
            return 0
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            if not self.is_lock(eng, st, args[1]) or not c.get('held'):
                self.bad(I, 'wait', 'a condition is waited on without the internal mutex', st)
            p = eng.as_ptr(args[0])
            if self.op.startswith('mutex') and not (p.tag == ('mutex_priv', 'cond') and p.b == eng.as_ptr(self.priv(eng, st)).b):
                self.bad(I, 'wait', 'readers leaving are waited for on another condition', st)
            if p.tag == ('mutex_priv', 'cond') and eng.decide(st, 'ne', eng.load(st, self.cell(eng, st), ity(32)), 0) is not True:
                self.bad(I, 'needless', 'shared holders are waited for although there may be none, so nobody may end the wait', st)
            self.ok(I, 'wait')
            self.event(st)
            st.cl = st.cl.set(waited=True)
            s2 = st.copy()
            self.lost(eng, s2, I)
            got = self.acquired(eng, st, I)
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095))
            if name == 'pthread_cond_timedwait':
                eng.assume(s2, 'ne', e, 110)
                s2.cl = s2.cl.set(failed=True)
                late = [s.copy() for s in got]
                for s in late:
                    ent = s.cl.get('ent') + ('late',)
                    self.entered[ent] = I
                    s.cl = s.cl.set(ent=ent)
                return [(0, s) for s in got] + [(110, s) for s in late] + [(e, s2)]
            s2.cl = s2.cl.set(failed=True)
            return [(0, s) for s in got] + [(e, s2)]
        if name in ('pthread_cond_broadcast', 'pthread_cond_signal'):
            p = eng.as_ptr(args[0])
            if name == 'pthread_cond_broadcast' and p.tag == ('mutex_priv', 'cond') and p.b == eng.as_ptr(self.priv(eng, st)).b:
                # without the mutex a wake-up only counts once the holder was discounted
                if c.get('held') or c.get('delta') == -1:
                    st.cl = st.cl.set(woke=True)
            s2 = st.copy()
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095))
            s2.cl = s2.cl.set(failed=True)
            return [(0, st), (e, s2)]
        return None

    def on_store(self, eng, st, I, p, v, size):
        if p.tag == RD and not st.cl.get('held'):
            self.bad(I, 'count', 'the number of shared holders is changed without the internal mutex', st)

    def on_load(self, eng, st, I, p):
        if p.tag == RD and not st.cl.get('held'):
            self.bad(I, 'count', 'the number of shared holders is read without the internal mutex', st)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        self.account(eng, st)
        self.event(st)
        c = st.cl
        op = self.op
        neg = isneg(eng, st, v)
        held, delta = c.get('held'), c.get('delta')
        now = eng.load(st, self.cell(eng, st), ity(32))
        free = eng.decide(st, 'eq', now, 0) is True
        good = True

        def bad(rule, msg):
            self.bad(I, rule, '%s: %s' % (op, msg), st, (op, rule))

        if neg is None:
            bad('result', 'the result does not tell success from failure')
        elif op == 'mutex_lock':
            if neg is False:
                if not held or not free:
                    bad('exclusive', 'reports exclusive ownership although %s' % ('shared holders may remain' if held else 'the internal mutex was given up'))
                elif delta != 0:
                    bad('count', 'changes the number of shared holders')
            elif held:
                bad('failed', 'a failed acquisition keeps the internal mutex')
            elif not c.get('failed'):
                bad('failed', 'reports a failure that did not happen')
        elif op == 'mutex_lock_shared':
            if neg is False and (held or delta != 1):
                bad('shared', 'reports shared ownership although %s' % ('the internal mutex is kept' if held else 'the holder was not counted exactly once'))
            elif neg and (held or delta != 0):
                bad('failed', 'a failed acquisition leaves the lock changed')
        elif op == 'mutex_unlock':
            if held or delta != 0:
                bad('unlock', 'does not give the lock up' if held else 'changes the number of shared holders')
        elif op == 'mutex_unlock_shared':
            if held:
                bad('unlock', 'keeps the internal mutex')
            elif neg is False and delta != -1:
                bad('unlock', 'does not discount the holder exactly once')
            elif neg is False and c.get('zero') and not c.get('woke'):
                bad('wake', 'the last shared holder may leave without waking those who wait for exclusive access')
        else:
            if not held:
                bad('wait', 'returns without the lock')
            elif neg is False and not free:
                bad('exclusive', 'returns as exclusive owner although shared holders may have entered')
            elif neg is False and not c.get('waited'):
                bad('wait', 'reports a wait that did not happen')
            elif delta != 0:
                bad('count', 'changes the number of shared holders')
        self.ok(I, 'outcome', (op, neg))


class Wake(DClient):
    def __init__(self, all_):
        self.all = all_

    def start(self, eng, st, fn):
        return D(n=False, f=False)

    def on_call(self, eng, st, I, name, args):
        if name in ('pthread_cond_signal', 'pthread_cond_broadcast'):
            p = eng.as_ptr(args[0])
            own = fld(eng, st, st.frames[0].args[0], 'condvar_handle.priv')
            if p.tag != ('condvar_priv', 'cond') or p.b != eng.as_ptr(own).b or self.all and name.endswith('signal'):
                self.bad(I, 'notify', 'not everyone waiting on the condition is woken', st)
            s2 = st.copy()
            st.cl = st.cl.set(n=True)
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095))
            s2.cl = s2.cl.set(f=True)
            return [(0, st), (e, s2)]
        return None

    def on_return(self, eng, st, I, v):
        neg = isneg(eng, st, v)
        if neg is not True and not st.cl.get('n'):
            self.bad(I, 'notify', 'success is reported without a wake-up', st)
        else:
            self.ok(I, 'notify', (I.fn.name, neg))


def run(ctx):
    P = ctx.prog
    for op, held, marg in (('mutex_lock', False, 0), ('mutex_lock_shared', False, 0), ('mutex_unlock', True, 0),
                           ('mutex_unlock_shared', False, 0), ('condvar_wait', True, 1), ('condvar_wait_time', True, 1)):
        w = Lock(op, held, marg)
        ctx.run(w, P.fn(op))
        for ent, I in sorted(w.entered.items(), key=lambda e: str(e[0])):
            if ent in w.left:
                ctx.obligation('stuck', (op,) + ent)
            else:
                ctx.violation(I, 'stuck', '%s: with %s the internal mutex is held and neither waited on nor given up again'
                              % (op, 'no shared holder' if True in ent[3:] else 'shared holders'), None, (op, ent))
    ctx.run(Wake(False), P.fn('condvar_wake_one'))
    ctx.run(Wake(True), P.fn('condvar_wake_all'))
    if not ctx.viol:
        ctx.need('outcome', 5, 'lock operation outcomes')
