"""C06: the worker life cycle, decided state by state.  Whenever the worker's lock is taken (or a condition wait
returns) the analysis continues once for every state other threads can have left behind; every operation is
compared with the transition table of the specification."""
from ..common import *
from .. import models as M

TAG = ('worker_priv', 'state')


def names(P):
    n = {k: P.enums['WORKER_' + k] for k in ('STOPPED', 'STOPPING', 'STOPPING_AFTER_WORK', 'BUSY', 'SIGNALED', 'IDLE', 'STARTING')}
    return n


class W(DClient):
    def __init__(self, P, op):
        self.op = op
        self.E = names(P)
        self.N = {v: k for k, v in self.E.items()}
        self.entered, self.left = {}, set()

    # what other threads (wake, stop) can turn a state into while the lock is not held
    def others(self, s):
        E = self.E
        nxt = {E['STOPPED']: {'STARTING'}, E['STOPPING']: set(), E['STOPPING_AFTER_WORK']: set(),
               E['BUSY']: {'SIGNALED', 'STOPPING'}, E['SIGNALED']: {'STOPPING_AFTER_WORK'},
               E['IDLE']: {'SIGNALED', 'STOPPING'}, E['STARTING']: {'SIGNALED', 'STOPPING'}}
        out, work = {s}, [s]
        while work:
            x = work.pop()
            for y in nxt.get(x, ()):
                if E[y] not in out:
                    out.add(E[y])
                    work.append(E[y])
        return out

    def mine(self, eng, st, I, p, fld_='mutex'):
        return p.tag == ('worker_priv', fld_)

    def start(self, eng, st, fn):
        return D(held=False, priv=None, s0=None, s=None, woke=False, wokei=False, joined=0, pend=False, idle=False, ran=0, ent=None, due=False)

    def cell(self, eng, st):
        return lv(eng, st.cl.get('priv'), 'worker_priv.state')

    def cur(self, eng, st):
        return eng.load(st, self.cell(eng, st), ity(32)) if st.cl.get('priv') is not None else None

    def enter(self, eng, st, poss, I):
        """continue in each possible state"""
        out = []
        for v in sorted(poss):
            s = st.copy()
            eng.store(s, self.cell(eng, s), 4, v)
            ent = (I.fn.name, I.line, v)
            self.entered.setdefault(ent, I)
            s.cl = s.cl.set(held=True, ent=ent, s0=v if s.cl.get('s0') is None or self.op == 'func' else s.cl.get('s0'), s=v,
                            pend=v in (self.E['SIGNALED'], self.E['STOPPING_AFTER_WORK']), idle=False)
            out.append((0, s))
        return out

    def initial_states(self):
        E = self.E
        if self.op == 'func':
            # the thread starts after STARTING was set; requests may have come before it gets the lock
            return self.others(E['STARTING'])
        return set(E.values())

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in ('mutex_lock', 'mutex_lock_shared'):
            p = eng.as_ptr(args[0])
            if not self.mine(eng, st, I, p):
                return None
            base = Ptr(p.b, add(p.o, -eng.prog.off('worker_priv', 'mutex')))
            poss = self.initial_states()
            if c.get('s') is not None:
                poss = self.others(c.get('s')) if self.op == 'func' else set(self.E.values())
            st.cl = c.set(priv=base)
            return self.enter(eng, st, poss, I)
        if name in ('mutex_unlock', 'mutex_unlock_shared'):
            if self.mine(eng, st, I, eng.as_ptr(args[0])):
                self.left.add(c.get('ent'))
                v = self.cur(eng, st)
                if not isinstance(v, int) or v not in self.N:
                    self.bad(I, 'state', 'an undefined state is left behind', st)
                    v = None
                st.cl = c.set(held=False, s=v)
                if self.op == 'func':
                    self.released(eng, st, I, v)
                self.ok(I, 'release', (self.op, I.line, v))
                return 0
        if name in ('condvar_wait', 'condvar_wait_time'):
            return self.wait(eng, st, I, name, args)
        if name in ('condvar_wake_all', 'condvar_wake_one'):
            p = eng.as_ptr(args[0])
            if self.mine(eng, st, I, p, 'condvar'):
                st.cl = c.set(woke=True)
            elif self.mine(eng, st, I, p, 'condvar_idle') and name == 'condvar_wake_all':
                st.cl = c.set(wokei=True)
            return 0
        if name == 'thread_join' and self.op in ('join',):
            if c.get('held'):
                self.bad(I, 'join', 'the thread is waited for with the lock it needs held', st)
            s2 = st.copy()
            st.cl = c.set(joined=c.get('joined') + 1, jr=0)
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1))
            s2.cl = c.set(joined=c.get('joined') + 1, jr=1)
            return [(0, st), (e, s2)]
        if name == 'thread_start' and self.op == 'start':
            v = self.cur(eng, st) if c.get('held') else None
            if v != self.E['STARTING']:
                self.bad(I, 'start', 'the thread is started before the worker is marked as starting', st)
            s2 = st.copy()
            st.cl = c.set(started=True)
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1))
            s2.cl = c.set(started=False)
            return [(0, st), (e, s2)]
        if name is None or I.x[0] != 'f':
            if self.op == 'func':
                return self.work(eng, st, I)
        return None

    # ------------------------------------------------------------ the worker thread
    def work(self, eng, st, I):
        c = st.cl
        E = self.E
        if c.get('held'):
            self.bad(I, 'callback', 'the work function runs with the worker\'s lock held', st)
        s = c.get('s')
        seen = c.get('s0')
        if not c.get('pend'):
            self.bad(I, 'spurious', 'the work function runs although no request is pending', st)
        elif seen == E['SIGNALED'] and s != E['BUSY']:
            self.bad(I, 'callback', 'work begins in state %s: a request or a stop that arrives meanwhile is lost' % self.N.get(s), st)
        elif seen == E['STOPPING_AFTER_WORK'] and s != E['STOPPING']:
            self.bad(I, 'callback', 'the last work begins in state %s: the worker does not stop after it' % self.N.get(s), st)
        else:
            self.ok(I, 'callback', (I.line, seen))
        st.cl = c.set(pend=False, ran=1, due=False)
        return 0

    def released(self, eng, st, I, v):
        c, E = st.cl, self.E
        s0 = c.get('s0')
        if v == E['STOPPED'] and c.get('pend'):
            self.bad(I, 'lost', 'the thread ends although a request is pending', st)

    def on_store(self, eng, st, I, p, v, size):
        if p.tag != TAG:
            return
        if not st.cl.get('held'):
            self.bad(I, 'state', 'the worker\'s state is changed without its lock', st)
            return
        if self.op != 'func':
            return
        E, old = self.E, self.cur(eng, st)
        if v == E['IDLE']:
            st.cl = st.cl.set(wokei=False)
        if old == v:
            return
        good = {E['STOPPING']: {E['STOPPED']}, E['STOPPING_AFTER_WORK']: {E['STOPPING']}, E['SIGNALED']: {E['BUSY']},
                E['BUSY']: {E['IDLE']}, E['STARTING']: {E['IDLE']}, E['IDLE']: {E['SIGNALED'], E['BUSY']}, E['STOPPED']: set()}
        if v not in good.get(old, ()):
            self.bad(I, 'transition', 'the worker thread turns state %s into %s' % (self.N.get(old), self.N.get(v, v)), st)
        else:
            self.ok(I, 'transition', (I.line, old, v))
        if old == E['IDLE'] and v in (E['SIGNALED'], E['BUSY']):
            # a periodic run
            st.cl = st.cl.set(pend=True, s0=E['SIGNALED'])
            if not st.cl.get('timed'):
                self.bad(I, 'spurious', 'work is requested without a request or a period', st)

    def handle(self, eng, st):
        return fld(eng, st, st.frames[0].args[0], 'thread_handle.func_ctx')

    def wait(self, eng, st, I, name, args):
        c, E = st.cl, self.E
        p = eng.as_ptr(args[0])
        v = self.cur(eng, st)
        self.left.add(c.get('ent'))
        if self.op == 'func':
            per = eng.load(st, lv(eng, eng.as_ptr(self.handle(eng, st)), 'worker_handle.periodic_wake'), ity(32))
            if c.get('due'):
                self.bad(I, 'period', 'the period has passed and the worker waits again without having worked', st)
            elif name == 'condvar_wait' and eng.decide(st, 'eq', eng.zx(st, per, 32), 0) is not True:
                self.bad(I, 'period', 'a worker with a period waits without a limit', st)
            if not self.mine(eng, st, I, p, 'condvar') or not self.mine(eng, st, I, eng.as_ptr(args[1])) or not c.get('held'):
                self.bad(I, 'wait', 'the worker waits on the wrong condition or without its lock', st)
            elif c.get('pend') or v != E['IDLE']:
                self.bad(I, 'lost', 'the worker waits in state %s: %s' % (
                    self.N.get(v), 'the request is lost' if c.get('pend') else 'nobody will wake it'), st)
            elif not c.get('wokei'):
                self.bad(I, 'idle', 'the worker becomes idle without waking those who wait for it', st)
            else:
                self.ok(I, 'wait', (I.line, 'func'))
            poss = self.others(E['IDLE'])
            timed = False
            if name == 'condvar_wait_time':
                timed = True
                if args[2] != per or eng.decide(st, 'ne', eng.zx(st, per, 32), 0) is not True:
                    self.bad(I, 'period', 'the periodic wait does not last the configured period', st)
                else:
                    self.ok(I, 'period')
            st.cl = st.cl.set(timed=timed)
        else:
            if self.op == 'wait_idle':
                if not self.mine(eng, st, I, p, 'condvar_idle') or v not in (E['BUSY'], E['SIGNALED']):
                    self.bad(I, 'wait', 'idleness is waited for in state %s, in which it is not announced' % self.N.get(v), st)
                else:
                    self.ok(I, 'wait', (I.line, v))
            else:
                self.bad(I, 'wait', 'this operation waits', st)
            poss = set(E.values())
        st.cl = st.cl.set(held=False, s=v)
        out = self.enter(eng, st, poss, I)
        if name == 'condvar_wait_time':
            res = [(x, s.copy()) for _, s in out for x in (0, 1)]
            for x, s in res:
                s.cl = s.cl.set(due=x == 1 and s.cl.get('s') == E['IDLE'])
            return res
        return out

    # ------------------------------------------------------------ outcomes
    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c, E, N, op = st.cl, self.E, self.N, self.op
        s0, s = c.get('s0'), c.get('s')
        if c.get('held'):
            self.bad(I, 'release', 'returns with the lock held', st)
            return

        def bad(rule, msg):
            self.bad(I, rule, 'worker_%s: %s' % (op, msg), st, (op, rule, s0))

        stopping = (E['STOPPED'], E['STOPPING'], E['STOPPING_AFTER_WORK'])
        neg = isneg(eng, st, v) if v is not None and not isinstance(v, Ptr) else None
        if op == 'wake':
            if s0 in stopping:
                if neg is not True:
                    bad('refuse', 'accepts a request in state %s' % N[s0])
                elif s != s0:
                    bad('refuse', 'changes state %s of a worker that is not running' % N[s0])
            elif neg is not False:
                bad('refuse', 'refuses a request in state %s' % N[s0])
            elif s != E['SIGNALED']:
                bad('lost', 'leaves state %s although the request was accepted in state %s' % (N.get(s), N[s0]))
            elif s0 == E['IDLE'] and not c.get('woke'):
                bad('lost', 'does not wake the idle worker')
        elif op == 'join':
            want = E['STOPPING'] if s0 in (E['BUSY'], E['IDLE'], E['STARTING']) else (
                E['STOPPING_AFTER_WORK'] if s0 == E['SIGNALED'] else s0)
            if s0 is None or s != want:
                bad('stop', 'turns state %s into %s instead of %s' % (N.get(s0), N.get(s), N.get(want)))
            elif s0 == E['IDLE'] and not c.get('woke'):
                bad('stop', 'does not wake the idle worker')
            elif s0 in (E['BUSY'], E['SIGNALED']) and not c.get('wokei'):
                bad('stop', 'leaves those who wait for idleness waiting')
            elif c.get('joined') != 1:
                bad('stop', 'does not wait for the thread to end')
            elif (neg is True) != (c.get('jr') == 1):
                bad('stop', 'does not report the outcome of waiting for the thread')
        elif op == 'wait_idle':
            if neg is False and s not in (E['IDLE'], E['STARTING']):
                bad('idle', 'reports idleness in state %s' % N.get(s))
            elif neg is not False and s not in stopping:
                bad('idle', 'reports an error in state %s' % N.get(s))
        elif op == 'is_idle':
            t = eng.decide(st, 'ne', v, 0)
            if t is None or t != (s in (E['IDLE'], E['STARTING'])):
                bad('idle', 'reports %s in state %s' % ('idleness' if t else 'work', N.get(s)))
        elif op == 'start':
            if s0 != E['STOPPED']:
                if s != s0 or c.get('started') is not None or neg is not False:
                    bad('start', 'restarts a worker in state %s' % N[s0])
            elif c.get('started') is None:
                bad('start', 'does not start the thread')
            elif c.get('started') and (s != E['STARTING'] or neg is not False):
                bad('start', 'leaves state %s after a successful start' % N.get(s))
            elif not c.get('started') and (s != E['STOPPED'] or neg is not True):
                bad('start', 'leaves state %s after a failed start' % N.get(s))
        elif op == 'func':
            if s != E['STOPPED']:
                bad('end', 'the thread ends leaving state %s' % N.get(s))
            elif c.get('pend'):
                bad('lost', 'the thread ends although a request is pending')
        self.ok(I, 'outcome', (op, s0, s, neg))


class Thread(DClient):
    """thread_join / thread_start: the thread is joined exactly when there is one, and never forgotten"""
    def __init__(self, op):
        self.op = op

    def dirty(self, eng, st):
        p = fld(eng, st, st.frames[0].args[0], 'thread_handle.priv')
        return eng.load(st, lv(eng, eng.as_ptr(p), 'thread_priv.dirty'), ity(8))

    def start(self, eng, st, fn):
        return D(live=None, n=0)

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name == 'mutex_lock':
            p = eng.as_ptr(args[0])
            if p.tag != ('thread_priv', 'mutex'):
                return None
            if c.get('live') is not None:
                return 0
            out = []
            for v in (0, 1):
                s = st.copy()
                q = fld(eng, s, s.frames[0].args[0], 'thread_handle.priv')
                eng.store(s, lv(eng, eng.as_ptr(q), 'thread_priv.dirty'), 1, v)
                s.cl = c.set(live=v, was=v)
                out.append((0, s))
            return out
        if name == 'thread_join' and self.op == 'start':
            q = fld(eng, st, st.frames[0].args[0], 'thread_handle.priv')
            eng.store(st, lv(eng, eng.as_ptr(q), 'thread_priv.dirty'), 1, 0)
            st.cl = c.set(live=0, was=0)
            return 0
        if name == 'pthread_join':
            if c.get('live') != 1:
                self.bad(I, 'thread', 'a thread that does not exist is waited for', st)
            s2 = st.copy()
            for s in (st, s2):
                s.cl = c.set(live=0, n=c.get('n') + 1)
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095))
            self.ok(I, 'thread')
            return [(0, st), (e, s2)]
        if name == 'pthread_create':
            if c.get('live') != 0:
                self.bad(I, 'thread', 'a thread is started while the previous one has not been waited for', st)
            s2 = st.copy()
            st.cl = c.set(live=1)
            s2.cl = c.set(live=0)
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), 1, 4095))
            self.ok(I, 'thread')
            return [(0, st), (e, s2)]
        if name in ('pthread_detach',):
            self.bad(I, 'thread', 'the thread can no longer be waited for', st)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c = st.cl
        neg = isneg(eng, st, v)
        d = self.dirty(eng, st)
        live = c.get('live')
        if live is None:
            if self.op == 'start' and neg is True:
                return
            self.bad(I, 'thread', 'thread_%s succeeds without having done anything' % self.op, st)
            return
        if self.op == 'join' and live == 1:
            self.bad(I, 'thread', 'returns although the thread may still run', st)
        elif eng.decide(st, 'ne', d, 0) is not bool(live):
            self.bad(I, 'thread', 'what is recorded about the thread does not tell whether it must be waited for', st)
        elif self.op == 'start' and (neg is False) != (live == 1):
            self.bad(I, 'thread', 'the result does not tell whether the thread was started', st)
        else:
            self.ok(I, 'thread', (self.op, c.get('was'), live, neg))


def run(ctx):
    P = ctx.prog
    func = None
    for f in P.allf:
        if f.module == 'worker' and f.addr_taken and len(f.params) == 1:
            func = f
    if func is None:
        raise ir.AnalysisError('no thread function found in the worker module')
    for op in ('func', 'wake', 'join', 'wait_idle', 'is_idle', 'start'):
        w = W(P, op)
        ctx.run(w, func if op == 'func' else P.fn('worker_' + op), **({'unroll': 3} if op == 'func' else {}))
        for ent, I in sorted(w.entered.items()):
            # holding the lock, nothing can change the state: whoever does not give it up never ends
            if ent not in w.left:
                ctx.violation(I, 'stuck', 'worker_%s: entered in state %s, the lock is never given up again' % (op, w.N.get(ent[2])), None, (op, ent))
            else:
                ctx.obligation('stuck', (op, ent))
    for op in ('join', 'start'):
        ctx.run(Thread(op), P.fn('thread_' + op))
    if not ctx.viol:
        ctx.need('callback', 1, 'runs of the work function')
        ctx.need('outcome', 15, 'operation outcomes')
