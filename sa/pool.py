"""Shape analysis of the slot pool, the call map and the worker pool (S01-S05).

Whenever a lock protecting a list is taken, the list is materialised in every shape that matters to an operation on it
(empty; the element alone, first, in the middle, last; in a map chain of its own, of another hash, among busy slots), and
when the lock is released the list is walked and compared with what the section was entitled to do.  What other threads
did in between is therefore always included."""
from .common import *
from . import models as M

H1, H2 = 0x97, 0x2a
EBUSY = -16


def node(kind, n):
    return Ptr(atom(('O', 'node', kind, n)), 0)


PW = atom(('O', 'node', 'worker', 'self'))
CONN = atom(('O', 'conn', 'session'))
OTHER = atom(('O', 'conn', 'other'))
SLOTS = {x: node('slot', x) for x in ('a', 'b', 'c', 'x', 'y')}
WORKERS = {x: node('worker', x) for x in ('v', 'w')}
NAME = {p.b: n for d in (SLOTS, WORKERS) for n, p in d.items()}
NAME[PW] = 'self'


def shapes():
    """(pool, chain of the hash, chain of another hash)"""
    out = [((), (), ()), ((), ('x',), ())]
    for pool in (('a',), ('a', 'b'), ('a', 'b', 'c')):
        for n in pool:
            for ch in ((n,), (n, 'x'), ('x', n), ('x', n, 'y')):
                out.append((pool, ch, ()))
        for n2 in ((), ('a',), ('a', 'y'), ('y', 'a'), ('x', 'a', 'y')):
            out.append((pool, (), n2))
        out.append((pool, ('x',), ('a',)))
    if True:
        out.append((('a', 'b'), ('b', 'a'), ()))
    return out


class Pools(DClient):
    def __init__(self, want, mode):
        self.want, self.mode = want, mode

    def bad(self, I, rule, msg, st=None, inst=None):
        if rule in self.want:
            DClient.bad(self, I, rule, msg, st, inst)

    def ok(self, I, rule, inst=None):
        if rule in self.want:
            DClient.ok(self, I, rule, inst)

    def distinct(self, eng, st, x, y):
        for a in (x, y):
            d = adesc(a)
            if d[0] == 'O' and d[1] in ('node', 'conn'):
                return True
        return False

    def start(self, eng, st, fn):
        self.fn = fn
        return D(locks=(), taken=None, slot='none', conn='open', worker='out', pool=(), chains=(), idle=(), updated=False,
                 upd_after=False, prev_idle=())

    def peel(self, eng, st, hdr):
        # a list under its lock is explicit: walk it
        return 8 if any(t and t[1] in ('idle_clients_mutex', 'idle_workers_mutex') for b, o, t, m in st.cl.get('locks')) else 0

    # ------------------------------------------------------------------ materialise
    def put(self, eng, st, p, path, v):
        eng.store(st, lv(eng, p, path), 8, v)

    def slots(self, eng, st, base, shape):
        pool, c1, c2 = shape
        P = self
        head = lv(eng, base, 'proxy_priv.idle_clients_head')
        prev = head
        taken = st.cl.get('taken')
        for n in pool:
            eng.store(st, prev, 8, SLOTS[n])
            P.put(eng, st, SLOTS[n], 'proxy_conn_handle.prev_ptr', prev)
            prev = lv(eng, SLOTS[n], 'proxy_conn_handle.next')
        eng.store(st, prev, 8, 0)
        P.put(eng, st, base, 'proxy_priv.idle_clients_tail_ptr', prev)
        for h, ch in ((H1, c1), (H2, c2)):
            prev = self.bucket(eng, base, h)
            for n in ch:
                eng.store(st, prev, 8, SLOTS[n])
                P.put(eng, st, SLOTS[n], 'proxy_conn_handle.prev_by_call_ptr', prev)
                prev = lv(eng, SLOTS[n], 'proxy_conn_handle.next_by_call')
            eng.store(st, prev, 8, 0)
        for n in SLOTS:
            if n not in c1 and n not in c2 and n in pool:
                P.put(eng, st, SLOTS[n], 'proxy_conn_handle.prev_by_call_ptr', 0)
                P.put(eng, st, SLOTS[n], 'proxy_conn_handle.next_by_call', 0)
            if n not in pool and n != taken and (n in c1 or n in c2):
                P.put(eng, st, SLOTS[n], 'proxy_conn_handle.prev_ptr', 0)
        st.cl = st.cl.set(pool=tuple(pool), chains=(c1, c2))

    def bucket(self, eng, base, h):
        p = lv(eng, base, 'proxy_priv.clients_by_call')
        return Ptr(p.b, add(p.o, 8 * h), p.tag)

    def workers(self, eng, st, base, idle):
        prev = lv(eng, base, 'proxy_priv.idle_workers_head')
        for n in idle:
            w = WORKERS[n] if n != 'self' else Ptr(PW, 0)
            eng.store(st, prev, 8, w)
            prev = lv(eng, w, 'proxy_worker.next')
        eng.store(st, prev, 8, 0)
        st.cl = st.cl.set(idle=tuple(idle))

    # ------------------------------------------------------------------ walk
    def follow(self, eng, st, at, link, limit=8):
        """names on the list starting in the cell at; None with a reason if it is broken"""
        out, cells = [], [at]
        while len(out) < limit:
            v = eng.load(st, Ptr(at.b, at.o), pty())
            if v == 0:
                return out, cells, None
            if not isinstance(v, Ptr) or v.b not in NAME or v.o != 0:
                return out, cells, 'a link leads elsewhere'
            out.append(NAME[v.b])
            at = lv(eng, v, link)
            cells.append(at)
        return out, cells, 'it does not end'

    def nodeof(self, n):
        return SLOTS.get(n) or WORKERS.get(n) or Ptr(PW, 0)

    def double(self, eng, st, names, cells, back, I, rule, what):
        for n, c in zip(names, cells):
            b = eng.load(st, lv(eng, self.nodeof(n), back), pty())
            if not (isinstance(b, Ptr) and b.b == c.b and b.o == c.o):
                self.bad(I, rule, '%s: the back link of an element does not name the link to it' % what, st)
                return False
        return True

    def slots_end(self, eng, st, I, base):
        c = st.cl
        head = lv(eng, base, 'proxy_priv.idle_clients_head')
        names, cells, err = self.follow(eng, st, head, 'proxy_conn_handle.next')
        before, tk, ss = list(c.get('pool')), c.get('taken'), c.get('slot')
        exp = sorted(n for n in before if n != tk)
        good = True
        if err:
            self.bad(I, 'pool', 'the slot pool is broken: %s' % err, st)
            good = False
        else:
            tail = eng.load(st, lv(eng, base, 'proxy_priv.idle_clients_tail_ptr'), pty())
            if not (isinstance(tail, Ptr) and tail.b == cells[-1].b and tail.o == cells[-1].o):
                self.bad(I, 'pool', 'the tail of the slot pool does not name its last link', st)
                good = False
            good = self.double(eng, st, names, cells, 'proxy_conn_handle.prev_ptr', I, 'pool', 'slot pool') and good
            rest = sorted(n for n in names if n != tk)
            if rest != exp:
                self.bad(I, 'pool', 'slots other than the one taken %s' % (
                    'leave the pool' if len(rest) < len(exp) else 'enter the pool'), st)
                good = False
            k = names.count(tk) if tk else 0
            if tk and k == 0 and tk not in before and ss in ('finished', 'taken'):
                pass
            elif tk and k and ss == 'taken':
                self.bad(I, 'slot', 'a slot is listed as free while a session uses it', st)
                good = False
            elif tk and k and ss == 'finished':
                if k > 1 or tk in before:
                    self.bad(I, 'slot', 'the slot is returned to the pool twice', st)
                    good = False
                st.cl = st.cl.set(slot='back')
            elif tk and k and ss == 'back' and tk not in before:
                self.bad(I, 'slot', 'the slot is returned to the pool twice', st)
                good = False
            elif tk and k == 0 and ss == 'back' and tk in before:
                self.bad(I, 'slot', 'the slot leaves the pool after it was returned', st)
            if tk and k == 0 and ss == 'taken':
                b = eng.load(st, lv(eng, SLOTS[tk], 'proxy_conn_handle.prev_ptr'), pty())
                if b != 0 and null(eng, st, b) is not True:
                    self.bad(I, 'mark', 'a slot in use still looks as if it were in the pool', st)
                else:
                    self.ok(I, 'mark', (I.fn.name, tk))
            order = [n for n in names if n in before]
            if good and order != [n for n in before if n in names]:
                self.bad(I, 'pool', 'the order of the pool changes', st)
        got = []
        for h, ch in ((H1, c.get('chains')[0]), (H2, c.get('chains')[1])):
            nm, cl, err = self.follow(eng, st, self.bucket(eng, base, h), 'proxy_conn_handle.next_by_call')
            if err:
                self.bad(I, 'map', 'a chain of the call map is broken: %s' % err, st)
                good = False
                continue
            good = self.double(eng, st, nm, cl, 'proxy_conn_handle.prev_by_call_ptr', I, 'map', 'call map') and good
            if sorted(n for n in nm if n != tk) != sorted(n for n in ch if n != tk):
                self.bad(I, 'map', 'other slots leave or enter a chain of the call map', st)
                good = False
            if nm.count(tk) > 1:
                self.bad(I, 'map', 'a slot is twice in a chain of the call map', st)
                good = False
            got.append(tk in nm)
        if len(got) == 2 and tk and ss == 'taken':
            if got[1]:
                self.bad(I, 'map', 'the slot taken stays listed under the station it served before', st)
            elif not got[0]:
                self.bad(I, 'map', 'the slot taken is not listed under the station it serves', st)
            else:
                self.ok(I, 'map', (I.fn.name, c.get('pool'), c.get('chains'), tk))
        if good:
            self.ok(I, 'pool', (I.fn.name, c.get('pool'), c.get('chains'), tk, ss))
        # from here on other threads own the lists
        for n, p in SLOTS.items():
            if n != tk:
                st.mem.pop(p.b, None)
        self.wipe(eng, st, base, ['idle_clients_head', 'idle_clients_tail_ptr', 'clients_by_call'])
        st.cl = st.cl.set(pool=(), chains=())

    def wipe(self, eng, st, base, fields):
        m = st.mem.get(base.b)
        if m is None:
            return
        rng = []
        for f in fields:
            o = add(base.o, eng.prog.off('proxy_priv', f))
            rng.append((o, o + (2048 if f == 'clients_by_call' else 8)))
        cells = {o: c for o, c in m.cells.items() if not (isinstance(o, int) and any(lo <= o < hi for lo, hi in rng))}
        st.mem[base.b] = type(m)(cells, m.blobs, m.epoch)

    def workers_end(self, eng, st, I, base):
        c = st.cl
        names, cells, err = self.follow(eng, st, lv(eng, base, 'proxy_priv.idle_workers_head'), 'proxy_worker.next')
        before = list(c.get('idle'))
        w = c.get('mine')
        good = True
        if err:
            self.bad(I, 'pool', 'the worker pool is broken: %s' % err, st)
            good = False
        else:
            gone = [n for n in before if n not in names]
            new = [n for n in names if n not in before]
            if len(set(names)) != len(names):
                self.bad(I, 'worker', 'a worker is listed twice', st)
                good = False
            elif w is None and self.mode == 'process':
                if new or len(gone) > 1:
                    self.bad(I, 'pool', 'the worker pool %s' % ('gains a worker' if new else 'loses workers'), st)
                    good = False
                elif gone:
                    self.take(eng, st, I, base, gone[0])
                else:
                    self.refuse(eng, st, I, base, before)
            elif gone or [n for n in new if n != w]:
                self.bad(I, 'pool', 'the worker pool %s' % ('loses workers' if gone else 'gains a worker that is not free'), st)
                good = False
            elif w in new:
                self.back(eng, st, I)
        if good:
            self.ok(I, 'pool', (I.fn.name, 'workers', tuple(before), tuple(names)))
        for n, p in WORKERS.items():
            if n != st.cl.get('mine'):
                st.mem.pop(p.b, None)
        self.wipe(eng, st, base, ['idle_workers_head'])
        st.cl = st.cl.set(idle=())

    # ------------------------------------------------------------------ locks
    def held(self, st, tag, mode=None):
        return any(t == tag and (mode is None or m == mode) for b, o, t, m in st.cl.get('locks'))

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in LOCK:
            p = eng.as_ptr(args[0])
            st.cl = c.set(locks=c.get('locks') + ((p.b, p.o, p.tag, LOCK[name]),))
            return self.locked(eng, st, I, p, LOCK[name])
        if name in UNLOCK:
            p = eng.as_ptr(args[0])
            l = list(c.get('locks'))
            for x in reversed(l):
                if (x[0], x[1]) == (p.b, p.o):
                    base = Ptr(p.b, add(p.o, -eng.prog.off(*x[2]))) if x[2] else p
                    self.unlocking(eng, st, I, x[2], x[3], base)
                    l.remove(x)
                    break
            st.cl = st.cl.set(locks=tuple(l))
            return 0
        for a in args:
            if isinstance(a, Ptr) and a.b == CONN and c.get('conn') in ('closed', 'released', 'handed') and name not in ('free', 'conn_free'):
                self.bad(I, 'use', '%s uses the connection after it was %s' % (name, 'handed over' if c.get('conn') == 'handed' else 'closed'), st)
        m = getattr(self, 'c_' + name, None)
        if m:
            return m(eng, st, I, args)
        return None

    def locked(self, eng, st, I, p, mode):
        if p.tag is None:
            return 0
        base = Ptr(p.b, add(p.o, -eng.prog.off(*p.tag)))
        if p.tag == ('proxy_priv', 'idle_clients_mutex'):
            out = []
            tk = st.cl.get('taken')
            for sh in shapes():
                if tk:
                    # what other threads left: the slot is out of the pool and listed under its station
                    sh = self.without(sh, tk, st.cl.get('slot'))
                    if sh is None:
                        continue
                s = st.copy()
                self.slots(eng, s, base, sh)
                out.append((0, s))
            return self.uniq(out)
        if p.tag == ('proxy_priv', 'idle_workers_mutex'):
            out = []
            for idle in self.idle_shapes(st):
                s = st.copy()
                self.workers(eng, s, base, idle)
                out.append((0, s))
            return out
        if p.tag == ('proxy_priv', 'usable_clients_mutex'):
            u = eng.fresh(st, ('usable',) + eng.site(st, I), 0, 65536)
            eng.store(st, lv(eng, base, 'proxy_priv.usable_clients'), 4, lin(u))
            return 0
        if p.tag == ('proxy_worker', 'mutex'):
            return self.wlock(eng, st, I, base)
        return 0

    def uniq(self, out):
        seen, r = set(), []
        for v, s in out:
            k = (s.cl.get('pool'), s.cl.get('chains'))
            if k not in seen:
                seen.add(k)
                r.append((v, s))
        return r

    def without(self, sh, tk, slot):
        pool, c1, c2 = sh
        if c2 or len(pool) > 2 or 'c' in pool:
            return None
        if slot == 'back':
            return (pool, (tk,), ()) if tk in pool else None
        if tk in pool:
            pool = tuple(n for n in pool if n != tk)
        if c1 not in ((), ('x',)):
            return None
        return (pool, (tk,) + c1, ())

    def idle_shapes(self, st):
        return ((), ('w',), ('w', 'v'))

    def unlocking(self, eng, st, I, tag, mode, base):
        if tag == ('proxy_priv', 'idle_clients_mutex'):
            self.slots_end(eng, st, I, base)
        elif tag == ('proxy_priv', 'idle_workers_mutex'):
            self.workers_end(eng, st, I, base)
        elif tag == ('proxy_worker', 'mutex'):
            self.wunlock(eng, st, I, base)

    def wlock(self, eng, st, I, base):
        return 0

    def wunlock(self, eng, st, I, base):
        pass

    def connval(self, eng, st, base):
        return eng.load(st, lv(eng, base, 'proxy_worker.conn_client'), pty())

    def take(self, eng, st, I, base, n):
        pass

    def refuse(self, eng, st, I, base, before):
        pass

    def back(self, eng, st, I):
        pass

    def c_conn_free(self, eng, st, I, args):
        p = eng.as_ptr(args[0])
        if p.b != self.conn(st):
            self.bad(I, 'owner', 'a connection is closed that this operation does not own', st)
            return 0
        s = st.cl.get('conn')
        if s == 'handed':
            self.bad(I, 'once', 'the connection is closed although it was handed to a worker', st)
        elif s in ('closed', 'released'):
            self.bad(I, 'once', 'the connection is closed twice', st)
        elif s == 'raw':
            self.bad(I, 'once', 'a connection that was not set up is torn down', st)
        else:
            self.shared(eng, st, I)
            self.ok(I, 'once', (I.fn.name, I.line))
            st.cl = st.cl.set(conn='closed')
        return 0

    def shared(self, eng, st, I):
        pass

    def conn(self, st):
        return CONN

    def c_free(self, eng, st, I, args):
        p = args[0]
        if isinstance(p, Ptr) and p.b == self.conn(st):
            s = st.cl.get('conn')
            if s in ('closed', 'raw'):
                self.shared(eng, st, I)
                self.ok(I, 'once', (I.fn.name, I.line))
                st.cl = st.cl.set(conn='released')
            elif s == 'handed':
                self.bad(I, 'once', 'the connection is released although it was handed to a worker', st)
            elif s == 'released':
                self.bad(I, 'once', 'the connection is released twice', st)
            else:
                self.bad(I, 'once', 'the connection is released without having been closed', st)
                st.cl = st.cl.set(conn='released')
        return 0


class Session(Pools):
    """the callback of a client worker"""
    def __init__(self, want, fn):
        Pools.__init__(self, want, 'session')

    def start(self, eng, st, fn):
        return Pools.start(self, eng, st, fn).set(mine='self')

    def setup(self, eng, st, has):
        eng.store(st, lv(eng, Ptr(PW, 0), 'proxy_worker.worker.worker_handle.func_ctx'), 8, Ptr(PW, 0))
        eng.store(st, lv(eng, Ptr(PW, 0), 'proxy_worker.conn_client'), 8, Ptr(CONN, 0) if has else 0)
        if not has:
            st.cl = st.cl.set(conn='none')

    def c_pearson_get(self, eng, st, I, args):
        p = eng.as_ptr(args[0])
        o = eng.prog.off('proxy_worker', 'callsign')
        if p.b == PW and p.o == o:
            return H1
        return None

    def c_proxy_conn_accept(self, eng, st, I, args):
        c = st.cl
        p = eng.as_ptr(args[0])
        n = NAME.get(p.b)
        tg = ('proxy_priv', 'idle_clients_mutex')
        if n not in SLOTS or p.o != 0:
            self.bad(I, 'pooled', 'a session is offered something that is not a slot of the lists', st)
            return 0
        if not self.held(st, tg, 'x'):
            self.bad(I, 'pooled', 'a slot is taken while another session may take the same one', st)
        elif c.get('taken'):
            self.bad(I, 'pooled', 'a session takes a second slot', st)
        elif n not in c.get('pool'):
            self.bad(I, 'pooled', 'a slot is taken that has not returned to the pool', st)
        else:
            self.ok(I, 'pooled', (I.fn.name, c.get('pool'), c.get('chains'), n))
        fl = args[3] if len(args) > 3 else None
        if not isinstance(args[2], Ptr) or args[2].b != PW or args[2].o != eng.prog.off('proxy_worker', 'callsign'):
            self.bad(I, 'callsign', 'the slot is not given the callsign that was authorised', st)
        if not isinstance(args[1], Ptr) or args[1].b != CONN:
            self.bad(I, 'callsign', 'the slot is not given the connection of this session', st)
        if fl == 0:
            if c.get('pool')[:1] != (n,):
                self.bad(I, 'same', 'a slot of the call map is given out without the callsign having to be identical', st)
            else:
                self.ok(I, 'same', (I.fn.name, I.line))
        elif eng.decide(st, 'ne', fl, 0) is not True:
            self.bad(I, 'same', 'whether the callsign has to be identical is left open', st)
        else:
            self.ok(I, 'same', (I.fn.name, I.line))
        if not c.get('updated'):
            self.bad(I, 'authorised', 'the directory is not told before a slot is requested for an authorised station', st)
        else:
            self.ok(I, 'authorised', (I.fn.name, I.line))
        out = []
        s = st.copy()
        s.cl = s.cl.set(taken=n, slot='taken')
        out.append((0, s))
        s = st.copy()
        out.append((EBUSY, s))
        a = eng.fresh(st, ('accept',) + eng.site(st, I), -4095, -1)
        eng.assume(st, 'ne', lin(a), EBUSY)
        out.append((lin(a), st))
        return out

    def c_proxy_conn_process(self, eng, st, I, args):
        self.mine(eng, st, I, args, 'served')
        s = st.copy()
        return [(lin(eng.fresh(st, ('process', 'ok') + eng.site(st, I), 0, (1 << 31) - 1)), st),
                (lin(eng.fresh(s, ('process', 'err') + eng.site(s, I), -4095, -1)), s)]

    def mine(self, eng, st, I, args, what):
        p = eng.as_ptr(args[0])
        n = NAME.get(p.b)
        c = st.cl
        if n is None or n != c.get('taken') or c.get('slot') == 'back':
            self.bad(I, 'slot', 'a slot is %s that this session does not hold' % what, st)
            return False
        return True

    def c_proxy_conn_finish(self, eng, st, I, args):
        if self.mine(eng, st, I, args, 'wound down'):
            self.ok(I, 'slot', (I.fn.name, I.line))
            st.cl = st.cl.set(slot='finished')
        return 0

    def c_proxy_update_registration(self, eng, st, I, args):
        c = st.cl
        p = eng.as_ptr(args[0])
        st.cl = c.set(updated=True, upd_after=c.get('worker') == 'in')
        return 0

    def shared(self, eng, st, I):
        v = self.connval(eng, st, Ptr(PW, 0))
        if not (isinstance(v, Ptr) and v.b == CONN):
            return
        if not self.held(st, ('proxy_worker', 'mutex'), 'x'):
            self.bad(I, 'clear', 'the connection is given up while others may still disconnect it through the worker', st)
        else:
            self.ok(I, 'clear', (I.fn.name, I.line))

    def wlock(self, eng, st, I, base):
        if st.cl.get('worker') == 'in' and base.b == PW:
            a = eng.fresh(st, ('again',) + eng.site(st, I))
            eng.store(st, lv(eng, base, 'proxy_worker.conn_client'), 8, Ptr(a, 0))
        return 0

    def wunlock(self, eng, st, I, base):
        v = self.connval(eng, st, Ptr(PW, 0))
        if isinstance(v, Ptr) and v.b == CONN and st.cl.get('conn') in ('closed', 'released'):
            self.bad(I, 'clear', 'the worker still names its connection after closing it', st)

    def back(self, eng, st, I):
        c = st.cl
        v = self.connval(eng, st, Ptr(PW, 0))
        if c.get('worker') == 'in':
            self.bad(I, 'worker', 'the worker returns to the pool twice', st)
        if c.get('conn') == 'none':
            self.bad(I, 'worker', 'a worker that was not taken is added to the pool', st)
        if c.get('conn') not in ('released', 'none'):
            self.bad(I, 'before', 'the worker can be given another connection before it has released its own', st)
        elif v != 0:
            self.bad(I, 'before', 'the worker can be given another connection while it still names one', st)
        else:
            self.ok(I, 'before', (I.fn.name, I.line))
        if c.get('slot') in ('taken', 'finished'):
            self.bad(I, 'slot', 'the worker returns to the pool before the slot it took', st)
        self.ok(I, 'worker', (I.fn.name, I.line))
        st.cl = c.set(worker='in', upd_after=False)

    def idle_shapes(self, st):
        if st.cl.get('worker') == 'in':
            return (('self',), ('w', 'self'))
        return ((), ('w',), ('w', 'v'))

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c = st.cl
        if c.get('conn') == 'none':
            self.ok(I, 'worker', ('none', I.line))
            return
        if c.get('conn') == 'open':
            self.bad(I, 'end', 'the session ends without closing its connection', st)
        elif c.get('conn') == 'closed':
            self.bad(I, 'end', 'the session ends without releasing its connection', st)
        else:
            self.ok(I, 'end', (I.fn.name, I.line))
        if c.get('slot') in ('taken', 'finished'):
            self.bad(I, 'slot', 'the session ends without returning its slot%s' % (
                '' if c.get('slot') == 'finished' else ' (which was not wound down either)'), st)
        else:
            self.ok(I, 'slot', ('end', c.get('slot')))
        if c.get('worker') != 'in':
            self.bad(I, 'worker', 'the session ends without its worker returning to the pool', st)
        if c.get('updated') and not c.get('upd_after'):
            self.bad(I, 'ended', 'the directory is not told after the worker of an authorised session returned', st)
        elif c.get('updated'):
            self.ok(I, 'ended', (I.fn.name, c.get('slot')))


class Accept(Pools):
    """one round of accepting a connection"""
    def __init__(self, want):
        Pools.__init__(self, want, 'process')

    def start(self, eng, st, fn):
        return Pools.start(self, eng, st, fn).set(mine=None, cb=None, conn='raw', usable=None, none=False, accepted=False)

    def conn(self, st):
        return st.cl.get('cb')

    def c_conn_init(self, eng, st, I, args):
        p = eng.as_ptr(args[0])
        r = M.MODELS['conn_init'](eng, st, I, args)
        s2 = st.copy()
        if isinstance(r, list):
            for v, s in r:
                if isneg(eng, s, v) is not True:
                    s.cl = s.cl.set(conn='open', cb=p.b)
                else:
                    s.cl = s.cl.set(conn='raw', cb=p.b)
        return r

    def c_conn_accept(self, eng, st, I, args):
        p = eng.as_ptr(args[1])
        if p.b != st.cl.get('cb') or st.cl.get('conn') != 'open':
            self.bad(I, 'second', 'a connection is accepted into an object that is not ready for one', st)
        r = M.MODELS['conn_accept'](eng, st, I, args)
        for v, s in r:
            if isneg(eng, s, v) is not True:
                s.cl = s.cl.set(accepted=True)
        return r

    def take(self, eng, st, I, base, n):
        u = eng.load(st, lv(eng, base, 'proxy_priv.usable_clients'), ity(32))
        if not st.cl.get('accepted'):
            self.bad(I, 'worker', 'a worker is taken although no connection was accepted', st)
        if not self.held(st, ('proxy_priv', 'usable_clients_mutex')):
            self.bad(I, 'usable', 'a worker is taken without the protection shutdown uses', st)
        elif eng.decide(st, 'sgt', u, 0) is not True:
            self.bad(I, 'usable', 'a worker is taken although the service may have no usable slot', st)
        else:
            self.ok(I, 'usable', (I.fn.name, I.line))
        st.cl = st.cl.set(mine=n, worker='out')
        st.mem.pop(WORKERS[n].b, None)
        for o in ('proxy_worker.conn_client',):
            pass

    def refuse(self, eng, st, I, base, before):
        if self.held(st, ('proxy_priv', 'usable_clients_mutex')) and before:
            u = eng.load(st, lv(eng, base, 'proxy_priv.usable_clients'), ity(32))
            if eng.decide(st, 'sgt', u, 0) is True:
                self.bad(I, 'served', 'a connection is refused although a slot is usable and a worker is free', st)
            elif eng.decide(st, 'sgt', u, 0) is None:
                self.bad(I, 'usable', 'a connection is refused without the number of usable slots having been looked at', st)
        self.ok(I, 'served', (I.fn.name, tuple(before)))
        st.cl = st.cl.set(none=True)

    def wlock(self, eng, st, I, base):
        n = NAME.get(base.b)
        if n is None:
            return 0
        if st.cl.get('wconn') is not None:
            return 0
        s = st.copy()
        eng.store(st, lv(eng, base, 'proxy_worker.conn_client'), 8, 0)
        eng.store(s, lv(eng, base, 'proxy_worker.conn_client'), 8, Ptr(OTHER, 0))
        st.cl = st.cl.set(wconn='none')
        s.cl = s.cl.set(wconn='other')
        return [(0, st), (0, s)]

    def c_worker_wake(self, eng, st, I, args):
        p = eng.as_ptr(args[0])
        n = NAME.get(p.b)
        c = st.cl
        base = Ptr(p.b, add(p.o, -eng.prog.off('proxy_worker', 'worker')))
        if n is None or n != c.get('mine') or c.get('worker') != 'out':
            self.bad(I, 'worker', 'a worker is woken that was not taken from the pool', st)
            return 0
        v = self.connval(eng, st, base)
        if isinstance(v, Ptr) and v.b == OTHER or c.get('wconn') == 'other':
            self.bad(I, 'second', 'a worker is woken that still owns another connection', st)
        if not (isinstance(v, Ptr) and v.b == c.get('cb')):
            self.bad(I, 'owner', 'a worker is woken without having been given the connection', st)
        elif c.get('conn') != 'open' or not c.get('accepted'):
            self.bad(I, 'owner', 'a worker is given a connection that is not open', st)
        else:
            self.ok(I, 'owner', (I.fn.name, I.line))
        if not self.held(st, ('proxy_worker', 'mutex'), 'x'):
            self.bad(I, 'second', 'a worker is given its connection without exclusive access', st)
        s = st.copy()
        s.cl = s.cl.set(conn='handed', worker='busy')
        a = eng.fresh(st, ('wake',) + eng.site(st, I), -4095, -1)
        st.cl = st.cl.set(wakefail=True)
        return [(0, s), (lin(a), st)]

    def on_store(self, eng, st, I, p, v, size):
        if p.tag == ('proxy_worker', 'conn_client') and NAME.get(p.b):
            old = self.connval(eng, st, Ptr(p.b, add(p.o, -eng.prog.off('proxy_worker', 'conn_client'))))
            if not self.held(st, ('proxy_worker', 'mutex'), 'x'):
                self.bad(I, 'second', 'the connection of a worker is changed without exclusive access', st)
            elif old != 0 and not (isinstance(old, Ptr) and old.b == st.cl.get('cb') and v == 0):
                self.bad(I, 'second', 'a worker is given a second connection', st)
            else:
                self.ok(I, 'second', (I.fn.name, I.line))

    def wunlock(self, eng, st, I, base):
        n = NAME.get(base.b)
        if n is None:
            return
        v = self.connval(eng, st, base)
        if isinstance(v, Ptr) and v.b == st.cl.get('cb') and st.cl.get('conn') != 'handed':
            self.bad(I, 'owner', 'a worker that was not woken keeps a reference to the connection', st)

    def back(self, eng, st, I):
        if st.cl.get('worker') != 'out':
            self.bad(I, 'worker', 'a worker returns to the pool although it %s' % (
                'was given the connection' if st.cl.get('worker') == 'busy' else 'is there already'), st)
        else:
            self.ok(I, 'worker', (I.fn.name, I.line))
        st.cl = st.cl.set(worker='in')

    def idle_shapes(self, st):
        m = st.cl.get('mine')
        if m is None:
            return ((), ('w',), ('w', 'v'))
        if st.cl.get('worker') == 'in':
            return ((m,), ('v' if m != 'v' else 'w', m))
        return ((), ('v' if m != 'v' else 'w',))

    def c_free(self, eng, st, I, args):
        p = args[0]
        if st.cl.get('cb') is None:
            return 0
        return Pools.c_free(self, eng, st, I, args)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c = st.cl
        if c.get('cb') is not None:
            if c.get('conn') not in ('handed', 'released'):
                self.bad(I, 'end', 'the connection is neither handed to a worker nor %s' % (
                    'released' if c.get('conn') != 'open' else 'closed and released'), st)
            else:
                self.ok(I, 'end', (I.fn.name, c.get('conn')))
        if c.get('mine') and c.get('worker') == 'out':
            self.bad(I, 'worker', 'a worker taken from the pool is neither given the connection nor returned', st)
        if c.get('none') and c.get('mine') is None:
            if isneg(eng, st, v) is not False:
                self.bad(I, 'served', 'refusing a connection because no slot is free ends the service', st)
            else:
                self.ok(I, 'served', 'result')
        if c.get('conn') == 'handed' and isneg(eng, st, v) is not False:
            self.bad(I, 'served', 'a failure is reported although the connection was handed to a worker', st)


def callback(P):
    """callbacks of workers of the proxy itself"""
    return [f for f in func_of_callbacks(P) if f.module == 'proxy']


ALL = ['pool', 'map', 'slot', 'mark', 'worker', 'owner', 'once', 'clear', 'before', 'end', 'use', 'second', 'pooled', 'same',
       'callsign', 'authorised', 'ended', 'usable', 'served']


def run(ctx, want, modes=('session', 'process')):
    P = ctx.prog
    if 'session' in modes:
        for f in callback(P):
            for has in (True, False):
                s = Session(want, f)
                ctx.run(s, f, unroll=8, args={0: Ptr(PW, P.off('proxy_worker', 'worker'))}, setup=lambda eng, st: s.setup(eng, st, has))
    if 'process' in modes:
        for f in entries(P, ('proxy',)):
            fns, names = reach(P, f, stop=[g.name for g in P.allf if g.boundary])
            if 'conn_accept' in names:
                ctx.run(Accept(want), f, unroll=8)


class Take(DClient):
    """S03: accepting a station into a slot"""
    def start(self, eng, st, fn):
        return D(held=0, same=False, old=None, rec=False, own=False, steps=(), failed=False, finished=False, test=False)

    def field(self, eng, p, f):
        return p.tag == ('proxy_conn_priv', f)

    def base(self, eng, st):
        return eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_conn_handle.priv'))

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        b = self.base(eng, st)
        A = st.frames[0].args
        if name in LOCK:
            p = eng.as_ptr(args[0])
            if p.b == b.b and self.field(eng, p, 'mutex_client'):
                s = st.copy()
                for x, v, n in ((st, 0, 'free'), (s, Ptr(OTHER, 0), 'busy')):
                    # our own entry stays: only its holder removes it
                    if c.get('own'):
                        x.cl = c.set(held=2 if LOCK[name] == 'x' else 1)
                        return 0
                    eng.store(x, lv(eng, b, 'proxy_conn_priv.conn_client'), 8, v)
                    eng.blob(x, lv(eng, b, 'proxy_conn_priv.callsign'), self.size(eng), 'data', atom(('last', I.line)))
                    x.cl = c.set(held=2 if LOCK[name] == 'x' else 1, old=n, same=False, rec=False)
                return [(0, st), (0, s)]
            return 0
        if name in UNLOCK:
            p = eng.as_ptr(args[0])
            if p.b == b.b and self.field(eng, p, 'mutex_client'):
                v = eng.load(st, lv(eng, b, 'proxy_conn_priv.conn_client'), pty())
                if c.get('own') and not c.get('finished') and not c.get('rec'):
                    self.bad(I, 'atomic', 'the slot is taken without recording the callsign in the same step', st)
                elif c.get('own') and not c.get('finished'):
                    self.ok(I, 'atomic', (I.fn.name, I.line))
                if not c.get('own') and c.get('rec'):
                    self.bad(I, 'atomic', 'the callsign of a slot changes although it was not taken', st)
                st.cl = c.set(held=0)
            return 0
        if name in ('strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp', 'bcmp'):
            ps = [eng.as_ptr(a) for a in args[:2]]
            if any(p.b == b.b for p in ps) and any(p.b == A[2].b for p in ps):
                whole = name == 'strcmp' or name in ('strncmp', 'memcmp') and isinstance(args[2], int) and args[2] >= self.size(eng) - 1
                zero = all(p.o == (eng.prog.off('proxy_conn_priv', 'callsign') if p.b == b.b else 0) for p in ps)
                s = st.copy()
                a = eng.fresh(s, ('differ',) + eng.site(s, I))
                eng.assume(s, 'ne', lin(a), 0)
                st.cl = c.set(same=bool(whole and zero and c.get('held')), test=True)
                return [(0, st), (lin(a), s)]
            return None
        if name in ('strncpy', 'strcpy', 'memcpy', 'memmove', 'strcat', 'strncat', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'strlcpy', 'snprintf', '__strncpy_chk', 'sprintf'):
            d = eng.as_ptr(args[0])
            if d.b == b.b and self.incall(eng, d):
                src = [eng.as_ptr(a) for a in args[1:] if isinstance(a, Ptr)]
                if c.get('held') == 2 and any(p.b == A[2].b and p.o == 0 for p in src):
                    st.cl = c.set(rec=True)
                else:
                    self.bad(I, 'atomic', 'the callsign of a slot is set to something else, or without exclusive access', st)
            return None
        if name == 'conn_listen' or name == 'worker_wake':
            p = eng.as_ptr(args[0])
            if not c.get('own'):
                self.bad(I, 'order', '%s before the slot is taken' % name, st)
            s = st.copy()
            s.cl = c.set(steps=tuple(sorted(set(c.get('steps')) | {(name, p.tag)}, key=repr)))
            a = eng.fresh(st, ('fail',) + eng.site(st, I), -4095, -1)
            st.cl = c.set(failed=True)
            return [(0, s), (lin(a), st)]
        if name == 'proxy_conn_finish':
            if not c.get('own'):
                self.bad(I, 'vacate', 'a slot this station does not hold is wound down', st)
            elif c.get('held'):
                self.bad(I, 'vacate', 'the slot is wound down while its own lock is held', st)
            eng.store(st, lv(eng, b, 'proxy_conn_priv.conn_client'), 8, 0)
            st.cl = c.set(finished=True)
            return 0
        return None

    def size(self, eng):
        return eng.prog.structs['proxy_conn_priv'][eng.prog.off('proxy_conn_priv', 'callsign')][1]

    def incall(self, eng, p):
        o = eng.prog.off('proxy_conn_priv', 'callsign')
        return isinstance(p.o, int) and o <= p.o < o + self.size(eng)

    def on_store(self, eng, st, I, p, v, size):
        c = st.cl
        A = st.frames[0].args
        b = self.base(eng, st)
        if p.b == b.b and self.incall(eng, p):
            if c.get('held') == 2 and not (isinstance(v, int) and v == 0 and not c.get('own')):
                st.cl = c.set(rec=True)
        if not (p.tag == ('proxy_conn_priv', 'conn_client') and p.b == b.b):
            return
        if v == 0:
            return
        if not (isinstance(v, Ptr) and v == A[1]):
            self.bad(I, 'take', 'the slot is given another connection than the one offered', st)
        old = eng.load(st, lv(eng, b, 'proxy_conn_priv.conn_client'), pty())
        only = A[3] if len(A) > 3 else 0
        if c.get('held') != 2:
            self.bad(I, 'take', 'the slot is taken without exclusive access', st)
        elif c.get('old') != 'free' or old != 0:
            self.bad(I, 'take', 'a slot in use is given to another station', st)
        elif not c.get('same') and eng.decide(st, 'eq', only, 0) is not True:
            self.bad(I, 'take', 'a reconnecting station may be given a slot that last served another callsign', st)
        else:
            self.ok(I, 'take', (I.fn.name, I.line, c.get('same')))
        st.cl = c.set(own=True)

    def on_return(self, eng, st, I, v):
        c = st.cl
        b = self.base(eng, st)
        cur = eng.load(st, lv(eng, b, 'proxy_conn_priv.conn_client'), pty())
        n = isneg(eng, st, v)
        if c.get('held'):
            return
        if n is None:
            self.bad(I, 'result', 'whether the slot was taken is not told', st)
        elif n is False:
            if not c.get('own') or c.get('finished') or cur == 0:
                self.bad(I, 'result', 'success is reported although the station does not hold the slot', st)
            elif c.get('failed'):
                self.bad(I, 'vacate', 'success is reported although binding an address or starting a relay failed', st)
            else:
                k = [x[0] for x in c.get('steps')]
                if k.count('conn_listen') < 2 or k.count('worker_wake') < 2:
                    self.bad(I, 'vacate', 'success is reported with %d of 2 addresses bound and %d of 2 relays started' % (
                        k.count('conn_listen'), k.count('worker_wake')), st)
                else:
                    self.ok(I, 'result', (I.fn.name, I.line))
        elif c.get('own'):
            if not c.get('finished') or cur != 0:
                self.bad(I, 'vacate', 'a failure is reported although the slot was not vacated', st)
            else:
                self.ok(I, 'vacate', (I.fn.name, c.get('steps')))
        else:
            # refused: only for a reason, and told apart from failures
            if c.get('old') == 'free' and not c.get('test'):
                only = st.frames[0].args[3] if len(st.frames[0].args) > 3 else 0
                if eng.decide(st, 'eq', only, 0) is True:
                    self.bad(I, 'result', 'a free slot is refused to a station', st)
            elif c.get('old') == 'free' and c.get('same'):
                self.bad(I, 'result', 'a free slot is refused to the station it last served', st)
            if v != EBUSY:
                self.bad(I, 'result', 'a slot that is not available is not reported as busy', st)
            else:
                self.ok(I, 'result', (I.fn.name, 'busy', c.get('old')))


def take(ctx):
    P = ctx.prog
    for f in entries(P, ('proxy_conn',)):
        fns, names = reach(P, f, stop=[g.name for g in P.allf if g.boundary])
        if 'conn_listen' in names:
            ctx.run(Take(), f, unroll=4)


# ---------------------------------------------------------------------------------------------- starting and shutting down
CL, WK = atom(('O', 'node', 'array', 'clients')), atom(('O', 'node', 'array', 'workers'))


class Start(DClient):
    """which slots and workers run when the number of usable slots is set, and what follows"""
    def __init__(self, n, want):
        self.n, self.want = n, want

    bad, ok, distinct = Pools.bad, Pools.ok, Pools.distinct

    def start(self, eng, st, fn):
        return D(held=0, conns=(), workers=(), reg=False, set=None, told=None, shut=False, failed=False)

    def setup(self, eng, st):
        b = self.priv(eng, st)
        eng.store(st, lv(eng, b, 'proxy_priv.num_clients'), 4, self.n)
        eng.store(st, lv(eng, b, 'proxy_priv.clients'), 8, Ptr(CL, 0))
        eng.store(st, lv(eng, b, 'proxy_priv.client_workers'), 8, Ptr(WK, 0))

    def priv(self, eng, st):
        return eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv'))

    def peel(self, eng, st, hdr):
        return self.n + 1

    def idx(self, eng, p, b, struct, off=0):
        sz = eng.prog.sizes[struct]
        if p.b != b or not isinstance(p.o, int) or (p.o - off) % sz:
            return None
        return (p.o - off) // sz

    def fork(self, eng, st, I, on):
        s = st.copy()
        s.cl = s.cl.set(failed=True)
        a = eng.fresh(s, ('fail',) + eng.site(s, I), -4095, -1)
        st.cl = on(st.cl)
        return [(0, st), (lin(a), s)]

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in LOCK or name in UNLOCK:
            p = eng.as_ptr(args[0])
            if p.tag == ('proxy_priv', 'usable_clients_mutex'):
                f = lv(eng, Ptr(p.b, add(p.o, -eng.prog.off(*p.tag))), 'proxy_priv.usable_clients')
                if name in LOCK:
                    eng.store(st, f, 4, lin(eng.fresh(st, ('usable',) + eng.site(st, I), 0, 65536)))
                elif LOCK.get(name.replace('unlock', 'lock')) == 'x' and eng.decide(st, 'eq', eng.load(st, f, ity(32)), 0) is True:
                    if c.get('set') != 0:
                        c = c.set(set=0, told=None)
                st.cl = c.set(held=(2 if LOCK[name] == 'x' else 1) if name in LOCK else 0)
            return 0
        if name == 'proxy_conn_start':
            i = self.idx(eng, eng.as_ptr(args[0]), CL, 'proxy_conn_handle')
            return self.fork(eng, st, I, lambda c: c.set(conns=tuple(sorted(c.get('conns') + (i,), key=repr))))
        if name == 'worker_start':
            i = self.idx(eng, eng.as_ptr(args[0]), WK, 'proxy_worker', eng.prog.off('proxy_worker', 'worker'))
            return self.fork(eng, st, I, lambda c: c.set(workers=tuple(sorted(c.get('workers') + (i,), key=repr))))
        if name == 'worker_join':
            i = self.idx(eng, eng.as_ptr(args[0]), WK, 'proxy_worker', eng.prog.off('proxy_worker', 'worker'))
            if i not in c.get('workers'):
                self.bad(I, 'undo', 'a worker is stopped that was not started', st)
            st.cl = c.set(workers=tuple(x for x in c.get('workers') if x != i))
            return 0
        if name == 'proxy_conn_stop':
            i = self.idx(eng, eng.as_ptr(args[0]), CL, 'proxy_conn_handle')
            if i not in c.get('conns'):
                self.bad(I, 'undo', 'a slot is stopped that was not started', st)
            st.cl = c.set(conns=tuple(x for x in c.get('conns') if x != i))
            return 0
        if name == 'registration_service_start':
            return self.fork(eng, st, I, lambda c: c.set(reg=True))
        if name == 'registration_service_stop':
            st.cl = c.set(reg=False)
            return 0
        if name == 'proxy_update_registration':
            if c.get('held'):
                self.bad(I, 'told', 'the directory is told while the number of usable slots is locked', st)
            st.cl = c.set(told=c.get('set'))
            return 0
        if name == 'proxy_shutdown':
            st.cl = c.set(set=0, told=0, shut=True)
            return 0
        if name == 'conn_shutdown':
            p = eng.as_ptr(args[0])
            if p.tag == ('proxy_priv', 'conn_listen') or p.b == self.priv(eng, st).b:
                if c.get('set') != 0:
                    self.bad(I, 'shutdown', 'the listener is stopped before the number of usable slots is cleared', st)
                elif c.get('told') != 0:
                    self.bad(I, 'shutdown', 'the listener is stopped before the directory is told', st)
                else:
                    self.ok(I, 'shutdown', (I.fn.name, I.line))
                st.cl = c.set(shut=True)
            return 0
        if name in ('conn_close', 'conn_free', 'conn_drop'):
            return 0
        return None

    def on_store(self, eng, st, I, p, v, size):
        if p.tag != ('proxy_priv', 'usable_clients'):
            return
        c = st.cl
        if v == 0:
            if st.frames[0].fn.name not in ('proxy_open', 'proxy_init') and c.get('held') != 2:
                self.bad(I, 'announce', 'the number of usable slots is cleared without exclusive access', st)
            st.cl = c.set(set=0, told=None)
            self.ok(I, 'announce', (I.fn.name, 'clear'))
            return
        full = tuple(range(self.n))
        if c.get('held') != 2:
            self.bad(I, 'announce', 'the number of usable slots is set without exclusive access', st)
        elif c.get('conns') != full:
            self.bad(I, 'announce', 'slots become usable before all of them have been started', st)
        elif c.get('workers') != full:
            self.bad(I, 'announce', 'slots become usable before all client workers have been started', st)
        elif v != self.n:
            self.bad(I, 'announce', 'the number of usable slots is not the number of slots', st)
        elif not c.get('reg'):
            self.bad(I, 'announce', 'slots become usable before the directory registration has been started', st)
        else:
            self.ok(I, 'announce', (I.fn.name, self.n))
        st.cl = c.set(set=v, told=None)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c = st.cl
        nm = st.frames[0].fn.name
        if c.get('set') is not None and nm not in ('proxy_open', 'proxy_init') and c.get('told') != c.get('set'):
            self.bad(I, 'told', 'the directory is not told that the number of usable slots changed', st)
        elif c.get('set') is not None:
            self.ok(I, 'told', (nm, I.line))
        started = bool(c.get('conns') or c.get('workers'))
        full = tuple(range(self.n))
        if self.kind == 'start':
            ng = isneg(eng, st, v)
            if ng is None:
                self.bad(I, 'announce', 'whether the service was started is not told', st)
            elif ng is False and c.get('set') in (None, 0) and self.n:
                self.bad(I, 'announce', 'the service is started without any slot becoming usable', st)
            elif ng is True and c.get('set') not in (None, 0):
                self.bad(I, 'announce', 'slots stay usable although starting the service failed', st)
            if ng is True:
                if c.get('workers'):
                    self.bad(I, 'undo', 'starting fails leaving client workers running', st)
                elif c.get('conns'):
                    self.bad(I, 'undo', 'starting fails leaving slots running', st)
                elif c.get('reg'):
                    self.bad(I, 'undo', 'starting fails leaving the directory registration running', st)
                else:
                    self.ok(I, 'undo', (nm, self.n))
            elif ng is False and c.get('failed'):
                self.bad(I, 'announce', 'the service is reported as started although a step failed', st)
        if self.kind == 'shutdown':
            if c.get('set') != 0 or not c.get('shut'):
                self.bad(I, 'shutdown', 'shutting down leaves the service able to accept', st)
            else:
                self.ok(I, 'shutdown', (nm, I.line))


def starting(ctx, want):
    P = ctx.prog
    stop = [g.name for g in P.allf if g.boundary]
    for f in entries(P, ('proxy',)):
        fns, names = reach(P, f, stop=stop)
        kind = None
        if 'proxy_conn_start' in names:
            kind = 'start'
        elif 'conn_shutdown' in names:
            kind = 'shutdown'
        elif not sets_usable(P, fns) or f.name in ('proxy_open', 'proxy_init'):
            continue
        for n in (1, 2, 3):
            s = Start(n, want)
            s.kind = kind
            ctx.run(s, f, unroll=8, setup=s.setup)


def sets_usable(P, fns):
    off = P.off('proxy_priv', 'usable_clients')
    for f in fns:
        for b in f.blocks:
            geps = {i.id for i in b.insts if i.op == 'gep' and i.x[2] and i.x[2][-1][0] == 'proxy_priv' and i.x[2][-1][1] == off}
            if any(i.op == 'store' and i.args[1][0] == 'v' and i.args[1][1] in geps for i in b.insts):
                return True
    return False


# ---------------------------------------------------------------------------------------------- telling the directory
class Count(Pools):
    """what the proxy reports: usable slots and slots in use"""
    def __init__(self, want):
        Pools.__init__(self, want, 'count')

    def start(self, eng, st, fn):
        b = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv'))
        eng.store(st, lv(eng, b, 'proxy_priv.num_clients'), 4, lin(atom(('num',), 1, 65536)))
        return Pools.start(self, eng, st, fn).set(count=None, total=None, mine='w', told=0)

    def locked(self, eng, st, I, p, mode):
        r = Pools.locked(self, eng, st, I, p, mode)
        if p.tag == ('proxy_priv', 'idle_workers_mutex'):
            for v, s in r:
                s.cl = s.cl.set(count=len(s.cl.get('idle')))
        elif p.tag == ('proxy_priv', 'usable_clients_mutex'):
            b = Ptr(p.b, add(p.o, -eng.prog.off(*p.tag)))
            st.cl = st.cl.set(total=eng.load(st, lv(eng, b, 'proxy_priv.usable_clients'), ity(32)))
        return r

    def workers_end(self, eng, st, I, base):
        pass

    def c_registration_service_update(self, eng, st, I, args):
        c = st.cl
        num = lin(atom(('num',)))
        if c.get('count') is None or c.get('total') is None:
            self.bad(I, 'figures', 'the directory is told figures that were not read under their locks', st)
            return 0
        exp = add(num, -c.get('count'))
        for a, e, w in ((args[1], exp, 'slots in use'), (args[2], c.get('total'), 'usable slots')):
            if eng.decide(st, 'eq', a, e) is True or self.wide(a) == e:
                self.ok(I, 'figures', (w, c.get('count')))
            else:
                self.bad(I, 'figures', 'the directory is told a wrong number of %s' % w, st)
        st.cl = c.set(told=c.get('told') + 1)
        return 0

    def wide(self, a):
        while isinstance(a, Lin) and len(a.t) == 1 and a.k == 0 and adesc(a.t[0][0])[0] in ('zx', 'zxl'):
            d = adesc(a.t[0][0])
            a = lin(d[2]) if d[0] == 'zx' else d[2]
        return a

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        if st.cl.get('told') != 1:
            self.bad(I, 'figures', 'the directory is told %d times by one update' % st.cl.get('told'), st)
        else:
            self.ok(I, 'figures', (I.fn.name, 'once'))


class Status(DClient):
    """what the registration makes of it"""
    def start(self, eng, st, fn):
        for a in st.frames[0].args[1:3]:
            eng.assume(st, 'sge', a, 0)
            eng.assume(st, 'sle', a, (1 << 31) - 1)
        return D(held=0, woken=None, done=False)

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in LOCK:
            p = eng.as_ptr(args[0])
            if p.tag == ('registration_service_priv', 'mutex'):
                b = Ptr(p.b, add(p.o, -eng.prog.off(*p.tag)))
                out = []
                for k, v in sorted(eng.prog.enums.items()):
                    if k.startswith('REGISTRATION_STATUS_'):
                        s = st.copy()
                        eng.store(s, lv(eng, b, 'registration_service_priv.status'), 4, v)
                        for f in ('slots_used', 'slots_total'):
                            eng.store(s, lv(eng, b, 'registration_service_priv.' + f), 8, lin(atom(('old', f))))
                        s.cl = c.set(held=2, was=k[20:])
                        out.append((0, s))
                return out
            return 0
        if name in UNLOCK:
            p = eng.as_ptr(args[0])
            if p.tag == ('registration_service_priv', 'mutex'):
                b = Ptr(p.b, add(p.o, -eng.prog.off(*p.tag)))
                self.compare(eng, st, I, b)
                st.cl = st.cl.set(held=0, done=True)
            return 0
        if name == 'worker_wake':
            st.cl = c.set(woken=bool(c.get('held')))
            return eng.models[name](eng, st, I, args)
        return None

    def compare(self, eng, st, I, b):
        c = st.cl
        used, total = st.frames[0].args[1:3]
        en = {k[20:]: v for k, v in eng.prog.enums.items() if k.startswith('REGISTRATION_STATUS_')}
        s = eng.load(st, lv(eng, b, 'registration_service_priv.status'), ity(32))
        u = eng.load(st, lv(eng, b, 'registration_service_priv.slots_used'), ity(64))
        t = eng.load(st, lv(eng, b, 'registration_service_priv.slots_total'), ity(64))
        if c.get('was') == 'OFF':
            if s != en['OFF']:
                self.bad(I, 'status', 'the service reports itself as available after it signed off', st)
            else:
                self.ok(I, 'status', 'off')
            return
        full = eng.decide(st, 'sge', used, total)
        if s not in (en['BUSY'], en['READY']):
            self.bad(I, 'status', 'an update leaves the status at something other than ready or busy', st)
        elif full is None or (s == en['BUSY']) != full:
            self.bad(I, 'status', 'the service is reported %s although %s' % (
                'busy' if s == en['BUSY'] else 'ready', 'the slots in use were not compared with the usable ones' if full is None else
                'slots are free' if not full else 'all usable slots are in use'), st)
        else:
            self.ok(I, 'status', (c.get('was'), s))
        if u != used or t != total:
            self.bad(I, 'status', 'the reported numbers of slots are not those of the update', st)
        else:
            self.ok(I, 'status', (c.get('was'), 'figures'))

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c = st.cl
        if not c.get('done'):
            self.bad(I, 'status', 'an update is dropped', st)
        elif c.get('was') != 'OFF' and c.get('woken') is None:
            self.bad(I, 'status', 'an update does not trigger a report', st)
        else:
            self.ok(I, 'status', (I.fn.name, c.get('was'), 'report'))


def telling(ctx, want):
    P = ctx.prog
    stop = [g.name for g in P.allf if g.boundary]
    for f in entries(P, ('proxy',)):
        fns, names = reach(P, f, stop=stop)
        if 'registration_service_update' in names:
            ctx.run(Count(want), f, unroll=8)
    f = P.fn('registration_service_update')
    ctx.run(Status(), f, unroll=4)
