"""Forwarding slots: what the relays and the message processing do with client, peers and locks.  Used by F01 to F05.
Wire layout of a proxy message: type (1 byte), address (4), size (4), then size bytes of payload."""
from .common import *
from . import models as M
from . import slots

TCP_OPEN, TCP_DATA, TCP_CLOSE, TCP_STATUS, UDP_DATA, UDP_CONTROL = 1, 2, 3, 4, 5, 6
HDR = 9
ENDS = ('conn_control', 'conn_data', 'conn_tcp')
WORKERS = {'conn_control': 'worker_control', 'conn_data': 'worker_data', 'conn_tcp': 'worker_tcp'}
LABEL = {'conn_control': UDP_CONTROL, 'conn_data': UDP_DATA, 'conn_tcp': TCP_DATA}
PORT = {'conn_control': 5199, 'conn_data': 5198}
LOST = (-104, -4, -107, -32)          # connection reset, interrupted, not connected, broken pipe
S = 'proxy_conn_priv'
NAME = {1: 'TCP open', 2: 'TCP data', 3: 'TCP close', 4: 'TCP status', 5: 'UDP data', 6: 'UDP control'}


def u8(eng, st, v):
    return eng.zx(st, v, 8)


def member(eng, st, p):
    """name of the slot's member p points to; 'client' for the client connection"""
    if not isinstance(p, Ptr):
        return None
    if p.tag is not None and p.tag[0] == S:
        return p.tag[1]
    d = adesc(p.b)
    if p.o == 0 and d[0] == 'init' and d[2] == eng.prog.off(S, 'conn_client') and d[3] == 8:
        return 'client'
    f = eng.prog.structs[S]
    if isinstance(p.o, int) and p.o in f and p.tag is None:
        return f[p.o][0]
    return None


class Relay(DClient):
    """typestate keys: send (transmission lock held), rx (bytes received and not yet passed on), type/addr/size (header
    of the client's message), log (what was done, in order)"""
    def __init__(self, want, mode):
        self.want, self.mode = want, mode

    def bad(self, I, rule, msg, st=None, inst=None):
        if rule in self.want:
            DClient.bad(self, I, rule, msg, st, inst)

    def ok(self, I, rule, inst=None):
        if rule in self.want:
            DClient.ok(self, I, rule, inst)

    def start(self, eng, st, fn):
        gset(eng, st, 'taken', 0)
        return D(send=0, rx=None, hdr=None, log=(), closed=(), idle=(), dropped=False, tcpdead=False, told=0, err=None,
                 cerr=None, n=0, over=None)

    def initial(self, eng, st, p, ty, desc):
        """the endpoints have the kind they are set up with (F04, rule source)"""
        if p.tag == ('conn_handle', 'type') and isinstance(p.o, int) and ty.kind == 'int':
            e = eng.prog.structs[S].get(p.o - eng.prog.off('conn_handle', 'type'))
            if e and e[0] in ENDS:
                return eng.prog.enums['CONN_TYPE_TCP' if e[0] == 'conn_tcp' else 'CONN_TYPE_UDP']
        return DClient.initial(self, eng, st, p, ty, desc)

    # ------------------------------------------------------------ helpers
    def note(self, st, e):
        l = st.cl.get('log')
        if e not in l:
            l = l + (e,)
        st.cl = st.cl.set(log=l[-12:])

    def hit(self, eng, st, p, n, I, what):
        """bytes waiting to be passed on must not change"""
        rx = st.cl.get('rx')
        if rx is None or p.b != rx[1]:
            return
        if eng.decide(st, 'slt', p.o, add(rx[2], rx[3])) is False:
            return
        if n is not None and eng.decide(st, 'sle', add(p.o, n), rx[2]) is True:
            return
        self.bad(I, 'content', 'received bytes are overwritten before they are passed on', st)

    def on_store(self, eng, st, I, p, v, size):
        self.hit(eng, st, p, size, I, 'store')
        if member(eng, st, p) == 'conn_client' and size == 8:
            self.set_client(eng, st, I, v)

    def on_write(self, eng, st, I, p, n, what):
        self.hit(eng, st, p, n, I, what)

    def set_client(self, eng, st, I, v):
        pass

    def chunk(self, eng, st, I, end, p, n, r):
        eng.blob(st, p, n, 'data', atom(('rxdata', end)))
        st.cl = st.cl.set(rx=(end, p.b, p.o, r))

    def fail(self, eng, s, I, tag='err'):
        e = eng.fresh(s, (tag,) + eng.site(s, I), -4095, -1)
        return lin(e)

    def lost_chunk(self, eng, st, I, what):
        rx = st.cl.get('rx')
        if rx is None:
            return
        if rx[0] == 'client' and st.cl.get('tcpdead') and self.typ(eng, st) == TCP_DATA:
            return
        self.bad(I, 'forward' if rx[0] == 'client' else 'forward2', 'bytes received from %s are never passed on: %s' % (
            'the client' if rx[0] == 'client' else rx[0], what), st)

    def typ(self, eng, st):
        h = st.cl.get('hdr')
        if h is None:
            return None
        lo, hi, _ = eng.rng(st, u8(eng, st, h[0]))
        if lo == hi:
            return lo
        lo, hi, _ = eng.rng(st, h[0])
        return lo & 255 if lo == hi else None

    # ------------------------------------------------------------ calls
    def on_call(self, eng, st, I, name, args):
        c = st.cl
        a0 = eng.as_ptr(args[0]) if args and isinstance(args[0], Ptr) else None
        m = member(eng, st, a0) if a0 is not None else None
        if name in ('mutex_lock', 'mutex_lock_shared'):
            if m == 'mutex_client_send':
                st.cl = c.set(send=2 if name == 'mutex_lock' else 1)
            if m == 'mutex_client':
                st.cl = c.set(cl=2 if name == 'mutex_lock' else 1)
            return 0
        if name in ('mutex_unlock', 'mutex_unlock_shared'):
            if m == 'mutex_client_send':
                st.cl = c.set(send=0)
            if m == 'mutex_client':
                st.cl = c.set(cl=0)
            return 0
        h = getattr(self, 'c_' + name, None) if isinstance(name, str) else None
        if h is not None:
            return h(eng, st, I, args, m)
        return None

    def c_conn_recv(self, eng, st, I, args, m):
        c = st.cl
        p, n = eng.as_ptr(args[1]), args[2]
        if m != 'client':
            self.bad(I, 'header' if c.get('hdr') is None else 'forward', 'a message is read from somewhere else than the client', st)
            return None
        self.lost_chunk(eng, st, I, 'more is read before they were sent')
        s2 = st.copy()
        e = self.fail(eng, s2, I)
        s2.cl = s2.cl.set(rx=None, err=e)
        if c.get('hdr') is None:
            if n != HDR:
                self.bad(I, 'header', 'the header read is not %d bytes long' % HDR, st)
            else:
                self.ok(I, 'header')
            eng.blob(st, p, HDR, 'data', atom(('hdr',)))
            q = lambda o, b: eng.load(st, Ptr(p.b, add(p.o, o)), ity(b))
            st.cl = st.cl.set(hdr=(q(0, 8), q(1, 32), eng.zx(st, q(5, 32), 32)), hp=Ptr(p.b, p.o))
            return [(n, st), (e, s2)]
        sz = c.get('hdr')[2]
        tk = gget(eng, st, 'taken')
        if eng.decide(st, 'sgt', add(tk, n), sz) is not False and eng.decide(st, 'sle', add(tk, n), sz) is not True:
            self.bad(I, 'payload', 'more bytes may be taken from the client than the message announced', st)
        else:
            self.ok(I, 'payload')
        gset(eng, st, 'taken', add(tk, n))
        self.chunk(eng, st, I, 'client', p, n, n)
        return [(n, st), (e, s2)]

    def c_conn_recv_any(self, eng, st, I, args, m):
        p, n = eng.as_ptr(args[1]), args[2]
        self.lost_chunk(eng, st, I, 'more is received before they were sent')
        if m not in ENDS:
            self.bad(I, 'label', 'the relay receives from something that is not one of the slot\'s endpoints', st)
            return None
        self.ends.add(m)
        if st.cl.get('err') is not None or st.cl.get('over') == 'tcp':
            self.bad(I, 'stops', 'the relay goes on receiving although %s' % (
                'the stream ended' if st.cl.get('err') is None else 'the client connection failed' if st.cl.get('err')[0] == 'client' else
                'its endpoint failed'), st)
            return []
        self.ok(I, 'stops')
        s2 = st.copy()
        e = self.fail(eng, s2, I)
        s2.cl = s2.cl.set(rx=None, err=(m, e))
        s3 = st.copy()                      # the end of a stream or an empty datagram
        s3.cl = s3.cl.set(rx=None, over='tcp' if m == 'conn_tcp' else 'empty')
        st.cl = st.cl.set(over=None)
        r = lin(eng.fresh(st, ('cnt',) + eng.site(st, I), 1, (1 << 31) - 1))
        eng.assume(st, 'sle', r, n)
        self.chunk(eng, st, I, m, p, n, r)
        if isinstance(args[3], Ptr):
            a = lin(eng.fresh(st, ('from',) + eng.site(st, I), -(1 << 31), (1 << 31) - 1))
            eng.store(st, args[3], 4, a)
            st.cl = st.cl.set(frm=a)
        else:
            st.cl = st.cl.set(frm=None)
        if isinstance(args[4], Ptr):
            eng.store(st, args[4], 2, lin(eng.fresh(st, ('fport',) + eng.site(st, I), 0, 65535)))
        return [(r, st), (e, s2), (0, s3)]

    def c_conn_send(self, eng, st, I, args, m):
        if m == 'client':
            return self.to_client(eng, st, I, args)
        if m == 'conn_tcp':
            return self.to_peer(eng, st, I, m, args[1], args[2])
        self.bad(I, 'label', 'data is sent on a connection that is neither the client nor the slot\'s TCP endpoint', st)
        return None

    def c_conn_send_to(self, eng, st, I, args, m):
        c = st.cl
        if m not in PORT:
            self.bad(I, 'effect', 'a datagram is sent on something that is not one of the slot\'s datagram endpoints', st)
            return None
        h = c.get('hdr')
        if h is None or eng.decide(st, 'eq', args[3], h[1]) is not True:
            self.bad(I, 'addressed', 'the datagram is not sent to the address in the message header', st)
        elif eng.zx(st, args[4], 16) != PORT[m]:
            self.bad(I, 'addressed', 'the datagram is not sent to port %d' % PORT[m], st)
        else:
            self.ok(I, 'addressed', (m,))
        return self.to_peer(eng, st, I, m, args[1], args[2])

    def to_peer(self, eng, st, I, m, p, n):
        c = st.cl
        p = eng.as_ptr(p)
        rx = c.get('rx')
        t = self.typ(eng, st)
        if t is None or LABEL[m] != t:
            self.bad(I, 'effect', 'a %s message leads to a transmission on %s' % (NAME.get(t, 'not identified'), m), st)
        else:
            self.ok(I, 'effect', (t, m))
        if rx is None or rx[0] != 'client':
            self.bad(I, 'forward', 'something is sent to the peer that the client did not just send', st)
        elif p.b != rx[1] or eng.decide(st, 'eq', p.o, rx[2]) is not True or eng.decide(st, 'eq', n, rx[3]) is not True:
            self.bad(I, 'forward', 'what is sent to the peer is not exactly what was received from the client', st)
        else:
            self.ok(I, 'forward', (m,))
        if c.get('tcpdead'):
            self.bad(I, 'forward', 'sending to the TCP peer goes on after a failure: part of the message is lost in between', st)
        s2 = st.copy()
        st.cl = st.cl.set(rx=None)
        s2.cl = s2.cl.set(rx=None, tcpdead=m == 'conn_tcp')
        return [(0, st), (self.fail(eng, s2, I, 'perr'), s2)]

    def to_client(self, eng, st, I, args):
        c = st.cl
        p, n = eng.as_ptr(args[1]), args[2]
        if c.get('send') != 2:
            self.bad(I, 'exclusive', 'a message is sent to the client without the transmission lock: messages can interleave', st)
        else:
            self.ok(I, 'exclusive')
        q = lambda o, b: eng.load(st, Ptr(p.b, add(p.o, o)), ity(b))
        t, ad, sz = u8(eng, st, q(0, 8)), q(1, 32), eng.zx(st, q(5, 32), 32)
        if eng.decide(st, 'eq', n, add(HDR, sz)) is not True:
            self.bad(I, 'whole', 'the bytes sent are not the header and exactly the payload announced in it', st)
        else:
            self.ok(I, 'whole')
        rx = c.get('rx')
        if isinstance(t, int) and t in (TCP_DATA, UDP_DATA, UDP_CONTROL):
            if rx is None or rx[0] == 'client':
                self.bad(I, 'forward2', 'a data message is sent that carries nothing newly received', st)
            elif t != LABEL[rx[0]]:
                self.bad(I, 'label', 'what was received on %s is labelled %s' % (rx[0], NAME[t]), st)
            elif p.b != rx[1] or eng.decide(st, 'eq', add(p.o, HDR), rx[2]) is not True or eng.decide(st, 'eq', sz, rx[3]) is not True:
                self.bad(I, 'forward2', 'the payload sent is not exactly what was received', st)
            elif rx[0] != 'conn_tcp' and (c.get('frm') is None or eng.decide(st, 'eq', ad, c.get('frm')) is not True):
                self.bad(I, 'peer', 'the message does not carry the address of the peer it came from', st)
            else:
                self.ok(I, 'label', (t,))
                self.ok(I, 'forward2', (t,))
            st.cl = st.cl.set(rx=None)
        elif t == TCP_CLOSE:
            if sz != 0:
                self.bad(I, 'label', 'a TCP close message carries data', st)
            else:
                self.ok(I, 'label', (t, I.fn.name))
            st.cl = st.cl.set(told=min(c.get('told') + 1, 2))
            self.note(st, 'tell-close')
        elif t == TCP_STATUS:
            if sz != 4:
                self.bad(I, 'label', 'a TCP status message does not carry four bytes', st)
            else:
                self.ok(I, 'label', (t, I.fn.name))
            v = q(9, 32)
            self.status(eng, st, I, v)
            st.cl = st.cl.set(n=min(c.get('n') + 1, 2))
        else:
            self.bad(I, 'label', 'the message type sent to the client is not decided (%s)' % (t if isinstance(t, int) else 'unknown'), st)
        s2 = st.copy()
        e = self.fail(eng, s2, I, 'cerr')
        s2.cl = s2.cl.set(rx=None, cerr=e)
        if t != TCP_CLOSE:                  # the notice may fail: the connection is gone then
            s2.cl = s2.cl.set(err=('client', e))
        return [(0, st), (e, s2)]

    def status(self, eng, st, I, v):
        r = st.cl.get('opened')
        z = eng.decide(st, 'eq', v, 0)
        if r is None:
            self.bad(I, 'answer', 'a TCP status is sent although no connection was attempted', st)
        elif z is None or z != (r == 'ok'):
            self.bad(I, 'answer', 'the status sent does not tell whether the connection was opened', st)
        elif r == 'connected':
            self.bad(I, 'answer', 'the status is sent before the relay was started', st)
        else:
            self.ok(I, 'answer', (r,))

    # ------------------------------------------------------------ connections and workers
    def c_conn_close(self, eng, st, I, args, m):
        c = st.cl
        if m is None:
            return 0
        if self.mode == 'process' and m in ENDS:
            t = self.typ(eng, st)
            if m != 'conn_tcp' or t not in (TCP_OPEN, TCP_CLOSE) and not (t == TCP_DATA and c.get('tcpdead')):
                self.bad(I, 'effect', 'a %s message closes %s' % (NAME.get(t, 'not identified'), m), st)
            else:
                self.ok(I, 'effect', (t, 'close'))
        st.cl = st.cl.set(closed=tuple(sorted(set(c.get('closed')) | {m})), idle=tuple(x for x in c.get('idle') if x != m))
        if m == 'conn_tcp' and c.get('opened') in ('connected', 'failed'):
            st.cl = st.cl.set(opened='failed' if c.get('opened') == 'failed' or c.get('wfail') else c.get('opened'))
        return 0

    def c_conn_drop(self, eng, st, I, args, m):
        if m == 'client':
            st.cl = st.cl.set(dropped=True)
        return 0

    def c_proxy_conn_drop(self, eng, st, I, args, m):
        st.cl = st.cl.set(dropped=True)
        return 0

    def c_worker_wait_idle(self, eng, st, I, args, m):
        c = st.cl
        for e, w in WORKERS.items():
            if w == m and e in c.get('closed'):
                st.cl = st.cl.set(idle=tuple(sorted(set(c.get('idle')) | {e})))
        return None

    def c_conn_connect(self, eng, st, I, args, m):
        c = st.cl
        t = self.typ(eng, st)
        if m != 'conn_tcp' or t != TCP_OPEN:
            self.bad(I, 'effect', 'a %s message opens %s' % (NAME.get(t, 'not identified'), m), st)
            return None
        self.ok(I, 'effect', (t, 'connect'))
        if 'conn_tcp' not in c.get('closed'):
            self.bad(I, 'reopen', 'a previous TCP connection is not closed before the new one is opened', st)
        elif 'conn_tcp' not in c.get('idle'):
            self.bad(I, 'reopen', 'the previous TCP relay may still run when the new connection is opened', st)
        else:
            self.ok(I, 'reopen')
        if strkey(eng, st, eng.as_ptr(args[2])) != b'5200':
            self.bad(I, 'target', 'the connection is not made to the station port 5200', st)
        elif not self.dotted(eng, st, args[1]):
            self.bad(I, 'target', 'the connection is not made to the address in the message header', st)
        else:
            self.ok(I, 'target')
        s2 = st.copy()
        st.cl = st.cl.set(opened='connected', closed=tuple(x for x in c.get('closed') if x != m), tries=min(c.get('tries', 0) + 1, 2))
        s2.cl = s2.cl.set(opened='failed', tries=min(c.get('tries', 0) + 1, 2))
        return [(0, st), (self.fail(eng, s2, I), s2)]

    def dotted(self, eng, st, p):
        p = eng.as_ptr(p)
        t = st.cl.get('text')
        return t is not None and t[0] == p.b and t[1] == p.o

    def c_snprintf(self, eng, st, I, args, m):
        r = self.fmt(eng, st, I, args[0], args[2], args[3:])
        if eng.decide(st, 'sge', args[1], 16) is not True:      # may be cut short
            st.cl = st.cl.set(text=None)
        return r

    def c_sprintf(self, eng, st, I, args, m):
        return self.fmt(eng, st, I, args[0], args[1], args[2:])

    def fmt(self, eng, st, I, d, f, rest):
        d = eng.as_ptr(d)
        k = strkey(eng, st, eng.as_ptr(f))
        h = st.cl.get('hdr')
        good = False
        if h is not None and k is not None:
            import re
            pat = re.sub(rb'%(hh|h|l|z)?[ud]', b'%', k)
            hp = st.cl.get('hp')
            want = [u8(eng, st, lin(atom(('blob', atom(('hdr',)), 1 + i), -128, 127))) for i in range(4)]
            good = pat == b'%.%.%.%' and len(rest) == 4 and all(eng.decide(st, 'eq', a, b) is True for a, b in zip(rest, want))
        eng.havoc(st, d.b, eng.site(st, I))
        st.cl = st.cl.set(text=(d.b, d.o) if good else None)
        if good:
            return lin(eng.fresh(st, ('len',) + eng.site(st, I), 7, 15))
        return lin(eng.fresh(st, ('len',) + eng.site(st, I), 0, 4095))

    def c_inet_ntop(self, eng, st, I, args, m):
        d = eng.as_ptr(args[2])
        h = st.cl.get('hdr')
        src = eng.load(st, eng.as_ptr(args[1]), ity(32)) if isinstance(args[1], Ptr) else None
        good = args[0] == 2 and h is not None and src is not None and eng.decide(st, 'eq', src, h[1]) is True
        eng.havoc(st, d.b, eng.site(st, I))
        st.cl = st.cl.set(text=(d.b, d.o) if good else None)
        return d

    def c_worker_wake(self, eng, st, I, args, m):
        c = st.cl
        s2 = st.copy()
        if m == 'worker_tcp':
            if c.get('opened') != 'connected':
                self.bad(I, 'relay', 'the TCP relay is started although the connection was not opened', st)
            else:
                self.ok(I, 'relay')
            st.cl = c.set(opened='ok', idle=())
            s2.cl = c.set(opened='failed', wfail=True)
        return [(0, st), (self.fail(eng, s2, I), s2)]

    ends = set()

    # ------------------------------------------------------------ outcomes
    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        getattr(self, 'r_' + self.mode)(eng, st, I, v)

    def r_process(self, eng, st, I, v):
        c = st.cl
        neg = isneg(eng, st, v)
        h = c.get('hdr')
        t = self.typ(eng, st)
        if h is None:
            if neg is not True:
                self.bad(I, 'unknown', 'the session goes on although no header was read', st)
            else:
                self.ok(I, 'unknown', 'no header')
            return
        if c.get('err') is not None and neg is not True:
            self.bad(I, 'client-error', 'the session goes on although the client connection failed', st)
            return
        if neg is True and t in (TCP_OPEN, TCP_DATA, TCP_CLOSE, UDP_DATA, UDP_CONTROL) and c.get('err') is None:
            self.bad(I, 'ended', 'a %s message ends the session although the client connection did not fail' % NAME[t], st)
            return
        if neg is True:
            if c.get('err') is None and t is None and self.maybe(eng, st):
                self.bad(I, 'ended', 'a valid message may be treated as invalid', st)
            self.ok(I, 'unknown', (t, 'refused'))
            return
        if t not in (TCP_OPEN, TCP_DATA, TCP_CLOSE, UDP_DATA, UDP_CONTROL):
            self.bad(I, 'unknown', 'a message of %s is accepted' % ('type %d' % t if t is not None else 'unknown type'), st)
            return
        self.ok(I, 'unknown', (t, 'accepted'))
        # complete?
        if t in (TCP_DATA, UDP_DATA, UDP_CONTROL):
            sz = h[2]
            if eng.decide(st, 'eq', gget(eng, st, 'taken'), sz) is not True:
                self.bad(I, 'payload', 'not exactly the announced number of bytes is taken from the client (%s)' % NAME[t], st)
            else:
                self.ok(I, 'payload', t)
            self.lost_chunk(eng, st, I, 'the message is finished before they were sent')
            if c.get('tcpdead'):
                if 'conn_tcp' not in c.get('closed') or c.get('told') != 1:
                    self.bad(I, 'told', 'the client is not told that the TCP connection closed although its peer cannot be written to', st)
                else:
                    self.ok(I, 'told')
            elif c.get('told'):
                self.bad(I, 'told', 'the client is told that the TCP connection closed although it did not', st)
        elif gget(eng, st, 'taken') != 0:
            self.bad(I, 'payload', 'payload is taken for a message that has none', st)
        if t == TCP_CLOSE:
            if 'conn_tcp' not in c.get('closed'):
                self.bad(I, 'effect', 'a TCP close message does not close the TCP connection', st)
            else:
                self.ok(I, 'effect', (t, 'done'))
        if t == TCP_OPEN:
            if c.get('tries') != 1:
                self.bad(I, 'effect', 'a TCP open message does not lead to one connection attempt', st)
            elif c.get('n') != 1:
                self.bad(I, 'answer', 'a TCP open message is answered with %s status messages' % ('several' if c.get('n') else 'no'), st)
            elif c.get('wfail') and 'conn_tcp' not in c.get('closed'):
                self.bad(I, 'relay', 'the connection stays open although its relay could not be started', st)
            else:
                self.ok(I, 'answer', 'once')
        elif c.get('n'):
            self.bad(I, 'answer', 'a status message is sent without a TCP open message', st)

    def maybe(self, eng, st):
        h = st.cl.get('hdr')
        a = next(iter(a for a, _ in h[0].t)) if isinstance(h[0], Lin) else None
        if a is None:
            return False
        v = [x - 256 if x > 127 else x for x in (1, 2, 3, 5, 6)]
        return bool(feasible(eng, st, a, v))

    def r_forward(self, eng, st, I, v):
        c = st.cl
        self.lost_chunk(eng, st, I, 'the relay ends before they were sent')
        end = self.endpoint
        err = c.get('err')
        if err is None and c.get('over') is None and c.get('cerr') is None:
            self.bad(I, 'alive', 'the relay ends although neither its endpoint nor the client connection failed', st)
        else:
            self.ok(I, 'alive', (end, I.line))
        if end is not None and end not in c.get('closed'):
            self.bad(I, 'own-endpoint', 'the relay ends without closing its endpoint', st)
        else:
            self.ok(I, 'own-endpoint', (end, I.line))
        if err is not None and not c.get('dropped'):
            where, e = err
            if where == 'client' or end != 'conn_tcp':
                a = next(iter(a for a, _ in e.t))
                lo, hi, ne = eng.rng(st, e)
                vals = [lo] if lo == hi else [x for x in feasible(eng, st, a, [-1, -5, -9, -12, -22, -103, -105, -110, -111, -113] + list(LOST)) if x not in LOST]
                if lo == hi and lo not in LOST or lo != hi and vals:
                    self.bad(I, 'unexpected', 'the client is not disconnected after an unexpected error of %s' % (
                        'the client connection' if where == 'client' else 'the endpoint'), st)
                else:
                    self.ok(I, 'unexpected', (where, lo))
        elif err is not None:
            self.ok(I, 'unexpected', (err[0], 'dropped'))
        if end == 'conn_tcp':
            if not (c.get('told') or c.get('cerr') is not None):
                self.bad(I, 'announced', 'the TCP relay ends without telling the client', st)
            else:
                self.ok(I, 'announced', (I.line, c.get('told')))

    endpoint = None


def forwarders(P):
    out = []
    for f in func_of_callbacks(P):
        if f.module == 'proxy_conn':
            out.append(f)
    if not out:
        raise ir.AnalysisError('no relay functions found')
    return out


class Which(DClient):
    """which endpoint a relay function receives from"""
    def start(self, eng, st, fn):
        self.seen = set()
        return D()

    def on_call(self, eng, st, I, name, args):
        if name in ('conn_recv_any', 'conn_recv') and isinstance(args[0], Ptr):
            m = member(eng, st, args[0])
            if m in ENDS:
                self.seen.add(m)
        return None


def endpoint_of(ctx, f):
    w = Which()
    ctx.run(w, f, unroll=3)
    return sorted(w.seen)


class Finish(Relay):
    """the end of a session: when may the slot be marked free"""
    def __init__(self, want, mode='finish'):
        Relay.__init__(self, want, mode)

    def set_client(self, eng, st, I, v):
        c = st.cl
        if null(eng, st, v) is not True:
            st.cl = c.set(taken=True, freed=False)
            return
        if c.get('cl') != 2:
            self.bad(I, 'vacate', 'the slot is marked free without the lock that protects its owner', st)
        elif not c.get('dropped'):
            self.bad(I, 'vacate', 'the slot is marked free before the client was disconnected', st)
        elif set(c.get('closed')) & set(ENDS) != set(ENDS):
            self.bad(I, 'vacate', 'the slot is marked free while %s may be open' % ', '.join(sorted(set(ENDS) - set(c.get('closed')))), st)
        elif set(c.get('idle')) != set(ENDS):
            self.bad(I, 'vacate', 'the slot is marked free before the relay of %s is idle' % ', '.join(sorted(set(ENDS) - set(c.get('idle')))), st)
        else:
            self.ok(I, 'vacate')
        st.cl = c.set(freed=True)

    def c_conn_close(self, eng, st, I, args, m):
        if m in ENDS and not st.cl.get('dropped'):
            self.bad(I, 'order', 'an endpoint is closed before the client is disconnected', st)
        elif m in ENDS:
            self.ok(I, 'order', m)
        return Relay.c_conn_close(self, eng, st, I, args, m)

    def r_finish(self, eng, st, I, v):
        if not st.cl.get('freed'):
            self.bad(I, 'vacate', 'the session ends without the slot being marked free', st)
        else:
            self.ok(I, 'vacate', 'end')

    def r_other(self, eng, st, I, v):
        pass


class Init(DClient):
    """the configuration of a slot's endpoints and relays"""
    def __init__(self, eps, want):
        self.eps, self.want = eps, want

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or isneg(eng, st, v) is not False:
            return
        pc = st.frames[0].args[0]
        priv = eng.as_ptr(fld(eng, st, pc, 'proxy_conn_handle.priv'))
        h = lambda f: fld(eng, st, pc, 'proxy_conn_handle.' + f)
        for e, w in WORKERS.items():
            g = lambda f, b=None: fld(eng, st, priv, '%s.%s.conn_handle.%s' % (S, e, f), b)
            x = lambda f: fld(eng, st, priv, '%s.%s.worker_handle.%s' % (S, w, f))
            if 'source' in self.want:
                if eng.decide(st, 'eq', g('source_addr'), h('source_addr')) is not True:
                    self.bad(I, 'source', '%s does not use the slot\'s own source address' % e, st)
                elif e != 'conn_tcp' and eng.decide(st, 'eq', g('source_port'), h('control_port' if e == 'conn_control' else 'data_port')) is not True:
                    self.bad(I, 'source', '%s does not use the port meant for it' % e, st)
                elif e == 'conn_tcp' and null(eng, st, g('source_port')) is not True:
                    self.bad(I, 'source', 'the TCP endpoint is bound to a port', st)
                else:
                    t = g('type', 32)
                    n = eng.prog.enums['CONN_TYPE_TCP' if e == 'conn_tcp' else 'CONN_TYPE_UDP']
                    if t != n:
                        self.bad(I, 'source', '%s is not of the kind its traffic needs' % e, st)
                    else:
                        self.ok(I, 'source', e)
            if 'binding' in self.want:
                f = x('func_ptr')
                nm = f.f if isinstance(f, Fn) and hasattr(f, 'f') else f
                fn = self.fname(eng, f)
                if self.eps.get(fn) != e or eng.decide(st, 'eq', x('func_ctx'), pc) is not True:
                    self.bad(I, 'binding', '%s does not run the relay of %s for this slot' % (w, e), st)
                else:
                    self.ok(I, 'binding', w)

    def fname(self, eng, f):
        for n, fn in eng.prog.funcs.items():
            if isinstance(f, Fn) and (f == Fn(n)):
                return fn.name
        return None


class Ports(slots.Open):
    """well-known ports of the slots, as the proxy configures them for any number of addresses up to MAXN + 1"""
    def on_return(self, eng, st, I, v):
        pass

    def on_call(self, eng, st, I, name, args):
        if name == 'proxy_conn_init':
            h = eng.as_ptr(args[0])
            for f, want in (('control_port', b'5199'), ('data_port', b'5198')):
                v = fld(eng, st, h, 'proxy_conn_handle.' + f)
                k = strkey(eng, st, v) if isinstance(v, Ptr) else None
                if k != want:
                    self.bad(I, 'ports', 'a slot is set up with %s for its %s instead of %s' % (
                        k.decode() if isinstance(k, bytes) else 'something undecided', f.replace('_', ' '), want.decode()), st)
                else:
                    self.ok(I, 'ports', f)
        return None


def run(ctx, want, modes):
    P = ctx.prog
    want = set(want)
    if 'process' in modes:
        ctx.run(Relay(want, 'process'), P.fn('proxy_conn_process'), unroll=6)
    eps = {}
    if 'forward' in modes:
        for f in forwarders(P):
            e = endpoint_of(ctx, f)
            if len(e) != 1:
                raise ir.AnalysisError('%s receives from %s' % (f.name, e))
            r = Relay(want, 'forward')
            r.endpoint = e[0]
            r.ends = set()
            ctx.run(r, f, unroll=4)
            eps[f.name] = e[0]
    return eps


class Session(DClient):
    """the caller of the message processing"""
    def start(self, eng, st, fn):
        return D(dead=False)

    def on_call(self, eng, st, I, name, args):
        if name == 'proxy_conn_process':
            if st.cl.get('dead'):
                self.bad(I, 'session', 'another message is processed after one failed', st)
            else:
                self.ok(I, 'session')
            s2 = st.copy()
            st.cl = st.cl.set(dead=False)
            s2.cl = s2.cl.set(dead=True)
            r = lin(eng.fresh(st, ('cnt',) + eng.site(st, I), 0, (1 << 31) - 1))
            return [(r, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)), s2)]
        if name == 'proxy_conn_accept':
            s2 = st.copy()
            st.cl = st.cl.set(dead=False)
            return [(0, st), (lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)), s2)]
        return None


def session(ctx):
    n = 0
    for f in func_of_callbacks(ctx.prog):
        if f.module == 'proxy':
            ctx.run(Session(), f, unroll=4)
            n += 1
    if not n:
        raise ir.AnalysisError('no client worker function found')


class From(DClient):
    """conn_recv_any: the address handed out is the sender's"""
    def start(self, eng, st, fn):
        return D(src=None, put=False)

    def on_call(self, eng, st, I, name, args):
        if name == 'recvfrom':
            st.cl = st.cl.set(src=args[4] if isinstance(args[4], Ptr) else None)
        return None

    def on_store(self, eng, st, I, p, v, size):
        a = st.frames[0].args[3]
        if not isinstance(a, Ptr) or p.b != a.b or p.o != a.o:
            return
        src = st.cl.get('src')
        w = eng.load(st, Ptr(src.b, add(src.o, 4)), ity(32)) if src is not None else None
        if size != 4 or w is None or eng.decide(st, 'eq', v, w) is not True:
            self.bad(I, 'sender', 'the address handed out is not the one the datagram came from', st)
        else:
            self.ok(I, 'sender')
            st.cl = st.cl.set(put=True)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or eng.decide(st, 'sgt', v, 0) is False:
            return
        a = st.frames[0].args[3]
        if null(eng, st, a) is not True and not st.cl.get('put'):
            self.bad(I, 'sender', 'the sender\'s address is not handed out', st)


class To(DClient):
    """conn_send_to: the datagram goes to the address and port asked for"""
    def on_call(self, eng, st, I, name, args):
        if name in ('sendto', 'sendmsg', 'send', 'write'):
            a = st.frames[0].args
            good = name == 'sendto' and isinstance(args[4], Ptr)
            if good:
                q = lambda o, b: eng.load(st, Ptr(args[4].b, add(args[4].o, o)), ity(b))
                port = eng.models['htons'](eng, st, I, [a[4]])
                port2 = eng.models['htons'](eng, st, I, [eng.zx(st, a[4], 16)])
                p = q(2, 16)
                good = q(0, 16) == 2 and eng.decide(st, 'eq', q(4, 32), a[3]) is True and any(
                    eng.decide(st, 'eq', x, y) is True for x in (p, eng.zx(st, p, 16)) for y in (port, port2, eng.trunc(st, port, 16) if hasattr(eng, 'trunc') else port))
            if not good:
                self.bad(I, 'receiver', 'the datagram is not sent to the address and port asked for', st)
            else:
                self.ok(I, 'receiver')
        return None
