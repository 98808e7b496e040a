"""A05: the bundled client's login, with a text domain for what is sent."""
from ..common import *
from ..models import strkey
from ..report import Texts
from .. import fmt as F


class Login(Texts):
    def __init__(self):
        pass

    def start(self, eng, st, fn):
        eng.assume(st, 'ne', fld(eng, st, st.frames[0].args[0], 'proxy_client_handle.priv'), 0)
        return D(conn='none', chal=None, nonce=None, resp=None, sent=(), texts=(), whole=True)

    def own(self, eng, st, p):
        priv = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_client_handle.priv'))
        want = lv(eng, priv, 'proxy_client_priv.conn')
        p = eng.as_ptr(p)
        return p.b == want.b and p.o == want.o

    def cfg(self, eng, st, f):
        return fld(eng, st, st.frames[0].args[0], 'proxy_client_handle.' + f)

    def fork(self, eng, st, I, ok, bad):
        s2 = st.copy()
        e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1))
        st.cl, s2.cl = st.cl.set(ok), s2.cl.set(bad)
        return [(0, st), (e, s2)]

    def seglen(self, eng, st, s):
        return 16 if s[0] == 'resp' else Texts.seglen(self, eng, st, s)

    def strseg(self, eng, st, p):
        k = strkey(eng, st, p)
        return Texts.strseg(self, eng, st, p) if not isinstance(k, bytes) else ((('lit', k),) if k else ())

    def password(self, eng, st, v):
        """is v the password to use?"""
        pw = self.cfg(eng, st, 'password')
        z = null(eng, st, pw)
        if z is True:
            return strkey(eng, st, v) == b'PUBLIC' if isinstance(v, Ptr) else False
        return z is False and eng.decide(st, 'eq', v, pw) is True

    def on_store(self, eng, st, I, p, v, size):
        t = self.text(eng, st, p)
        if D(st.cl.get('texts')).get(p.b) is None:
            if size == 1 and p.o == 0 and isinstance(v, int) and v:
                self.put(eng, st, p, (('lit', bytes([v & 255])),))
            return
        if size == 1 and isinstance(v, int) and t is not None and (v or not t):
            if v:
                self.put(eng, st, p, (('lit', bytes([v & 255])),))
        elif not (size == 1 and v == 0 and t == ()):
            st.cl = st.cl.set(texts=tuple(D(st.cl.get('texts')).drop(p.b)))

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name in ('conn_connect', 'conn_recv', 'conn_send', 'conn_send_to', 'conn_recv_any', 'conn_close', 'conn_shutdown', 'conn_drop') and not self.own(eng, st, args[0]):
            self.bad(I, 'connection', 'the login uses another connection than the client\'s', st)
            return None
        if name == 'conn_connect':
            if any(eng.decide(st, 'eq', a, self.cfg(eng, st, f)) is not True for a, f in ((args[1], 'host_addr'), (args[2], 'host_port'))):
                self.bad(I, 'address', 'the client connects to another address than the one asked for', st)
            else:
                self.ok(I, 'address')
            return self.fork(eng, st, I, {'conn': 'open'}, {'conn': 'failed'})
        if name in ('conn_close', 'conn_free', 'conn_drop'):
            st.cl = c.set(conn='closed')
            return 0
        if name == 'conn_recv':
            b = eng.as_ptr(args[1])
            if c.get('conn') != 'open' or c.get('sent') or args[2] != 8:
                self.bad(I, 'challenge', 'what is received first is not exactly the eight digits of the challenge', st)
            else:
                self.ok(I, 'challenge')
            src = eng.fresh(st, ('challenge',) + eng.site(st, I))
            eng.blob(st, b, args[2], 'data', src)
            bytes8 = tuple(eng.load(st, Ptr(b.b, add(b.o, i)), ity(8)) for i in range(8))
            r = self.fork(eng, st, I, {'chal': bytes8}, {})
            return [(lin(eng.fresh(st, ('n',) + eng.site(st, I), 0, 8)), r[0][1]), r[1]]
        if name == 'hex32_to_digest':
            b = eng.as_ptr(args[0])
            got = tuple(eng.load(st, Ptr(b.b, add(b.o, i)), ity(8)) for i in range(8))
            v = lin(eng.fresh(st, ('value',) + eng.site(st, I), -(1 << 31), (1 << 31) - 1))
            if c.get('chal') == got:
                st.cl = c.set(nonce=v)
                self.ok(I, 'convert')
            else:
                self.bad(I, 'challenge', 'the value converted is not the challenge received', st)
            return v
        if name == 'get_password_response':
            if c.get('nonce') is None or eng.decide(st, 'eq', args[0], c.get('nonce')) is not True:
                self.bad(I, 'response', 'the response is not computed from the challenge', st)
            elif not self.password(eng, st, args[1]):
                self.bad(I, 'response', 'the response is not computed from the password given, or PUBLIC if there is none', st)
            else:
                self.ok(I, 'response', null(eng, st, self.cfg(eng, st, 'password')))
            b = eng.as_ptr(args[2])
            eng.blob(st, b, 16, 'data', eng.fresh(st, ('response',) + eng.site(st, I)))
            resp = tuple(eng.load(st, Ptr(b.b, add(b.o, i)), ity(8)) for i in range(16))
            s2 = st.copy()
            e = lin(eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1))
            self.put(eng, st, b, (('resp',),))
            st.cl = st.cl.set(resp=resp)
            return [(0, st), (e, s2)]
        if name in ('memcpy', 'memmove', 'mempcpy'):
            s, d = eng.as_ptr(args[1]), eng.as_ptr(args[0])
            segs = self.text(eng, st, s)
            if segs is None:
                segs = self.strseg(eng, st, s)
            n = add(args[2], self.total(eng, st, segs), -1)
            t = D(st.cl.get('texts'))
            if n == 0 or n == 1 and ('resp',) not in segs:
                self.put(eng, st, d, segs)
            else:
                st.cl = st.cl.set(texts=tuple(t.drop(d.b)))
            r = eng.models.get(name)
            return None
        if name == 'conn_send':
            b = eng.as_ptr(args[1])
            t = self.text(eng, st, b)
            if t is None:
                t = self.strseg(eng, st, b)
            n = args[2]
            if eng.decide(st, 'eq', n, self.total(eng, st, t)) is not True:
                t = self.cut(eng, st, t, n)
            sent = c.get('sent')
            if t is None:
                t = (('?',),)
            sent = (sent + tuple(t))[-8:]
            return self.fork(eng, st, I, {'sent': sent}, {'sent': sent + (('failed',),)})
        if name in LOCK or name in UNLOCK:
            return 0
        r = self.textcall(eng, st, I, name, args)
        return None if r is False else r

    def cut(self, eng, st, t, n):
        out = []
        for s in t:
            if n == 0:
                return tuple(out)
            if s[0] == 'lit' and isinstance(n, int) and 0 < n < len(s[1]):
                return tuple(out) + (('lit', s[1][:n]),)
            out.append(s)
            n = add(n, self.seglen(eng, st, s), -1)
        return tuple(out) if n == 0 else None

    def on_return(self, eng, st, I, v):
        c = st.cl
        neg = isneg(eng, st, v)
        if neg is None:
            self.bad(I, 'result', 'the result does not tell success from failure', st)
            return
        if neg:
            if c.get('conn') == 'open':
                self.bad(I, 'undo', 'a failed login leaves the connection open', st)
            else:
                self.ok(I, 'undo', c.get('conn'))
            return
        cs = self.cfg(eng, st, 'callsign')
        z = null(eng, st, cs)
        want = (('lit', b'\n'), ('resp',))
        if z is False:
            want = self.strseg(eng, st, eng.as_ptr(cs)) + want
        elif z is None:
            return self.bad(I, 'login', 'whether a callsign was given is not looked at', st)
        sent = []
        for s in c.get('sent'):
            if sent and sent[-1][0] == 'lit' and s[0] == 'lit':
                sent[-1] = ('lit', sent[-1][1] + s[1])
            else:
                sent.append(s)
        if c.get('conn') != 'open':
            self.bad(I, 'login', 'success is reported without an open connection', st)
        elif tuple(sent) != want:
            self.bad(I, 'login', 'success is reported although what was sent is not the callsign, a newline and the response', st)
        else:
            self.ok(I, 'login', z)


def run(ctx):
    ctx.run(Login(), ctx.prog.fn('proxy_client_connect'))
    if not ctx.viol:
        for r, n, w in (('address', 1, 'connections'), ('challenge', 1, 'challenges'), ('convert', 1, 'challenges converted'), ('response', 1, 'responses'), ('login', 1, 'successful logins'), ('undo', 1, 'failed logins')):
            ctx.need(r, n, w)
