"""N01: the registration service.

start, update and stop are compared with their contract for every status the service can be in when its lock is
taken; the worker's function is analysed with a text model (what is formatted where, with exact symbolic
lengths), so that what is sent can be compared with what a complete report is."""
from .common import *
from .models import set_errno, strkey
from . import fmt as F

S = 'registration_service_priv'
HOST, PORT = b'www.echolink.org', b'80'
PHRASE = {1: b'Ready', 2: b'Busy', 3: b'Off'}


def status_vals(P):
    return [P.enums['REGISTRATION_STATUS_' + k] for k in ('UNKNOWN', 'READY', 'BUSY', 'OFF')]


class Svc(DClient):
    """forks over every status when the lock is taken"""
    def __init__(self, P):
        self.UNKNOWN, self.READY, self.BUSY, self.OFF = status_vals(P)

    def rs(self, eng, st):
        return st.frames[0].args[0]

    def priv(self, eng, st):
        return eng.as_ptr(fld(eng, st, self.rs(eng, st), 'registration_service_handle.priv'))

    def f(self, eng, st, name, bits=None):
        return eng.load(st, lv(eng, self.priv(eng, st), S + '.' + name), ity(bits) if bits else pty())

    def start(self, eng, st, fn):
        return D(held=False, s0=None, at=None, calls=())

    def on_call(self, eng, st, I, name, args):
        if name in LOCK or name in UNLOCK:
            p = eng.as_ptr(args[0])
            if p.tag == (S, 'mutex'):
                return self.lock(eng, st, I, p) if name in LOCK else self.unlock(eng, st, I, p)
        if name in ('worker_start', 'worker_wake', 'worker_join', 'worker_free'):
            return self.worker(eng, st, I, name, args)
        return None

    def lock(self, eng, st, I, p):
        base = Ptr(p.b, add(p.o, -eng.prog.off(S, 'mutex')))
        out = []
        for v in (self.UNKNOWN, self.READY, self.BUSY, self.OFF):
            s = st.copy()
            eng.store(s, lv(eng, base, S + '.status'), 4, v)
            for x in ('slots_used', 'slots_total'):
                eng.store(s, lv(eng, base, S + '.' + x), 8, lin(eng.fresh(s, ('lk', x) + eng.site(s, I), 0, 1 << 31)))
            at = tuple(eng.load(s, lv(eng, base, S + '.' + x), ity(64)) for x in ('slots_used', 'slots_total'))
            s.cl = s.cl.set(held=True, s0=v, at=(v,) + at)
            out.append((0, s))
        return out

    def unlock(self, eng, st, I, p):
        st.cl = st.cl.set(held=False)
        return 0

    def status(self, eng, st):
        return self.f(eng, st, 'status', 32)

    def worker(self, eng, st, I, name, args):
        """own worker? record the call with the status at that moment"""
        p = eng.as_ptr(args[0])
        mine = p.tag == (S, 'worker')
        if not mine:
            return None
        s = self.status(eng, st)
        calls = st.cl.get('calls')
        if name == 'worker_free':
            return 0
        out = []
        s2 = st.copy()
        e = eng.fresh(s2, ('wkerr', name) + eng.site(s2, I), -4095, -1)
        st.cl = st.cl.set(calls=calls + ((name, True, s),))
        s2.cl = s2.cl.set(calls=calls + ((name, False, s),))
        return [(0, st), (lin(e), s2)]

    def names(self, st, ok=None):
        return [c[0] for c in st.cl.get('calls') if ok is None or c[1] == ok]


class Start(Svc):
    def conf(self, eng, st, f):
        return fld(eng, st, st.frames[0].args[1], 'proxy_conf.' + f)

    def on_call(self, eng, st, I, name, args):
        if name == 'worker_start' and eng.as_ptr(args[0]).tag == (S, 'worker'):
            if null(eng, st, self.conf(eng, st, 'reg_name')) is not False:
                self.bad(I, 'optin', 'the registration service is started without a registration name', st)
            else:
                self.ok(I, 'optin')
        return Svc.on_call(self, eng, st, I, name, args)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        neg = isneg(eng, st, v)
        z = null(eng, st, self.conf(eng, st, 'reg_name'))
        if z is not False:
            if 'worker_start' in self.names(st):
                return                       # reported above
            if z is True:
                if neg is not False:
                    self.bad(I, 'optin', 'starting without a registration name fails', st, 'ret')
                else:
                    self.ok(I, 'optin', 'ret')
                return
        if neg is True:
            return
        calls = st.cl.get('calls')
        ok = [c[0] for c in calls if c[1]]
        if 'worker_start' not in ok:
            self.bad(I, 'start', 'starting succeeds although the worker that reports was not started', st, 'start')
            return
        i = ok.index('worker_start')
        if 'worker_wake' not in ok[i:]:
            self.bad(I, 'start', 'starting does not trigger a report', st, 'start')
            return
        s0, s = st.cl.get('s0'), self.status(eng, st)
        if s0 is None or not (s == self.UNKNOWN or s == s0 != self.OFF):
            self.bad(I, 'status', 'after starting again the status is still that of the last stop' if s == self.OFF else
                     'starting makes up a status', st, ('status', s0))
            return
        self.ok(I, 'status', ('status', s0))
        for f, c in (('reg_name', 'reg_name'), ('reg_comment', 'reg_comment')):
            x, y = self.f(eng, st, f), self.conf(eng, st, c)
            good = eng.decide(st, 'eq', x, y) is True
            if null(eng, st, y) is True:
                good = strkey(eng, st, x) == b'' if isinstance(x, Ptr) else False
            if not good and isinstance(x, Ptr) and adesc(x.b)[0] == 'H':
                good = True                  # a copy
            if not good:
                self.bad(I, 'content', 'the configured %s is not what is reported' % c.replace('reg_', 'registration '), st, f)
            else:
                self.ok(I, 'content', f)
        x = self.f(eng, st, 'reg_suffix')
        if null(eng, st, x) is not False:
            self.bad(I, 'content', 'the address, port and digest of the proxy are not prepared', st, 'suffix')
        else:
            self.ok(I, 'content', 'suffix')
        self.ok(I, 'start', 'start')


class Update(Svc):
    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        used, total = st.frames[0].args[1], st.frames[0].args[2]
        at = st.cl.get('at')
        if at is None:
            self.bad(I, 'update', 'an update does not look at the service at all', st)
            return
        s = self.status(eng, st)
        inst = ('update', at[0])
        if at[0] == self.OFF:
            if s != self.OFF:
                self.bad(I, 'off', 'a status other than the sign-off follows stopping', st, inst)
            else:
                self.ok(I, 'off', inst)
            return
        full = eng.decide(st, 'uge', used, total)
        want = None
        if full is not None:
            want = self.BUSY if full else self.READY
        if want is None or s != want:
            # undetermined: both must be excluded
            self.bad(I, 'update', 'the status does not become %s' % (
                'busy when all slots are used' if want == self.BUSY else 'ready while there are free slots'), st, inst)
            return
        u, t = self.f(eng, st, 'slots_used', 64), self.f(eng, st, 'slots_total', 64)
        if eng.decide(st, 'eq', u, used) is not True or eng.decide(st, 'eq', t, total) is not True:
            self.bad(I, 'update', 'an update does not take over the numbers of slots', st, inst)
            return
        if 'worker_wake' not in self.names(st):
            same = s == at[0] and eng.decide(st, 'eq', u, at[1]) is True and eng.decide(st, 'eq', t, at[2]) is True
            if not same:
                self.bad(I, 'trigger', 'a change of the status or the counts does not trigger a report', st, inst)
                return
        self.ok(I, 'update', inst)


class Stop(Svc):
    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        inst = ('stop', st.cl.get('s0'))
        calls = st.cl.get('calls')
        if self.status(eng, st) != self.OFF:
            self.bad(I, 'signoff', 'stopping does not set the sign-off status', st, inst)
            return
        k = [i for i, c in enumerate(calls) if c[0] == 'worker_wake' and c[2] == self.OFF]
        if not k:
            self.bad(I, 'signoff', 'stopping does not trigger the final sign-off', st, inst)
            return
        j = [i for i, c in enumerate(calls) if c[0] == 'worker_join']
        if not j or j[0] < k[0]:
            self.bad(I, 'signoff', 'stopping does not wait for the sign-off' if not j else
                     'the worker is ended before the sign-off was triggered', st, inst)
            return
        if st.cl.get('held'):
            self.bad(I, 'signoff', 'stopping keeps the service locked', st, inst)
            return
        self.ok(I, 'signoff', inst)

    def worker(self, eng, st, I, name, args):
        if name == 'worker_join' and st.cl.get('held') and eng.as_ptr(args[0]).tag == (S, 'worker'):
            self.bad(I, 'signoff', 'the worker is waited for while the lock it needs is held', st, 'lock')
        return Svc.worker(self, eng, st, I, name, args)


# ------------------------------------------------------------------------------------------------- the report
class Texts(Svc):
    """texts: {block: segments}; a segment is ('lit', bytes) | ('str', pointer, length) | ('num', value) | ('chr', value)
    | ('hex',).  Lengths are exact expressions."""

    def seglen(self, eng, st, s):
        if s[0] == 'lit':
            return len(s[1])
        if s[0] == 'str':
            return s[2]
        if s[0] == 'chr':
            return 1
        if s[0] == 'hex':
            return 32
        v = s[1]
        if isinstance(v, int):
            return len(str(v))
        return lin(atom(('digits', v), 1, 20))

    def total(self, eng, st, segs):
        n = 0
        for s in segs:
            n = add(n, self.seglen(eng, st, s))
        return n

    def strseg(self, eng, st, p):
        """segments of the text at p"""
        t = self.text(eng, st, p)
        if t is not None:
            return t
        k = strkey(eng, st, p)
        if isinstance(k, bytes):
            return (('lit', k),) if k else ()
        from .models import m_strlen
        return (('str', p, F.strlen_of(eng, st, p)),)

    def text(self, eng, st, p):
        """known segments from p on, or None"""
        segs = D(st.cl.get('texts')).get(p.b)
        if segs is None:
            return None
        o = p.o
        for i in range(len(segs) + 1):
            if o == 0:
                return segs[i:]
            if i < len(segs):
                s = segs[i]
                if s[0] == 'lit' and isinstance(o, int) and 0 < o < len(s[1]):
                    return (('lit', s[1][o:]),) + segs[i + 1:]
                o = add(o, mul(self.seglen(eng, st, s), -1))
        return None

    def put(self, eng, st, p, new, cut=True):
        """a text is written at p"""
        t = D(st.cl.get('texts'))
        segs = t.get(p.b)
        out = None
        if p.o == 0:
            out = tuple(new)
        elif segs is not None:
            o, keep = p.o, []
            for s in segs:
                if o == 0:
                    break
                if s[0] == 'lit' and isinstance(o, int) and 0 < o < len(s[1]):
                    keep.append(('lit', s[1][:o]))
                    o = 0
                    break
                keep.append(s)
                o = add(o, mul(self.seglen(eng, st, s), -1))
            if o == 0:
                out = tuple(keep) + tuple(new)
        t = t.drop(p.b) if out is None else t.set({p.b: out})
        st.cl = st.cl.set(texts=tuple(t))

    def format(self, eng, st, f, args):
        fs = F.fmt_string(eng, f)
        ps = F.parse(fs) if fs is not None else None
        if ps is None:
            return None
        out, n = [], 0
        for p in ps:
            if p[0] == 'lit':
                out.append(p)
                continue
            _, fl, w, pr, lm, c = p
            if w or pr or n >= len(args):
                return None
            a = args[n]
            n += 1
            if c == 's':
                if not isinstance(a, Ptr):
                    return None
                out += self.strseg(eng, st, a)
            elif c == 'c':
                out.append(('chr', a))
            elif c in 'diu':
                out.append(('num', a))
            else:
                return None
        # join neighbouring constants
        r = []
        for s in out:
            if r and r[-1][0] == 'lit' and s[0] == 'lit':
                r[-1] = ('lit', r[-1][1] + s[1])
            else:
                r.append(s)
        return tuple(r)

    def textcall(self, eng, st, I, name, args):
        if name in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk'):
            k = {'sprintf': 1, 'snprintf': 2, '__sprintf_chk': 3, '__snprintf_chk': 4}[name]
            segs = self.format(eng, st, args[k], args[k + 1:])
            d = eng.as_ptr(args[0])
            if segs is None:
                t = D(st.cl.get('texts'))
                st.cl = st.cl.set(texts=tuple(t.drop(d.b)))
                return None
            self.put(eng, st, d, segs)
            return self.total(eng, st, segs)
        if name in ('strcpy', 'stpcpy', 'strcat'):
            d = eng.as_ptr(args[0])
            segs = self.strseg(eng, st, eng.as_ptr(args[1]))
            if name == 'strcat':
                old = self.text(eng, st, d)
                if old is None:
                    return None
                segs = old + tuple(segs)
            self.put(eng, st, d, segs)
            if name == 'stpcpy':
                return Ptr(d.b, add(d.o, self.total(eng, st, segs)))
            return args[0]
        if name == 'strlen':
            t = self.text(eng, st, eng.as_ptr(args[0]))
            return None if t is None else self.total(eng, st, t)
        if name == 'digest_to_str':
            d = eng.as_ptr(args[1])
            self.put(eng, st, d, (('hex',),))
            return None
        return False


SALT = b'#5A!zu'


class Prepare(Texts):
    """registration_service_start: what every report will end with"""
    reached = False

    def start(self, eng, st, fn):
        return D(texts=(), digs=(), pub=None, started=False)

    def conf(self, eng, st, f, bits=None):
        return fld(eng, st, st.frames[0].args[1], 'proxy_conf.' + f, bits)

    def on_call(self, eng, st, I, name, args):
        if name in LOCK or name in UNLOCK:
            return 0
        if name in ('digest_get', 'MD5'):
            t = self.text(eng, st, eng.as_ptr(args[0]))
            if t is None:
                k = strkey(eng, st, args[0])
                t = (('lit', k),) if isinstance(k, bytes) else None
            if t is not None and eng.decide(st, 'eq', args[1], self.total(eng, st, t)) is not True:
                t = None
            out = eng.as_ptr(args[2])
            d = D(st.cl.get('digs')).drop(out.b)
            if t is not None and out.o == 0:
                d = d.set({out.b: tuple(t)})
            st.cl = st.cl.set(digs=tuple(d))
            return None
        if name == 'digest_to_str':
            src, d = eng.as_ptr(args[0]), eng.as_ptr(args[1])
            segs = D(st.cl.get('digs')).get(src.b) if src.o == 0 else None
            self.put(eng, st, d, (('hex', segs),))
            return 0
        if name in ('memcpy', 'memmove', 'mempcpy'):
            segs = self.strseg(eng, st, eng.as_ptr(args[1]))
            n = add(args[2], self.total(eng, st, segs), -1)
            if n == 0 or n == 1:
                self.put(eng, st, eng.as_ptr(args[0]), segs)
                return args[0] if name != 'mempcpy' else Ptr(eng.as_ptr(args[0]).b, add(eng.as_ptr(args[0]).o, args[2]))
            t = D(st.cl.get('texts')).drop(eng.as_ptr(args[0]).b)
            st.cl = st.cl.set(texts=tuple(t))
            return None
        if name == 'strdup':
            segs = self.strseg(eng, st, eng.as_ptr(args[0]))
            r = eng.models[name](eng, st, I, args)
            for v, s in r:
                if isinstance(v, Ptr):
                    self.put(eng, s, v, segs)
            return r
        if name in ('strcmp', 'strncmp', 'memcmp'):
            pw = self.conf(eng, st, 'password')
            for x, y in ((args[0], args[1]), (args[1], args[0])):
                if isinstance(y, Ptr) and strkey(eng, st, y) == b'PUBLIC' and eng.decide(st, 'eq', x, pw) is True and \
                        (name == 'strcmp' or isinstance(args[2], int) and args[2] >= 7 and name == 'strncmp'):
                    s2 = st.copy()
                    st.cl = st.cl.set(pub=True)
                    nz = lin(eng.fresh(s2, ('cmpnz',) + eng.site(s2, I), -255, 255))
                    eng.assume(s2, 'ne', nz, 0)
                    s2.cl = s2.cl.set(pub=False)
                    return [(0, st), (nz, s2)]
            return None
        if name == 'worker_start':
            self.prepared(eng, st, I)
            return [(0, st), (lin(eng.fresh(st, ('wkerr',) + eng.site(st, I), -4095, -1)), st.copy())]
        if name in ('worker_wake', 'worker_join', 'free'):
            return 0
        r = self.textcall(eng, st, I, name, args)
        return None if r is False else r

    def trunc_ok(self, eng, st, I, v):
        return I.ty.bits >= 32               # texts are shorter than 2 GiB

    def prepared(self, eng, st, I):
        self.reached = True
        """what the worker will find"""
        def bad(rule, msg):
            self.bad(I, rule, msg, st)
        x = self.f(eng, st, 'reg_suffix')
        segs = self.text(eng, st, x) if isinstance(x, Ptr) else None
        if segs is None:
            return bad('ending', 'the ending of the reports is not prepared, or not as one text')
        addr = self.conf(eng, st, 'public_addr')
        a = () if null(eng, st, addr) is True else self.strseg(eng, st, eng.as_ptr(addr))
        name = self.strseg(eng, st, eng.as_ptr(self.conf(eng, st, 'reg_name')))
        # constants are compared as one
        port = self.conf(eng, st, 'port', 16)
        want = (('lit', b'&a='),) + a + (('lit', b'&d='), ('hex', self.join(tuple(name) + a + (('lit', SALT),))), ('lit', b'&p='), ('num', port), ('lit', b'&v='))
        want = self.join(want)
        got = self.join(tuple(('hex', self.join(g[1]) if g[1] else None) if g[0] == 'hex' else g for g in segs))
        last = got[-1] if got else None
        if not last or last[0] != 'lit' or not last[1].startswith(b'&v=') or len(last[1]) < 4 or b'&' in last[1][1:]:
            return bad('ending', 'the reports do not end with the protocol version')
        got = got[:-1] + (('lit', b'&v='),)
        if len(got) != len(want):
            return bad('ending', 'the ending of the reports is not address, digest, port and version')
        for g, w in zip(got, want):
            same = g[0] == w[0] and (eng.decide(st, 'eq', eng.zx(st, g[1], 16), eng.zx(st, w[1], 16)) is True if g[0] == 'num' else g[:2] == w[:2])
            if not same:
                return bad('ending', {'hex': 'the reports are not signed with the digest of name, address and salt', 'num': 'the reports do not announce the configured port',
                                      'str': 'the reports do not announce the configured address'}.get(w[0], 'the ending of the reports is not address, digest, port and version'))
        self.ok(I, 'ending', (len(a), null(eng, st, addr)))
        pub, v = st.cl.get('pub'), self.f(eng, st, 'public', 8)
        if pub is None or v != (89 if pub else 78):
            return bad('public', 'the proxy is not announced as public exactly when its password is PUBLIC')
        self.ok(I, 'public', pub)

    def join(self, segs):
        r = []
        for s in segs:
            if r and r[-1][0] == 'lit' and s[0] == 'lit':
                r[-1] = ('lit', r[-1][1] + s[1])
            else:
                r.append(s)
        return tuple(r)


class Report(Texts):
    """registration_func: one run of the worker"""
    keep_dead = False

    def start(self, eng, st, fn):
        return D(held=False, s0=None, at=None, calls=(), texts=(), conn=None, sent=(), got=None, okd=None, inner=None)

    def rs(self, eng, st):
        return fld(eng, st, st.frames[0].args[0], 'worker_handle.func_ctx')

    def on_store(self, eng, st, I, p, v, size):
        if p.tag in ((S, 'status'), (S, 'slots_used'), (S, 'slots_total')):
            self.bad(I, 'known', 'the reporting worker changes the status itself', st)

    def trunc_ok(self, eng, st, I, v):
        return I.ty.bits >= 32 and all(adesc(a)[0] in ('strlen', 'digits') for a, _ in v.t)     # lengths of texts below 2 GiB

    def contact(self, I, eng, st):
        s = st.cl.get('at')
        if s is None:
            self.bad(I, 'known', 'the directory is contacted without looking at the status', st)
        elif s[0] == self.UNKNOWN:
            self.bad(I, 'known', 'the directory is contacted while no status is known', st)
        else:
            self.ok(I, 'known', s[0])
        # the outermost inlined function that is responsible for the contact
        if st.cl.get('inner') is None and len(st.frames) > 1:
            st.cl = st.cl.set(inner=st.frames[1].fn.name)

    def on_call(self, eng, st, I, name, args):
        r = self.textcall(eng, st, I, name, args)
        if r is not False and r is not None:
            return r
        if r is None:
            return None
        if name == 'conn_connect':
            self.contact(I, eng, st)
            h, p = strkey(eng, st, args[1]), strkey(eng, st, args[2])
            if h != HOST or p != PORT:
                self.bad(I, 'address', 'a report goes to %s port %s instead of the directory' % (
                    h.decode() if isinstance(h, bytes) else 'another host', p.decode() if isinstance(p, bytes) else '?'), st)
            else:
                self.ok(I, 'address')
            s2 = st.copy()
            e = eng.fresh(s2, ('cerr',) + eng.site(s2, I), -4095, -1)
            s2.cl = s2.cl.set(conn='failed')
            st.cl = st.cl.set(conn=args[0])
            return [(0, st), (lin(e), s2)]
        if name in ('conn_send', 'conn_send_to'):
            if st.cl.get('conn') != args[0]:
                self.bad(I, 'address', 'a report is sent over something other than the connection to the directory', st, 'send')
            t = self.text(eng, st, eng.as_ptr(args[1]))
            if t is None:
                k = strkey(eng, st, args[1])
                t = (('lit', k),) if isinstance(k, bytes) else None
            n = args[2]
            sent = st.cl.get('sent')
            if t is None or sent is None or eng.decide(st, 'eq', n, self.total(eng, st, t)) is not True:
                piece = None
                if t is not None and sent is not None:
                    piece = self.prefix(eng, st, t, n)
                if piece is None:
                    sent = ('?',)
                else:
                    sent = sent + piece
            elif sent != ('?',):
                sent = sent + tuple(t)
            s2 = st.copy()
            e = eng.fresh(s2, ('serr',) + eng.site(s2, I), -4095, -1)
            s2.cl = s2.cl.set(sent=('failed',))
            st.cl = st.cl.set(sent=sent)
            return [(0, st), (lin(e), s2)]
        if name in ('conn_recv', 'conn_recv_any'):
            self.complete(eng, st, I)
            s2 = st.copy()
            e = eng.fresh(s2, ('rerr',) + eng.site(s2, I), -4095, -1)
            b = eng.as_ptr(args[1])
            eng.blob(st, b, args[2], 'data', eng.fresh(st, ('response',) + eng.site(st, I)))
            t = D(st.cl.get('texts')).drop(b.b)
            st.cl = st.cl.set(got=(b, args[2]), texts=tuple(t))
            return [(eng.result(st, I, 0, INF), st), (lin(e), s2)]
        if name in ('strncmp', 'memcmp', 'bcmp', 'strcmp', 'strncasecmp'):
            got = st.cl.get('got')
            for x, y in ((args[0], args[1]), (args[1], args[0])):
                k = strkey(eng, st, y) if isinstance(y, Ptr) else None
                if got is not None and isinstance(k, bytes) and eng.as_ptr(x) == got[0]:
                    n = args[2] if len(args) > 2 else len(k) + 1
                    n = min(n, len(k)) if isinstance(n, int) else 0
                    full = n >= 12 and k[:12] == b'HTTP/1.1 200' and isinstance(got[1], int) and n <= got[1]
                    s2 = st.copy()
                    if full:
                        st.cl = st.cl.set(okd=True)
                    nz = eng.fresh(s2, ('cmpnz',) + eng.site(s2, I))
                    eng.assume(s2, 'ne', lin(nz), 0)
                    return [(0, st), (lin(nz), s2)]
            return None
        return Svc.on_call(self, eng, st, I, name, args)

    def prefix(self, eng, st, t, n):
        """the first n characters of t, when that is a whole number of segments"""
        out = []
        for s in t:
            if n == 0:
                return tuple(out)
            if s[0] == 'lit' and isinstance(n, int) and 0 < n < len(s[1]):
                return tuple(out) + (('lit', s[1][:n]),)
            out.append(s)
            n = add(n, mul(self.seglen(eng, st, s), -1))
        return tuple(out) if n == 0 else None

    def complete(self, eng, st, I):
        """what has been sent is one complete report"""
        sent = st.cl.get('sent')
        at = st.cl.get('at')
        if at is None or at[0] == self.UNKNOWN:
            return
        inst = ('report', at[0])

        def bad(rule, msg):
            self.bad(I, rule, msg, st, inst)
        if not sent or sent[-1] == 'failed':
            return bad('complete', 'an answer is awaited although the report was not sent')
        if sent == ('?',) or '?' in sent:
            return bad('complete', 'what is sent is not exactly what was prepared')
        # header and body
        head, body = [], None
        for i, s in enumerate(sent):
            if s[0] == 'lit' and b'\r\n\r\n' in s[1]:
                j = s[1].index(b'\r\n\r\n') + 4
                head.append(('lit', s[1][:j]))
                body = ((('lit', s[1][j:]),) if s[1][j:] else ()) + tuple(sent[i + 1:])
                break
            head.append(s)
        if body is None:
            return bad('complete', 'the header of the report is not ended')
        cl = None
        for i, s in enumerate(head):
            if s[0] == 'num' and i and head[i - 1][0] == 'lit' and head[i - 1][1].lower().rstrip(b' ').endswith(b'content-length:') \
                    and i + 1 < len(head) and head[i + 1][0] == 'lit' and head[i + 1][1].startswith(b'\r\n'):
                cl = s[1]
        if cl is None:
            return bad('length', 'the report does not announce its length')
        if eng.decide(st, 'eq', cl, self.total(eng, st, body)) is not True:
            return bad('length', 'the announced length is not the length of the report')
        if not head[0][1].startswith(b'POST /proxypost.jsp HTTP/1.1\r\n') or b'\r\nHost: ' + HOST + b'\r\n' not in head[0][1]:
            return bad('complete', 'the header does not address the directory')
        # body
        p = self.priv(eng, st)
        want = [(b'name=', 'reg_name'), (b'comment=', 'reg_comment'), (None, 'reg_suffix')]
        for lab, f in want:
            v = eng.load(st, lv(eng, p, S + '.' + f), pty())
            hit = [i for i, s in enumerate(body) if s[0] == 'str' and eng.decide(st, 'eq', s[1], v) is True]
            if not hit or lab and not any(i and body[i - 1][0] == 'lit' and body[i - 1][1].endswith(lab) for i in hit):
                return bad('complete', 'the report lacks the %s' % {
                    'reg_name': 'name', 'reg_comment': 'comment', 'reg_suffix': 'address, port and digest'}[f])
        # status: "...status=" phrase, either in one constant or two
        flat = b'\x00'.join(s[1] if s[0] == 'lit' else b'' for s in body) if False else None
        ph = PHRASE[{self.READY: 1, self.BUSY: 2, self.OFF: 3}[at[0]]]
        txt = b''
        for s in body:
            txt += s[1] if s[0] == 'lit' else b'\x00'
        k = txt.find(b'status=')
        rest = txt[k + 7:] if k >= 0 else b''
        if k < 0 or not rest.startswith(ph) or rest[len(ph):len(ph) + 1] not in (b'\x00', b'&', b''):
            return bad('status', 'the report does not carry the current status (%s)' % ph.decode())
        if b'public=\x00' not in txt:
            return bad('complete', 'the report does not say whether the proxy is public')
        for i, x in enumerate(body):
            if x[0] == 'chr' and i and body[i - 1][0] == 'lit' and body[i - 1][1].endswith(b'public='):
                if eng.decide(st, 'eq', x[1], eng.load(st, lv(eng, p, S + '.public'), ity(8))) is not True:
                    return bad('complete', 'the report does not say whether the proxy is public')
        # the counts, where given, are those read together with the status
        nums = [s[1] for s in body if s[0] == 'num']
        one = eng.decide(st, 'eq', at[2], 1)
        if nums:
            if len(nums) != 2 or any(eng.decide(st, 'eq', a, b) is not True for a, b in zip(nums, at[1:])):
                return bad('status', 'the report does not carry the current numbers of slots')
        elif one is not True:
            return bad('status', 'the report does not carry the numbers of slots')
        self.ok(I, 'complete', inst)
        self.ok(I, 'length', inst)
        self.ok(I, 'status', inst)

    def on_exit_frame(self, eng, st, I, v):
        if len(st.frames) != 2 or st.cl.get('inner') != st.frames[-1].fn.name or v is None:
            return
        if isneg(eng, st, v) is True:
            return
        inst = 'delivered'
        if not st.cl.get('okd'):
            self.bad(I, 'accepted', 'a report counts as delivered although the directory did not accept it', st, inst)
        else:
            self.ok(I, 'accepted', inst)
        if not st.cl.get('sent') or st.cl.get('sent')[-1] == 'failed':
            self.bad(I, 'accepted', 'a report counts as delivered although it was not sent', st, inst)

    def on_return(self, eng, st, I, v):
        at = st.cl.get('at')
        if st.cl.get('conn') is None and (at is None or at[0] != self.UNKNOWN):
            # giving up early: only after a failure (no memory, no connection object)
            if not self.failed(eng, st):
                self.bad(I, 'sent', 'a known status is not reported', st, ('sent', at and at[0]))
                return
        self.ok(I, 'sent', ('sent', at and at[0]))

    def failed(self, eng, st):
        return st.cl.get('gaveup')


class Run(Report):
    def start(self, eng, st, fn):
        return Report.start(self, eng, st, fn).set(gaveup=False)

    def on_call(self, eng, st, I, name, args):
        if name in ('malloc', 'calloc', 'realloc', 'conn_init', 'strdup'):
            if name == 'conn_init':
                s2 = st.copy()
                e = eng.fresh(s2, ('ierr',) + eng.site(s2, I), -4095, -1)
                s2.cl = s2.cl.set(gaveup=True)
                return [(0, st), (lin(e), s2)]
            r = eng.models[name](eng, st, I, args)
            r[1][1].cl = r[1][1].cl.set(gaveup=True)
            return r
        return Report.on_call(self, eng, st, I, name, args)


def mul(v, k):
    return -v if isinstance(v, int) and k == -1 else (v * k if isinstance(v, int) else add(0, Lin(tuple((a, c * k) for a, c in v.t), v.k * k)))


# ------------------------------------------------------------------------------------------------- the proxy
class Proxy(DClient):
    """proxy_start announces itself after the service runs; proxy_close signs off"""
    def start(self, eng, st, fn):
        return D(seq=())

    def key(self, eng, st):
        return st.cl

    def on_call(self, eng, st, I, name, args):
        if name and name.startswith('registration_service_'):
            seq = st.cl.get('seq')
            s = name[len('registration_service_'):]
            if s == 'start':
                s2 = st.copy()
                e = eng.fresh(s2, ('regerr',) + eng.site(s2, I), -4095, -1)
                st.cl = st.cl.set(seq=(seq + ('start',))[-6:])
                return [(0, st), (lin(e), s2)]
            if not seq or seq[-1] != s:
                st.cl = st.cl.set(seq=(seq + (s,))[-6:])
        return None

    def on_return(self, eng, st, I, v):
        fn = st.frames[0].fn.name
        seq = st.cl.get('seq')
        if fn == 'proxy_start':
            if isinstance(v, tuple) or isneg(eng, st, v) is True:
                return
            if 'start' not in seq or 'update' not in seq[seq.index('start'):]:
                self.bad(I, 'proxy', 'the proxy starts without %s' % (
                    'starting the registration service' if 'start' not in seq else 'reporting its status'), st)
            else:
                self.ok(I, 'proxy')
        else:
            if 'stop' not in seq or 'start' in seq[seq.index('stop'):]:
                self.bad(I, 'proxy', 'the proxy closes without signing off', st)
            else:
                self.ok(I, 'proxy')


def n01(ctx):
    P = ctx.prog
    for n, C in (('registration_service_start', Start), ('registration_service_update', Update),
                 ('registration_service_stop', Stop)):
        cls = C
        if C is Start:
            class cls(Texts, Start):
                def start(self, eng, st, fn):
                    return Start.start(self, eng, st, fn).set(texts=())

                def on_call(self, eng, st, I, name, args):
                    r = self.textcall(eng, st, I, name, args)
                    if r is False or r is None:
                        return Start.on_call(self, eng, st, I, name, args) if r is False else None
                    return r
        ctx.run(cls(P), P.fn(n), args={} if C is not Update else {
            1: lin(atom(('cfg', 'used'), 0, 65536)), 2: lin(atom(('cfg', 'slots'), 0, 65536))})
    cbs = [f for f in func_of_callbacks(P) if f.module == 'registration']
    if not cbs and not any(f.addr_taken and f.module == 'registration' for f in P.allf):
        i = next(i for b in P.fn('registration_service_init').blocks for i in b.insts if i.op == 'call')
        ctx.violation(i, 'start', 'the registration worker is given no function to report with')
    elif not cbs:
        ctx.errors.append('the function of the registration worker was not found')
    for f in cbs:
        ctx.run(Run(P), f)
    # the directory is contacted by the worker only
    for f in entries(P, ('registration',)):
        if f in cbs:
            continue
        fs, names = reach(P, f)
        local = {g for g in fs if g.module == 'registration' and not (g.boundary and g is not f)}
        hit = [i for g in local for b in g.blocks for i in b.insts if i.op == 'call' and i.x[0] == 'f' and
               (i.x[1] if isinstance(i.x[1], str) else i.x[1][1]) in ('conn_connect', 'connect')]
        if hit:
            ctx.violation(hit[0], 'optin', 'the directory is contacted by %s itself' % f.name)
        ctx.obligation('worker', f.name, not hit)
    for n in ('proxy_start', 'proxy_close'):
        ctx.run(Proxy(), P.fn(n), inline=lambda f: f.internal or f.name in ('proxy_update_registration', 'proxy_shutdown'))


def n02(ctx):
    f = ctx.prog.fn('registration_service_start')
    c = Prepare(ctx.prog)
    ctx.run(c, f)
    if not c.reached and not ctx.viol:
        i = next(i for b in f.blocks for i in b.insts if i.op == 'call')
        ctx.violation(i, 'ending', 'the worker that reports is never started')
