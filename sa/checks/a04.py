"""A04: provenance and coverage of the bytes digested for a password response: a ghost counter follows the
copy loop, and every byte written is compared with the password byte at the same position."""
from ..common import *
from .. import models as M


class Response(DClient):
    """get_password_response(nonce, password, response)"""
    keep_init = False

    def start(self, eng, st, fn):
        gset(eng, st, 'k', 0)
        return D(hex=None, dig=None)

    def atoms(self, eng, st, live):
        """facts about the current password byte outlive the register it is in; those about earlier bytes do not"""
        DClient.atoms(self, eng, st, live)
        if gptr('k').b in st.mem and st.frames:
            p = self.src(st)
            vatoms(eng.load(st, Ptr(p.b, add(p.o, gget(eng, st, 'k'))), ity(8)), live)

    def src(self, st):
        return st.frames[0].args[1]

    def on_store(self, eng, st, I, p, v, size):
        src, dst = self.src(st), st.frames[0].args[2]
        if st.cl.get('dig'):
            if p.b == dst.b:
                self.bad(I, 'overwritten', 'the response is changed after it was computed', st)
            return
        if adesc(p.b)[0] not in ('H', 'L') or size != 1:
            return
        k = gget(eng, st, 'k')
        o = p.o
        b = eng.load(st, Ptr(src.b, add(src.o, k)), ity(8))
        if eng.decide(st, 'eq', o, k) is not True:
            return
        if eng.decide(st, 'eq', v, 0) is True and eng.decide(st, 'eq', b, 0) is not False:
            return
        if isinstance(b, int):
            vals, ba = [b], None
        elif len(b.t) == 1 and b.t[0][1] == 1 and b.k == 0:
            ba = b.t[0][0]
            vals = feasible(eng, st, ba, range(-128, 128))
        else:
            return
        for n in vals:
            r = evalv(v, {ba: n})
            w = n - 32 if 97 <= n <= 122 else n
            if r is None or (r - w) & 0xff:
                self.bad(I, 'upper', 'a byte digested is not the password character at that position with a to z, and '
                         'nothing else, made upper case' + ('' if r is None else ': %d becomes %d' % (n & 255, r & 255)), st)
                break
        if eng.decide(st, 'ne', b, 0) is not True and eng.decide(st, 'slt', k, MODELS['strlen'](eng, st, I, [src])) is not True:
            self.bad(I, 'past-end', 'characters beyond the end of the password are digested', st)
        self.ok(I, 'copied', (I.fn.name, I.line))
        st.cl = st.cl.set(buf=p.b)
        gset(eng, st, 'k', add(k, 1))

    def whole(self, eng, st, I, k):
        src = self.src(st)
        z = eng.load(st, Ptr(src.b, add(src.o, k)), ity(8))
        return eng.decide(st, 'eq', z, 0) is True or eng.decide(st, 'eq', k, MODELS['strlen'](eng, st, I, [src])) is True

    def on_call(self, eng, st, I, name, args):
        if name == 'toupper':
            return lin(atom(('toupper', args[0]), -128, 255))     # in the C locale, which the program never leaves
        if name == 'digest_to_hex32':
            k = gget(eng, st, 'k')
            p = eng.as_ptr(args[1])
            st.cl = st.cl.set(hex=None)
            good = args[0] == st.frames[0].args[0]
            if not good:
                self.bad(I, 'challenge', 'what is digested is not the challenge given', st)
            elif eng.decide(st, 'eq', p.o, k) is not True or not self.whole(eng, st, I, k):
                self.bad(I, 'challenge', 'the challenge does not directly follow the whole password', st)
            else:
                self.ok(I, 'challenge')
                st.cl = st.cl.set(hex=p.b)
            return MODELS[name](eng, st, I, args)
        if name == 'digest_get':
            k = gget(eng, st, 'k')
            src = self.src(st)
            p = eng.as_ptr(args[0])
            h = st.cl.get('hex')
            n = args[1]
            ln = add(MODELS['strlen'](eng, st, I, [src]), 8)
            if h is None or p.b != h or p.o != 0 or st.cl.get('buf', h) != h:
                self.bad(I, 'digest', 'what is digested is not the password followed by the challenge', st)
            elif eng.decide(st, 'eq', n, ln) is not True and eng.decide(st, 'eq', n, add(k, 8)) is not True:
                self.bad(I, 'digest', 'the digest does not cover exactly the password and the challenge', st)
            elif args[2] != st.frames[0].args[2]:
                self.bad(I, 'digest', 'the digest is not stored as the response', st)
            else:
                self.ok(I, 'digest')
            r = MODELS[name](eng, st, I, args)
            st.cl = st.cl.set(dig=True)
            return r
        return None

    def on_write(self, eng, st, I, p, n, what):
        if st.cl.get('dig') and p.b == st.frames[0].args[2].b:
            self.bad(I, 'overwritten', 'the response is changed after it was computed', st)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        if isneg(eng, st, v) is not True and not st.cl.get('dig'):
            self.bad(I, 'unset', 'success is reported without a response having been computed', st)
        else:
            self.ok(I, 'result', (I.fn.name, isneg(eng, st, v)))


class Digest(DClient):
    """digest_get(data, len, result): one init, the whole data, one final"""
    def start(self, eng, st, fn):
        eng.assume(st, 'sge', st.frames[0].args[1], 0)     # texts below 2 GiB
        return D(s=0, c=None)

    def on_call(self, eng, st, I, name, args):
        a = st.frames[0].args
        s, c = st.cl.get('s'), st.cl.get('c')
        if name == 'MD5_Init':
            st.cl = D(s=1, c=args[0])
        elif name == 'MD5_Update':
            good = s == 1 and args[0] == c and args[1] == a[0] and eng.decide(st, 'eq', args[2], a[1]) is True
            if not good:
                self.bad(I, 'whole', 'the digest is not fed with the whole text given', st)
            st.cl = st.cl.set(s=2 if s == 1 else -1)
        elif name == 'MD5_Final':
            good = s == 2 and args[1] == c and args[0] == a[2]
            if not good:
                self.bad(I, 'whole', 'the digest delivered is not that of the text given', st)
            st.cl = st.cl.set(s=3)
        else:
            return None
        return 0

    def on_return(self, eng, st, I, v):
        if st.cl.get('s') != 3:
            self.bad(I, 'whole', 'the digest computation is incomplete', st)
        else:
            self.ok(I, 'whole')


class Connect(DClient):
    """proxy_client_connect"""
    def start(self, eng, st, fn):
        return D(step=0)

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        if name == 'conn_recv':
            r = MODELS[name](eng, st, I, args)
            for v, s in r:
                if isneg(eng, s, v) is not True:
                    s.cl = s.cl.set(rx=args[1], rxn=args[2]) if c.get('rx') is None else s.cl.set(extra=True)
            return r
        if name == 'hex32_to_digest':
            v = eng.result(st, I)
            if c.get('rx') != args[0] or c.get('rxn') != 8:
                self.bad(I, 'client-challenge', 'the challenge used is not the one received', st)
            else:
                self.ok(I, 'client-challenge')
            st.cl = c.set(nonce=v)
            return v
        if name == 'get_password_response':
            r = MODELS[name](eng, st, I, args)
            pw = fld(eng, st, st.frames[0].args[0], 'proxy_client_handle.password')
            own = null(eng, st, pw)
            good = own is False and args[1] == pw or own is True and strkey(eng, st, args[1]) == b'PUBLIC'
            if not good:
                self.bad(I, 'client-password', 'the password answered with is not the client\'s own (or PUBLIC when it has none)', st)
            else:
                self.ok(I, 'client-password', own)
            if c.get('nonce') is None or args[0] != c.get('nonce'):
                self.bad(I, 'client-challenge', 'the response is not computed for the challenge received', st)
            for v, s in r:
                if isneg(eng, s, v) is not True:
                    s.cl = s.cl.set(resp=args[2])
            return r
        if name == 'conn_send':
            r = MODELS[name](eng, st, I, args)
            k = None
            if c.get('resp') is not None and args[1] == c.get('resp') and args[2] == 16:
                k = 'response'
            elif args[2] == 1 and (eng.load(st, eng.as_ptr(args[1]), ity(8)) == 10):
                k = 'newline'
            elif args[1] == fld(eng, st, st.frames[0].args[0], 'proxy_client_handle.callsign') and args[2] == MODELS['strlen'](eng, st, I, [args[1]]):
                k = 'callsign'
            for v, s in r:
                if isneg(eng, s, v) is not True:
                    s.cl = s.cl.set(sent=s.cl.get('sent', ()) + (k,))
            return r
        return None

    def on_write(self, eng, st, I, p, n, what):
        if st.cl.get('resp') is not None and p.b == st.cl.get('resp').b:
            st.cl = st.cl.set(resp=None)

    def on_store(self, eng, st, I, p, v, size):
        self.on_write(eng, st, I, p, size, 'store')

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or isneg(eng, st, v) is True:
            return
        call = null(eng, st, fld(eng, st, st.frames[0].args[0], 'proxy_client_handle.callsign'))
        want = ('newline', 'response') if call is True else ('callsign', 'newline', 'response')
        if st.cl.get('sent', ()) != want:
            self.bad(I, 'client-login', 'a connect succeeds although what was sent is %s' % (
                ', '.join(str(x) for x in st.cl.get('sent', ())) or 'nothing'), st)
        else:
            self.ok(I, 'client-login', call)


def run(ctx):
    P = ctx.prog
    ctx.run(Response(), P.fn('get_password_response'))
    ctx.run(Digest(), P.fn('digest_get'))
    ctx.run(Connect(), P.fn('proxy_client_connect'))
    if not ctx.viol:
        ctx.need('copied', 1, 'copied characters')
        ctx.need('digest', 1, 'digest')
        ctx.need('whole', 1, 'digest_get')
        ctx.need('client-login', 1, 'client login')
