"""A01: must-pass-through typestate from accept to slot grant with byte provenance."""
from collections import namedtuple
from ..common import *

S = namedtuple('S', 'nonce sent pos conn resp auth')
LEN = 16


class Auth(Client):
    def __init__(self):
        self.pwtags = set()
        self.grants = 0
        self.granted_ok = 0

    def start(self, eng, st, fn):
        return S(None, None, 0, None, None, None)

    def atoms(self, eng, st, live):
        c = st.cl
        for x in (c.nonce, c.sent):
            if x is not None:
                vatoms(x, live)
        for k in st.facts:
            if isinstance(k[0], tuple):
                for a, _ in k:
                    d = adesc(a)
                    if d[0] == 'zx':
                        d = adesc(d[2])
                    if d[0] == 'blob' and adesc(d[1])[0] in ('stream', 'respof'):
                        live.add(a)

    def on_load(self, eng, st, I, p):
        if p.tag == ('proxy_conf', 'password'):
            v = eng.load(st, p, I.ty)
            if isinstance(v, Ptr):
                self.pwtags.add(v.b)
            return v
        return None

    def bytes_at(self, eng, st, p, n):
        t = byte_ty()
        return [eng.load(st, Ptr(p.b, add(p.o, i)), t) for i in range(n)]

    def on_call(self, eng, st, I, name, args):
        c = st.cl
        ctx = self.ctx
        if name == 'get_nonce':
            r = MODELS[name](eng, st, I, args)
            for v, s in r:
                if v == 0 and isinstance(v, int):
                    p = eng.as_ptr(args[0])
                    val = eng.load(s, p, _i32())
                    s.cl = s.cl._replace(nonce=val)
            return r
        if name == 'digest_to_hex32':
            p = eng.as_ptr(args[1])
            eng.blob(st, p, 8, 'data', atom(('hex32of', args[0])))
            return 0
        if name == 'get_password_response':
            r = MODELS[name](eng, st, I, args)
            for v, s in r:
                if v == 0 and isinstance(v, int):
                    p = eng.as_ptr(args[2])
                    pw = args[1]
                    ispw = isinstance(pw, Ptr) and pw.o == 0 and pw.b in self.pwtags
                    eng.blob(s, p, LEN, 'data', atom(('respof', args[0], ispw)))
            return r
        if name == 'conn_send':
            r = MODELS[name](eng, st, I, args)
            bs = self.bytes_at(eng, st, eng.as_ptr(args[1]), 8) if args[2] == 8 else None
            for v, s in r:
                if self.failed(v):
                    continue
                if bs is not None and s.cl.nonce is not None:
                    want = atom(('hex32of', s.cl.nonce))
                    if all(b == lin(atom(('blob', want, i), -128, 127)) for i, b in enumerate(bs)):
                        s.cl = s.cl._replace(sent=s.cl.nonce, conn=args[0])
            return r
        if name == 'conn_recv':
            r = MODELS[name](eng, st, I, args)
            for v, s in r:
                if self.failed(v):
                    continue
                n, p = args[2], eng.as_ptr(args[1])
                same = s.cl.conn is None or s.cl.conn == args[0]
                if not isinstance(n, int) or s.cl.pos is None or not same:
                    s.cl = s.cl._replace(pos=None)
                else:
                    eng.blob(s, p, n, 'data', atom(('stream', s.cl.pos)))
                    s.cl = s.cl._replace(pos=s.cl.pos + n, conn=args[0])
            return r
        if name == 'proxy_authorize_callsign':
            r = MODELS[name](eng, st, I, args)
            out = []
            for v, s in r:
                if v == 1:
                    p = eng.as_ptr(args[1])
                    s.cl = s.cl._replace(auth=tuple(self.bytes_at(eng, s, p, 12)))
                out.append((v, s))
            return out
        if name == 'proxy_conn_accept':
            self.grant(eng, st, I, args)
        if name == 'mutex_lock' and False:
            pass
        return None

    @staticmethod
    def failed(v):
        if isinstance(v, Lin) and len(v.t) == 1:
            return adesc(v.t[0][0])[0] == 'err'
        return False

    def stream(self, i, pos=None):
        return None

    def grant(self, eng, st, I, args):
        ctx, c = self.ctx, st.cl
        self.grants += 1
        ctx.grant_sites.add((I.fn.name, I.id))

        def bad(rule, msg):
            ctx.violation(I, rule, msg, st)
            ctx.obligation(rule, (I.fn.name, I.line), False)
        ok = True
        if c.nonce is None:
            bad('challenge-drawn', 'a slot is requested on a path on which no challenge was drawn')
            ok = False
        elif c.sent is None or c.sent != c.nonce:
            bad('challenge-sent', 'a slot is requested although the challenge drawn was not sent to the client as its 8 hex digits')
            ok = False
        if c.conn is None or args[1] != c.conn:
            bad('same-connection', 'the connection given the slot is not the one that was authenticated')
            ok = False
        if not ok:
            return
        # where is the newline?
        segs = {}
        resp = {}
        eqs = {}
        for k, f in st.facts.items():
            if not isinstance(k[0], tuple):
                continue
            ids = [(self.origin(a), co) for a, co in k]
            if len(ids) == 1 and ids[0][0] and ids[0][0][0] == 's' and f[0] == f[1]:
                segs[ids[0][0][1]] = f[0]
            if len(ids) == 2 and ids[0][0] and ids[1][0] and f[0] == f[1] == 0:
                kinds = {ids[0][0][0]: ids[0][0], ids[1][0][0]: ids[1][0]}
                if set(kinds) == {'s', 'r'}:
                    eqs.setdefault(kinds['r'][1:], set()).add(kinds['s'][1])
        cand = [k for k, v in segs.items() if v == 10 and 0 <= k <= 10]
        good = False
        missing = None
        for k in cand:
            miss = [j for j in range(LEN) if (k + 1 + j) not in eqs.get((c.sent, True, j), ())]
            if not miss:
                good = True
                nl = k
                break
            missing = (k, miss)
        if not good:
            if not cand:
                bad('callsign-terminated', 'a slot is requested although no newline was found at stream position 0..10')
            else:
                bad('response-compared', 'a slot is requested although response byte(s) %s were not found equal to the bytes after the callsign (newline at %d), or were derived from another challenge or password' % (missing[1], missing[0]))
            return
        ctx.obligation('response-compared', (I.fn.name, I.line, 'newline at %d' % nl))
        if c.auth is None:
            bad('callsign-authorised', 'a slot is requested although the callsign was not accepted by the access lists on this path')
            return
        want = [self.satom(c, i) for i in range(nl)] + [0]
        au = list(c.auth[:nl + 1])
        if [self.norm(x) for x in au] != [('s', i) for i in range(nl)] + [0]:
            bad('callsign-authorised', 'the text checked against the access lists is not the callsign received (newline at %d)' % nl)
            return
        got = self.bytes_at(eng, st, eng.as_ptr(args[2]), nl + 1)
        if [self.norm(x) for x in got] != [('s', i) for i in range(nl)] + [0]:
            bad('callsign-same', 'the slot is requested under a callsign different from the one that was checked')
            return
        ctx.obligation('callsign-authorised', (I.fn.name, I.line, 'newline at %d' % nl))
        self.granted_ok += 1

    def satom(self, c, i):
        return None

    def norm(self, v):
        if isinstance(v, Lin) and len(v.t) == 1 and v.k == 0:
            o = self.origin(v.t[0][0])
            if o and o[0] == 's':
                return o
        return v

    def origin(self, a):
        """('s', stream index) | ('r', nonce, from configured password, index) | None"""
        d = adesc(a)
        if d[0] == 'zx':
            d = adesc(d[2])
        if d[0] != 'blob' or not isinstance(d[2], int):
            return None
        b = adesc(d[1])
        if b[0] == 'stream':
            return ('s', b[1] + d[2])
        if b[0] == 'respof':
            return ('r', b[1], b[2], d[2])
        return None


def _i32():
    t = ir.Ty()
    t.kind, t.bits, t.size, t.name = 'int', 32, 4, None
    return t


class Nonce(Client):
    """the challenge source must deliver the generator's output of this very call"""
    def __init__(self, source, what):
        self.source, self.what = source, what

    def on_return(self, eng, st, I, v):
        r = eng.rng(st, v)
        if r[1] < 0:
            return
        f = st.frames[0].fn
        val = eng.load(st, eng.as_ptr(st.frames[0].args[0]), _i32())
        s = set()
        vatoms(val, s)
        ok = False
        work, seen = list(s), set()
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            d = adesc(a)
            if d[0] in self.source:
                ok = True
            work.extend(eng.subatoms(a))
        self.ctx.obligation('challenge-fresh', (f.name, I.line), ok)
        if not ok:
            self.ctx.violation(I, 'challenge-fresh', '%s reports success without delivering %s' % (f.name, self.what), st)


def run(ctx):
    prog = ctx.prog
    ctx.grant_sites = set()
    cbs = [f for f in func_of_callbacks(prog) if 'proxy_conn_accept' in reach(prog, f)[1]]
    if not cbs:
        raise ir.AnalysisError('no worker callback that requests a slot was found')
    total = 0
    for f in cbs:
        c = Auth()
        ctx.run(c, f, unroll=64, limit=400)
        total += c.granted_ok
    sites = calls_in(prog, 'proxy_conn_accept')
    for s in sites:
        ok = (s.fn.name, s.id) in ctx.grant_sites
        ctx.obligation('who-may-grant', (s.fn.name, s.line), ok)
        if not ok:
            ctx.violation(s, 'who-may-grant', 'a slot is requested outside the authenticated session path')
    if not ctx.viol:
        ctx.need('response-compared', 1, 'slot grants with a checked response')
        ctx.need('callsign-authorised', 1, 'slot grants with an authorised callsign')
    ctx.run(Nonce(('rand',), 'a value of the random generator'), prog.fn('get_nonce'))
    ctx.run(Nonce(('ret', 'wr', 'rx'), 'a freshly generated value'), prog.fn('rand_get'))
    ctx.need('challenge-fresh', 1, 'challenge source and generator')
