"""G02: one slot per external address.

proxy_open is analysed with 0..MAXN additional addresses that are all distinct objects; the slots it sets up
are compared with the addresses.  The way of a slot's address to the sockets (proxy_conn_init, conn_listen,
conn_connect) and the refusal of additional addresses (proxy_load_conf) are analysed for every input."""
from .common import *
from .models import set_errno

MAXN = 3


class Open(DClient):
    def __init__(self, n):
        self.n = n
        self.good = 0

    def start(self, eng, st, fn):
        return D(inits=())

    def peel(self, eng, st, hdr):
        return self.n + 2

    def addr(self, i):
        return Ptr(atom(('O', 'ext', i)), 0)

    def setup(self, eng, st):
        p = st.frames[0].args[0]
        L = Ptr(atom(('O', 'extlist')), 0)
        for i in range(self.n):
            eng.store(st, Ptr(L.b, 8 * i), 8, self.addr(i))
        eng.store(st, lv(eng, p, 'proxy_handle.conf.proxy_conf.bind_addr_ext_add'), 8, L if self.n else 0)
        eng.store(st, lv(eng, p, 'proxy_handle.conf.proxy_conf.bind_addr_ext_add_len'), 2, self.n)
        self.first = eng.load(st, lv(eng, p, 'proxy_handle.conf.proxy_conf.bind_addr_ext'), pty())

    def priv(self, eng, st):
        return eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv'))

    def want(self, i):
        return self.first if i == 0 else self.addr(i - 1)

    def name(self, i):
        return 'the external address' if i == 0 else 'additional address %d' % i

    def slot(self, eng, st, I, p, when):
        """the slot at p has the address of its position"""
        arr = eng.load(st, lv(eng, self.priv(eng, st), 'proxy_priv.clients'), pty())
        sz = eng.prog.sizes['proxy_conn_handle']
        p = eng.as_ptr(p)
        if not isinstance(arr, Ptr) or p.b != arr.b or not isinstance(p.o, int) or (p.o - arr.o) % sz:
            return None
        i = (p.o - arr.o) // sz
        if i > self.n:
            self.bad(I, 'slots', 'slot %d is set up although there are only %d external addresses' % (i + 1, self.n + 1), st)
            return None
        v = eng.load(st, lv(eng, p, 'proxy_conn_handle.source_addr'), pty())
        w = self.want(i)
        inst = (self.n, i, when)
        if v == w or eng.decide(st, 'eq', v, w) is True:
            self.ok(I, 'address', inst)
        else:
            self.bad(I, 'address', 'with %d additional addresses slot %d %s not bound to %s' % (
                self.n, i + 1, when, self.name(i)), st, inst)
        return i

    def on_call(self, eng, st, I, name, args):
        if name == 'proxy_conn_init':
            i = self.slot(eng, st, I, args[0], 'is set up')
            if i is not None:
                st.cl = st.cl.set(inits=st.cl.get('inits') + (i,))
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or isneg(eng, st, v) is True:
            return
        self.good += 1
        b = self.priv(eng, st)
        n = eng.load(st, lv(eng, b, 'proxy_priv.num_clients'), ity(32))
        inst = (self.n, 'number')
        if eng.decide(st, 'eq', n, self.n + 1) is not True:
            self.bad(I, 'slots', 'with %d additional addresses the proxy does not open with %d slots' % (
                self.n, self.n + 1), st, inst)
            return
        if sorted(st.cl.get('inits')) != list(range(self.n + 1)):
            self.bad(I, 'slots', 'with %d additional addresses not every slot is set up exactly once' % self.n, st, inst)
            return
        self.ok(I, 'slots', inst)
        arr = eng.as_ptr(eng.load(st, lv(eng, b, 'proxy_priv.clients'), pty()))
        sz = eng.prog.sizes['proxy_conn_handle']
        for i in range(self.n + 1):
            self.slot(eng, st, I, Ptr(arr.b, add(arr.o, sz * i)), 'ends up')


class Slot(DClient):
    """proxy_conn: the three sockets of a slot have the slot's address and their own ports"""
    WANT = {'conn_control': ('source_addr', 'control_port'), 'conn_data': ('source_addr', 'data_port'),
            'conn_tcp': ('source_addr', None)}

    def start(self, eng, st, fn):
        return D()

    def on_store(self, eng, st, I, p, v, size):
        if p.tag == ('proxy_conn_handle', 'source_addr') or \
                p.tag == ('conn_handle', 'source_addr') and st.frames[0].fn.name != 'proxy_conn_init':
            self.bad(I, 'kept', 'the address of a slot is changed after it was set up', st)

    def on_return(self, eng, st, I, v):
        if st.frames[0].fn.name != 'proxy_conn_init' or isinstance(v, tuple) or isneg(eng, st, v) is True:
            return
        h = st.frames[0].args[0]
        b = eng.as_ptr(fld(eng, st, h, 'proxy_conn_handle.priv'))
        for f, (a, port) in self.WANT.items():
            for dst, src in (('source_addr', a), ('source_port', port)):
                x = eng.load(st, lv(eng, b, 'proxy_conn_priv.%s.conn_handle.%s' % (f, dst)), pty())
                y = 0 if src is None else fld(eng, st, h, 'proxy_conn_handle.' + src)
                if src is None:
                    # an unset or a wild-card port
                    if x == 0 or eng.decide(st, 'eq', x, 0) is True:
                        self.ok(I, 'socket', (f, dst))
                        continue
                elif eng.decide(st, 'eq', x, y) is True:
                    self.ok(I, 'socket', (f, dst))
                    continue
                self.bad(I, 'socket', '%s does not get the %s of its slot' % (f, dst), st, (f, dst))


class Bind(DClient):
    """conn_listen, conn_connect: the socket is bound to what source_addr and source_port resolve to"""
    def start(self, eng, st, fn):
        return D(res=None, bound=())

    def on_call(self, eng, st, I, name, args):
        h = st.frames[0].args[0]
        if name == 'getaddrinfo':
            r = eng.models[name](eng, st, I, args)
            a = fld(eng, st, h, 'conn_handle.source_addr')
            p = fld(eng, st, h, 'conn_handle.source_port')
            out = []
            if eng.decide(st, 'eq', args[0], a) is True and null(eng, st, a) is not False:
                # without AI_PASSIVE an unset address is the loopback address
                hp = args[2]
                fl = 0 if null(eng, st, hp) is True else eng.load(st, lv(eng, eng.as_ptr(hp), 'addrinfo.ai_flags'), ity(32))
                if not isinstance(fl, int) or not fl & 1:
                    self.bad(I, 'any', 'an unset address is not taken as every local address', st, I.fn.name)
                else:
                    self.ok(I, 'any', I.fn.name)
            for v, s in r:
                if v == 0:
                    res = eng.load(s, eng.as_ptr(args[3]), pty())
                    s2 = s.copy()
                    mine = eng.decide(s, 'eq', args[0], a) is True
                    if mine:
                        z = eng.decide(s, 'eq', p, 0)
                        if z is True or args[1] != p:
                            # only a wild-card port may stand for an unset one
                            mine = z is True and strkey(eng, s, args[1]) in (b'0', 0) or args[1] == p
                    if mine:
                        s.cl = s.cl.set(res=res)
                out.append((v, s))
            return out
        if name == 'bind':
            ok = False
            res = st.cl.get('res')
            if res is not None and isinstance(args[1], Ptr):
                # ai_addr of the lookup of the source address
                x = eng.load(st, lv(eng, res, 'addrinfo.ai_addr'), pty())
                ok = eng.decide(st, 'eq', args[1], x) is True
            if not ok:
                self.bad(I, 'bind', 'a socket is bound to something other than the address of its handle', st)
            else:
                self.ok(I, 'bind')
            r = eng.models[name](eng, st, I, args)
            s2 = st.copy()
            set_errno(eng, s2, I)
            st.cl = st.cl.set(bound=st.cl.get('bound') + (args[0],) if ok else ())
            return [(0, st), (-1, s2)]
        if name in ('connect', 'listen'):
            inst = (I.fn.name, name)
            if not any(eng.decide(st, 'eq', args[0], x) is True for x in st.cl.get('bound')):
                self.bad(I, 'bound', 'a socket is used by %s without having been bound to its address' % name, st, inst)
            else:
                self.ok(I, 'bound', inst)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or isneg(eng, st, v) is True or eng.decide(st, 'eq', v, 0) is False:
            return
        if not st.cl.get('bound'):
            self.bad(I, 'bound', '%s succeeds without binding to the address of the handle' % st.frames[0].fn.name, st)
        else:
            self.ok(I, 'bound', (st.frames[0].fn.name, 'return'))


class Refuse(DClient):
    """proxy_load_conf: the outcome of reading the file is handed on; additional addresses need a specific
    external address"""
    def start(self, eng, st, fn):
        return D(load=None, any=None)

    def conf(self, eng, st, f):
        return fld(eng, st, st.frames[0].args[0], 'proxy_handle.conf.proxy_conf.' + f)

    def on_call(self, eng, st, I, name, args):
        if name == 'conf_parse_file':
            p = lv(eng, eng.as_ptr(st.frames[0].args[0]), 'proxy_handle.conf')
            q = eng.as_ptr(args[1])
            if q.b != p.b or eng.decide(st, 'eq', q.o, p.o) is not True:
                self.bad(I, 'load', 'the configuration is read into something other than the handle', st)
            if eng.decide(st, 'eq', args[0], st.frames[0].args[1]) is not True:
                self.bad(I, 'load', 'a file other than the given one is read', st)
            out = []
            s2 = st.copy()
            e = eng.fresh(s2, ('loaderr',), -4095, -1)
            s2.cl = s2.cl.set(load='err')
            out.append((lin(e), s2))
            for add in (False, True):
                for ext in ('unset', 'any', 'own'):
                    s = st.copy()
                    b = eng.as_ptr(s.frames[0].args[0])
                    def put(f, n, v):
                        eng.store(s, lv(eng, b, 'proxy_handle.conf.proxy_conf.' + f), n, v)
                    put('bind_addr_ext_add', 8, Ptr(atom(('O', 'extlist')), 0) if add else 0)
                    put('bind_addr_ext_add_len', 2, lin(atom(('cfg', 'extlen'), 1, 65535)) if add else 0)
                    t = Ptr(atom(('O', 'exttext', ext)), 0)
                    if ext == 'any':
                        for i, c in enumerate(b'0.0.0.0\0'):
                            eng.store(s, Ptr(t.b, i), 1, c)
                    elif ext == 'own':
                        # any specific address: not the text 0.0.0.0
                        for i in range(15):
                            eng.store(s, Ptr(t.b, i), 1, lin(atom(('cfg', 'own', i), 49, 57)))
                        eng.store(s, Ptr(t.b, 15), 1, 0)
                    put('bind_addr_ext', 8, 0 if ext == 'unset' else t)
                    s.cl = s.cl.set(load='ok', any=(add, ext))
                    out.append((0, s))
            return out
        if name in ('strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'bcmp', 'strlen', 'strchr', 'strspn', 'strcspn'):
            from .conftext import Text
            t = Text([], None, 'load')
            if name in ('strchr', 'strspn', 'strcspn', 'strlen'):
                return t.on_call(eng, st, I, name, args)
            return t.compare(eng, st, I, name, args)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        neg = isneg(eng, st, v)
        ld = st.cl.get('load')
        if ld is None:
            self.bad(I, 'load', 'loading returns without having read the configuration', st)
        elif ld == 'err':
            if neg is not True:
                self.bad(I, 'load', 'a configuration that cannot be read is accepted', st)
            else:
                self.ok(I, 'load', 'err')
        else:
            add, ext = st.cl.get('any')
            want = add and ext != 'own'
            inst = ('conf', add, ext)
            if neg is not want:
                self.bad(I, 'specific', 'additional external addresses are %s %s' % (
                    'accepted' if want else 'refused' if add else 'missing, and the configuration is refused',
                    {'unset': 'without an external bind address', 'any': 'with the unspecific address 0.0.0.0',
                     'own': 'with a specific external address'}[ext]), st, inst)
            else:
                self.ok(I, 'specific', inst)


def g02(ctx):
    P = ctx.prog
    for n in range(MAXN + 1):
        c = Open(n)
        ctx.run(c, P.fn('proxy_open'), unroll=40, setup=c.setup)
        if not c.good and not ctx.viol:
            ctx.errors.append('proxy_open never succeeds with %d additional addresses' % n)
    for f in entries(P, ('proxy_conn',)):
        ctx.run(Slot(), f, limit=160)
    for n in ('conn_listen', 'conn_connect'):
        ctx.run(Bind(), P.fn(n))
    ctx.run(Refuse(), P.fn('proxy_load_conf'))


class Load(Refuse):
    def bad(self, I, rule, msg, st=None, inst=None):
        if rule == 'load':
            Refuse.bad(self, I, rule, msg, st, inst)

    def ok(self, I, rule, inst=None):
        if rule == 'load':
            Refuse.ok(self, I, rule, inst)


def load(ctx):
    """G01: failure to load the configuration is handed on"""
    ctx.run(Load(), ctx.prog.fn('proxy_load_conf'))
