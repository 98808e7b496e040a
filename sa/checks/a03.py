"""A03: on every path that keeps a configured password it was compared with the placeholder and differs,
refusals propagate to the caller of the loader, and the listener opens only with a password."""
from ..common import *
from .. import status as S

PLACE = b'notset'
CMPS = {'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'bcmp'}


class Pair(DClient):
    """the function that stores the password setting; its value argument is a text with a length"""
    def start(self, eng, st, fn):
        return D(pw=None, chk=None)

    def kind(self, eng, st, p, name, n):
        """does a difference found by this comparison mean the setting is not the placeholder?"""
        a = st.frames[0].args
        pn = list(st.frames[0].fn.pnames)
        if st.cl.get('pw') is not None and p == st.cl.get('pw'):
            return name in ('strcmp', 'strcasecmp') or isinstance(n, int) and (
                n >= 6 if name.startswith('str') else n <= 7)
        return n == 6 or any(n == x for x in a)

    def on_call(self, eng, st, I, name, args):
        if name not in CMPS:
            return None
        ks = [self.text(eng, st, x) for x in args[:2]]
        if PLACE not in ks:
            return None
        other = eng.as_ptr(args[0] if ks[1] == PLACE else args[1])
        s2 = st.copy()
        k = self.kind(eng, st, other, name, args[2] if len(args) > 2 else None)
        self.ok(I, 'compare')
        st.cl = st.cl.set(chk=(other, 'same', k))
        s2.cl = s2.cl.set(chk=(other, 'differs', k))
        nz = eng.fresh(s2, ('cmpnz',) + eng.site(s2, I))
        eng.assume(s2, 'ne', lin(nz), 0)
        return [(0, st), (lin(nz), s2)]

    def text(self, eng, st, p):
        k = strkey(eng, st, p)
        return k if isinstance(k, bytes) else None

    def on_store(self, eng, st, I, p, v, size):
        if p.tag == ('proxy_conf', 'password'):
            n = null(eng, st, v)
            st.cl = st.cl.set(pw=None if n is True else v)
        else:
            self.touch(st, p)

    def on_write(self, eng, st, I, p, n, what):
        self.touch(st, p)

    def touch(self, st, p):
        c = st.cl.get('chk')
        if c and c[0].b == p.b:
            st.cl = st.cl.set(chk=None)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        n = isneg(eng, st, v)
        c = st.cl.get('chk')
        pw = st.cl.get('pw')
        if n is True:
            if pw is not None or c:
                self.ok(I, 'kept', (I.fn.name, 'refused'))
            return
        short = isinstance(pw, Ptr) and pw.b in eng.heapsize and eng.decide(st, 'ne', eng.heapsize[pw.b], 7) is True
        if c is not None and c[1] == 'same' and not short:
            self.bad(I, 'placeholder', 'the placeholder password is not refused', st)
        elif pw is None:
            return
        elif c is not None and c[2]:
            self.ok(I, 'kept', (I.fn.name, 'differs'))
        elif short:
            self.ok(I, 'kept', (I.fn.name, 'length'))
        else:
            self.bad(I, 'placeholder', 'a password is kept without having been told apart from the placeholder', st)


class Chain(S.Steps):
    def essential(self, eng, st, I, name, args):
        g = eng.resolve(st, I)
        f = eng.prog.funcs.get(g)
        return f is not None and f.module == 'conf' and name != 'conf_free'

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or v is None:
            return
        f = st.cl.get('f')
        if f and isneg(eng, st, v) is not True:
            self.bad(I, 'propagate', 'a refused configuration (%s failed) is reported as loaded' % f[0][0], st)
        elif f:
            self.ok(I, 'propagate', (I.fn.name, f[0][0]))


class Open(DClient):
    """proxy_open"""
    def start(self, eng, st, fn):
        return D(up=False)

    def pw(self, eng, st):
        return null(eng, st, fld(eng, st, st.frames[0].args[0], 'proxy_handle.conf.proxy_conf.password'))

    def listener(self, eng, st, p):
        q = fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv')
        return eng.as_ptr(p) == lv(eng, q, 'proxy_priv.conn_listen')

    def on_call(self, eng, st, I, name, args):
        if name == 'conn_listen':
            if self.pw(eng, st) is not False:
                self.bad(I, 'listen', 'the proxy starts listening although no password may be configured', st)
            self.ok(I, 'listen')
            s2 = st.copy()
            st.cl = st.cl.set(up=True)
            e = eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)
            return [(0, st), (lin(e), s2)]
        if name in ('conn_close', 'conn_free') and self.listener(eng, st, args[0]) or name in ('proxy_close', 'proxy_free'):
            st.cl = st.cl.set(up=False)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        n = isneg(eng, st, v)
        if n is not True and self.pw(eng, st) is not False:
            self.bad(I, 'no-password', 'opening succeeds although no password may be configured', st)
        elif n is not False and st.cl.get('up'):
            self.bad(I, 'left-listening', 'a failed open leaves the proxy listening', st)
        else:
            self.ok(I, 'open', n)


class Init(DClient):
    """conf_init"""
    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or isneg(eng, st, v) is True:
            return
        if null(eng, st, fld(eng, st, st.frames[0].args[0], 'proxy_conf.password')) is not True:
            self.bad(I, 'initial', 'a fresh configuration may carry a password', st)
        else:
            self.ok(I, 'initial')


def field_uses(P, struct, field):
    """address computations of struct.field: (instruction, stored to directly)"""
    out = []
    for f in P.allf:
        geps = {i.id: i for b in f.blocks for i in b.insts if i.op == 'gep' and i.x[2] and i.x[2][-1][0] == struct
                and P.structs[struct].get(i.x[2][-1][1], ('',))[0] == field}
        stored = {i.args[1][1] for b in f.blocks for i in b.insts if i.op == 'store' and i.args[1][0] == 'v'}
        loads = {i.args[0][1] for b in f.blocks for i in b.insts if i.op == 'load' and i.args[0][0] == 'v'}
        for k, g in geps.items():
            out.append((g, k in stored or k not in loads))
    return out


def run(ctx):
    P = ctx.prog
    # functions that store the password: analysed as entries of their own
    ent = []
    for i, w in field_uses(P, 'proxy_conf', 'password'):
        f = i.fn
        if not w:
            continue
        good = f.module == 'conf'
        ctx.obligation('who-sets', (f.name, i.line), good)
        if not good:
            ctx.violation(i, 'who-sets', 'the password is set outside the configuration module')
        elif f.ret.kind == 'int' and f not in ent and not f.boundary:
            ent.append(f)
    # the setting table judges helpers it calls as well
    for f in P.allf:
        if f.module == 'conf' and f.internal and f not in ent and f.ret.kind == 'int' and len(f.params) >= 5 and any(
                e in reach(P, f)[0] for e in ent):
            ent.append(f)
    for f in ent:
        ctx.run(Pair(), f)
    ctx.run(Init(), P.fn('conf_init'))
    for f in P.allf:
        if f.ret.kind == 'int' and (f.module == 'conf' and (f.boundary or S.big(P, f)) or f.name == 'proxy_load_conf'):
            ctx.run(Chain(), f)
    ctx.run(Open(), P.fn('proxy_open'), limit=400)
    _, names = reach(P, P.fn('proxy_load_conf'))
    bad = names & {'conn_listen', 'listen', 'proxy_open', 'proxy_start'}
    ctx.obligation('load-listens', 'proxy_load_conf', not bad)
    if bad:
        ctx.violation(P.fn('proxy_load_conf'), 'load-listens', 'loading a configuration can open the listener')
    if not ctx.viol:
        ctx.need('kept', 1, 'stored passwords')
        ctx.need('listen', 1, 'listener')
        ctx.need('propagate', 1, 'propagated refusals')
