"""Shared by all checks: reporting, guard tables, entry points, lock-aware client."""
import os, sys, time, json
from . import ir
from .engine import *
from .models import *

# lock field -> fields it protects.  (struct, mutex field): [(struct, field) ...]
GUARDS = {
    ('conn_priv', 'mutex'): [('conn_priv', 'sock_fd'), ('conn_priv', 'conn_fd'), ('conn_priv', 'fd')],
    ('proxy_priv', 'usable_clients_mutex'): [('proxy_priv', 'usable_clients')],
    ('proxy_priv', 'idle_clients_mutex'): [('proxy_priv', 'idle_clients_head'), ('proxy_priv', 'idle_clients_tail_ptr'),
                                          ('proxy_priv', 'clients_by_call'), ('proxy_conn_handle', 'next'),
                                          ('proxy_conn_handle', 'prev_ptr')],
    ('proxy_priv', 'idle_workers_mutex'): [('proxy_priv', 'idle_workers_head'), ('proxy_worker', 'next')],
    ('proxy_worker', 'mutex'): [('proxy_worker', 'conn_client')],
    ('proxy_conn_priv', 'mutex_client'): [('proxy_conn_priv', 'conn_client'), ('proxy_conn_priv', 'callsign')],
    ('worker_priv', 'mutex'): [('worker_priv', 'state')],
    ('registration_service_priv', 'mutex'): [('registration_service_priv', 'status'),
                                             ('registration_service_priv', 'slots_used'),
                                             ('registration_service_priv', 'slots_total')],
    ('thread_priv', 'mutex'): [('thread_priv', 'dirty')],
}
GUARD_OF = {f: m for m, fs in GUARDS.items() for f in fs}
LOCK = {'mutex_lock': 'x', 'mutex_lock_shared': 's'}
UNLOCK = {'mutex_unlock': 'x', 'mutex_unlock_shared': 's'}


class Ctx:
    def __init__(self, prog, prop, tier='quick', seed=1):
        self.prog, self.prop, self.tier, self.seed = prog, prop, tier, seed
        self.viol = {}
        self.obl = {}
        self.analysed = {}
        self.notes = []
        self.samples = []
        self.errors = []
        self.assumptions = []

    def rel(self, fn):
        return os.path.relpath(fn.file, self.prog.repo)

    def violation(self, I, rule, msg, st=None, key=None):
        """I: an instruction, function, or (file, line, fn) triple"""
        if isinstance(I, tuple):
            f, line, fn = I
        elif hasattr(I, 'fn'):
            f, line, fn = self.rel(I.fn), I.line, I.fn.name
        else:
            f, line, fn = self.rel(I), I.line, I.name
        k = key or (rule, f, fn, msg)
        if k not in self.viol:
            self.viol[k] = {'rule': rule, 'file': f, 'line': line, 'function': fn, 'message': msg,
                            'path': trace_lines(st) if st is not None else '',
                            'stack': [(x.fn.name, x.ret.line if x.ret else None) for x in st.frames] if st is not None else []}

    def obligation(self, rule, inst, ok=True):
        """one rule instance; counted once per distinct instance"""
        d = self.obl.setdefault(rule, {})
        d[inst] = d.get(inst, True) and ok

    def need(self, rule, n, what):
        """the rule must have had at least n instances, otherwise the analysis is broken"""
        if len(self.obl.get(rule, {})) < n:
            self.errors.append('rule %s matched %d instances, expected at least %d (%s)' % (
                rule, len(self.obl.get(rule, {})), n, what))

    def run(self, client, fn, **kw):
        opts = {k: kw.pop(k) for k in ('unroll', 'limit', 'max_steps', 'inline') if k in kw}
        client.ctx = self
        e = Engine(self.prog, client, **opts)
        e.run(fn, **kw)
        a = self.analysed.setdefault(fn.name, {'file': self.rel(fn), 'states': 0, 'exits': 0, 'joins': 0})
        a['states'] += e.nstates
        a['exits'] += len(e.exits)
        a['joins'] += e.merged + e.widened
        self.unmod = getattr(self, 'unmod', {})
        for k, v in e.unmodelled.items():
            if k not in self.prog.funcs:
                self.unmod[str(k)] = len(v)
        return e


def entries(prog, modules=None):
    """functions other threads, modules or users can enter"""
    out = []
    for f in prog.allf:
        if modules and f.module not in modules:
            continue
        if f.boundary or f.addr_taken or f.name == 'main':
            out.append(f)
    return out


def calls_in(prog, name, module=None):
    """all direct call sites of name in the program"""
    out = []
    for f in prog.allf:
        if module and f.module != module:
            continue
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'call' and i.x[0] == 'f':
                    g = i.x[1]
                    if (g if isinstance(g, str) else g[1]) == name:
                        out.append(i)
    return out


def callees(prog, f):
    out = set()
    for b in f.blocks:
        for i in b.insts:
            if i.op == 'call':
                out.update(targets(prog, i))
    return out


def targets(prog, i):
    """what a call may reach: the named function, or every function of that shape in the module's tables"""
    if i.x[0] == 'f':
        return [i.x[1]]
    return [(f.module, f.name) for f in prog.allf if f.tabled and f.module == i.fn.module and len(f.params) == len(i.args)]


def reach(prog, f, stop=()):
    """functions reachable from f through direct calls"""
    seen, work = set(), [f]
    names = set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for g in callees(prog, x):
            names.add(g if isinstance(g, str) else g[1])
            h = prog.funcs.get(g)
            if h is not None and h.name not in stop:
                work.append(h)
    return seen, names


def callback_slots(prog, struct='worker_handle', field='func_ptr'):
    """((struct, field) of the worker or None, function): functions whose address reaches a callback slot,
    by a direct store or handed to an operation that stores its parameter there"""
    off = prog.off(struct, field)
    out = []

    def geps(f):
        return {i.id: i for b in f.blocks for i in b.insts if i.op == 'gep'}

    def slot(f, gs, v):
        """which field the object at v is: (tag, None), or (None, parameter number)"""
        if v[0] != 'v':
            return None, None
        for n, p in enumerate(f.params):
            if p[0] == v[1]:
                return None, n
        g = gs.get(v[1])
        if g is None or not g.x[2]:
            return None, None
        s, o = g.x[2][-1][0], g.x[2][-1][1]
        fl = prog.structs.get(s, {}).get(o)
        return ((s, fl[0]) if fl else None), None
    pending = []                # (function, parameter that is stored, tag, parameter that holds the slot)
    for f in prog.allf:
        gs = geps(f)
        par = {p[0]: n for n, p in enumerate(f.params)}
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'store' or i.args[1][0] != 'v':
                    continue
                g = gs.get(i.args[1][1])
                if g is None or not g.x[2] or g.x[2][-1][:2] != (struct, off):
                    continue
                if len(g.x[2]) > 1:
                    s, o = g.x[2][-2][0], g.x[2][-2][1]
                    fl = prog.structs.get(s, {}).get(o)
                    t = ((s, fl[0]) if fl else None), None
                else:
                    t = slot(f, gs, g.args[0])
                if i.args[0][0] == 'f':
                    h = prog.funcs.get(i.args[0][1])
                    if h is not None and (t[0], h) not in out:
                        out.append((t[0], h))
                    if h is not None and t[1] is not None:
                        pending.append((f, h, t))
                elif i.args[0][0] == 'v' and i.args[0][1] in par:
                    pending.append((f, par[i.args[0][1]], t))
    done = []
    while pending:
        k = pending.pop()
        if k in done:
            continue
        done.append(k)
        f, what, (tag, sp) = k
        for c in prog.allf:
            gs = None
            for b in c.blocks:
                for i in b.insts:
                    if i.op != 'call' or i.x[0] != 'f' or prog.funcs.get(i.x[1]) is not f:
                        continue
                    if gs is None:
                        gs = geps(c)
                        par = {p[0]: n for n, p in enumerate(c.params)}
                    t = (tag, None) if sp is None else slot(c, gs, i.args[sp]) if sp < len(i.args) else (None, None)
                    v = what
                    if isinstance(what, int):
                        x = i.args[what] if what < len(i.args) else None
                        if x is not None and x[0] == 'f':
                            v = prog.funcs.get(x[1])
                        elif x is not None and x[0] == 'v' and x[1] in par:
                            v = par[x[1]]
                        else:
                            continue
                    if isinstance(v, int):
                        pending.append((c, v, t))
                    elif v is not None:
                        if (t[0], v) not in out:
                            out.append((t[0], v))
                        if t[1] is not None:
                            pending.append((c, v, t))
    known = {h for t, h in out if t is not None}
    return [(t, h) for t, h in out if t is not None or h not in known]


def func_of_callbacks(prog, struct='worker_handle', field='func_ptr'):
    """functions whose address is stored into a callback slot"""
    out = []
    for _, h in callback_slots(prog, struct, field):
        if h not in out:
            out.append(h)
    return out


def deref(eng, st, p, struct, field):
    """value of field of the struct at p"""
    t = ir.Ty()
    t.kind, t.bits, t.size, t.name = 'ptr', 64, 8, None
    o = eng.prog.off(struct, field)
    return eng.load(st, Ptr(p.b, add(p.o, o), (struct, field)), t)


class LockClient(Client):
    """forget what a lock protects whenever that lock is acquired"""
    def lock_event(self, eng, st, I, name, args):
        if name in LOCK:
            p = eng.as_ptr(args[0])
            if p.tag in GUARDS:
                self.forget(eng, st, I, p)

    def forget(self, eng, st, I, p):
        for (s, f) in GUARDS[p.tag]:
            if s == p.tag[0]:
                base = add(p.o, -eng.prog.off(*p.tag))
                o = add(base, eng.prog.off(s, f))
                m = st.mem.get(p.b)
                if m is not None and isinstance(o, int) and o in m.cells:
                    c = dict(m.cells)
                    sz, ov, tg = c[o]
                    a = eng.fresh(st, ('lk', s, f) + eng.site(st, I))
                    c[o] = (sz, Ptr(a, 0) if isinstance(ov, Ptr) or sz == 8 and ov == 0 else lin(a), tg)
                    st.mem[p.b] = BM(c, m.blobs, m.epoch)
            for b, m in list(st.mem.items()):
                if s != p.tag[0] or b != p.b:
                    for o, cc in list(m.cells.items()):
                        if cc[2] == (s, f) and not self.keep_on_lock(eng, st, b, (s, f)):
                            c = dict(st.mem[b].cells)
                            sz, ov, tg = c[o]
                            a = eng.fresh(st, ('lk', s, f, b, o) + eng.site(st, I))
                            c[o] = (sz, Ptr(a, 0) if sz == 8 else lin(a), tg)
                            st.mem[b] = BM(c, st.mem[b].blobs, st.mem[b].epoch)

    def keep_on_lock(self, eng, st, b, tag):
        return False


def pty():
    t = ir.Ty()
    t.kind, t.bits, t.size, t.name = 'ptr', 64, 8, None
    return t


def ity(bits):
    t = ir.Ty()
    t.kind, t.bits, t.size, t.name = 'int', bits, bits // 8, None
    return t


def lv(eng, p, path):
    """address of an embedded field path 'struct.field.struct2.field2' below p"""
    ps = path.split('.')
    o, tag = p.o, None
    for s, f in zip(ps[::2], ps[1::2]):
        o = add(o, eng.prog.off(s, f))
        tag = (s, f)
    return Ptr(p.b, o, tag)


def fld(eng, st, p, path, bits=None):
    """value read through 'struct.field>struct.field...' starting at p ('>' follows a pointer)"""
    segs = path.split('>')
    for n, s in enumerate(segs):
        a = lv(eng, eng.as_ptr(p), s)
        last = n == len(segs) - 1
        p = eng.load(st, a, ity(bits) if last and bits else pty())
    return p


def null(eng, st, v):
    """True / False / None"""
    return eng.decide(st, 'eq', v, 0)


def isneg(eng, st, v):
    """True: negative, False: not negative, None: either"""
    r = eng.rng(st, v)
    return True if r[1] < 0 else (False if r[0] >= 0 else None)


class D(tuple):
    """immutable mapping used as typestate"""
    def __new__(cls, *a, **k):
        d = dict(*a, **k)
        return tuple.__new__(cls, sorted(d.items(), key=lambda x: repr(x[0])))

    def get(self, k, dflt=None):
        for a, b in self:
            if a == k:
                return b
        return dflt

    def set(self, *a, **k):
        d = dict(self)
        d.update(dict(*a, **k))
        return D(d)

    def drop(self, *ks):
        return D({a: b for a, b in self if a not in ks})


class DClient(Client):
    """typestate is a D; every value in it is kept alive"""
    keep_init = True

    def start(self, eng, st, fn):
        return D()

    def atoms(self, eng, st, live):
        def f(x):
            if isinstance(x, tuple):
                for y in x:
                    f(y)
            else:
                vatoms(x, live)
        if st.cl is not DEAD:
            f(tuple(st.cl))
            for a in list(live):
                for s in eng.subatoms(a):
                    live.add(s)

    def bad(self, I, rule, msg, st=None, inst=None):
        self.ctx.violation(I, rule, msg, st)
        self.ctx.obligation(rule, inst or (I.fn.name, I.line), False)

    def ok(self, I, rule, inst=None):
        self.ctx.obligation(rule, inst or (I.fn.name, I.line), True)


def gptr(name):
    return Ptr(atom(('O', 'ghost', name)), 0)


def gset(eng, st, name, v):
    """ghost variable: a memory cell of its own, so that loops widen it together with program variables"""
    st.mem[gptr(name).b] = BM({0: (8, v, None)}, (), 0)


def gget(eng, st, name):
    return eng.load(st, gptr(name), pty() if isinstance(st.mem[gptr(name).b].cells[0][1], Ptr) else ity(64))


def evalv(v, env):
    """value of an expression when the atoms in env have the given values; None if it depends on others"""
    if isinstance(v, int):
        return int(v)
    if isinstance(v, Cmp):
        a, b = evalv(v.a, env), evalv(v.c, env)
        if a is None or b is None:
            return None
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
            v.p if v.p in ('eq', 'ne') else v.p[1:]])
    if not isinstance(v, Lin):
        return None
    r = v.k
    for a, c in v.t:
        x = evala(a, env)
        if x is None:
            return None
        r += c * x
    return r


def evala(a, env):
    if a in env:
        return env[a]
    d = adesc(a)
    if d[0] == 'zx':
        x = evala(d[2], env)
        return None if x is None else x & ((1 << d[1]) - 1)
    if d[0] == 'zxl':
        x = evalv(d[2], env)
        return None if x is None else x & ((1 << d[1]) - 1)
    if d[0] == 'tr':
        x = evalv(d[2], env)
        return None if x is None else E.wrap(x, d[1])
    if d[0] == 'b2i':
        return evalv(d[1], env)
    if d[0] == 'toupper':
        x = evalv(d[1], env)
        return None if x is None else x - 32 if 97 <= x <= 122 else x
    if d[0] == 'bool':
        x, y = evalv(d[2], env), evalv(d[3], env)
        if x is None or y is None:
            return None
        return x & y if d[1] == 'and' else x | y
    if d[0] == 'op':
        x, y = evalv(d[2], env), evalv(d[3], env)
        if x is None or y is None:
            return None
        t = ity(d[4])
        x, y = E.wrap(x, d[4]), E.wrap(y, d[4])
        r = E.Engine.binop(_CONC, None, d[1], x, y, t)
        return r if isinstance(r, int) else None
    return None


class _Conc:
    pass


_CONC = _Conc()


def feasible(eng, st, a, values):
    """the values of atom a that no recorded fact about expressions of a excludes"""
    rel = []
    for key, f in st.facts.items():
        if key and isinstance(key[0], tuple) and not isinstance(f, bool):
            v = Lin(tuple(key), 0)
            if evalv(v, {a: 0}) is not None:
                rel.append((v, f))
    out = []
    for n in values:
        for v, (lo, hi, ne) in rel:
            x = evalv(v, {a: n})
            if x is None:
                continue
            if not lo <= x <= hi or x in ne:
                break
        else:
            out.append(n)
    return out
