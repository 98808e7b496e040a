"""Path-sensitive abstract interpretation of LLVM IR to a fixpoint.

Domain: linear expressions over opaque atoms with an interval for every linear form,
access-path memory (base object, byte offset), a finite client typestate.  States at a
program point are kept apart when their client typestate differs (property simulation),
deduplicated when equal and joined above a limit; loops whose exit test is decided by a
changing constant are unrolled, every other loop is widened with affine-equality
preserving widening.  No solver is involved and nothing is executed.
"""
import heapq
from .ir import AnalysisError

INF = float('inf')

# ------------------------------------------------------------------ atoms
_atoms = {}
_desc = []
_arange = []


def atom(desc, lo=-INF, hi=INF):
    a = _atoms.get(desc)
    if a is None:
        a = len(_desc)
        _atoms[desc] = a
        _desc.append(desc)
        _arange.append((lo, hi))
    return a


def adesc(a):
    return _desc[a]


def ratio(d, e):
    """integer c with d == c * e, beyond +-1"""
    x, y = (d, e) if isinstance(d, int) and isinstance(e, int) else \
        (d.t[0][1], e.t[0][1]) if isinstance(d, Lin) and isinstance(e, Lin) else (0, 0)
    if not x or not y or x % y or abs(x // y) < 2:
        return None
    c = x // y
    return c if d == scale(e, c) else None


class Lin:
    __slots__ = ('t', 'k', '_h')

    def __init__(self, t, k):
        self.t, self.k = t, k
        self._h = hash((t, k))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.t == o.t

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = '+'.join('%s%s' % ('' if c == 1 else '%d*' % c, sdesc(a)) for a, c in self.t)
        return s + ('%+d' % self.k if self.k else '')


def sdesc(a, d=3):
    x = _desc[a]

    def f(x, d):
        if d == 0:
            return '..'
        if isinstance(x, tuple):
            return '(' + ' '.join(f(y, d - 1) for y in x) + ')'
        return str(x)
    return f(x, d)


class Ptr:
    __slots__ = ('b', 'o', 'tag')

    def __init__(self, b, o=0, tag=None):
        self.b, self.o, self.tag = b, o, tag

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.b == o.b and self.o == o.o

    def __hash__(self):
        return hash((self.b, self.o, 7))

    def __repr__(self):
        return '&%s[%r]%s' % (sdesc(self.b), self.o, '<%s.%s>' % self.tag if self.tag else '')


class Cmp:
    __slots__ = ('p', 'a', 'c')

    def __init__(self, p, a, c):
        self.p, self.a, self.c = p, a, c

    def __eq__(self, o):
        return isinstance(o, Cmp) and self.p == o.p and self.a == o.a and self.c == o.c

    def __hash__(self):
        return hash((self.p, self.a, self.c))

    def __repr__(self):
        return '(%r %s %r)' % (self.a, self.p, self.c)


class Fn:
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g

    def __eq__(self, o):
        return isinstance(o, Fn) and self.g == o.g

    def __hash__(self):
        return hash(('fn', self.g))

    def __repr__(self):
        return 'fn:%s' % (self.g,)


NEG = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge', 'sgt': 'sle', 'sle': 'sgt',
       'sge': 'slt', 'slt': 'sge'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt',
        'sge': 'sle', 'sle': 'sge'}


def mk(terms, k):
    if not terms:
        return k
    return Lin(terms, k)


def lin(a):
    """value of an atom"""
    return Lin(((a, 1),), 0)


def parts(v):
    if isinstance(v, int):
        return (), v
    return v.t, v.k


def add(a, b, s=1):
    """a + s*b on ints/Lins"""
    ta, ka = parts(a)
    tb, kb = parts(b)
    if not tb:
        return mk(ta, ka + s * kb)
    if not ta and s == 1:
        return mk(tb, ka + kb)
    d = dict(ta)
    for x, c in tb:
        n = d.get(x, 0) + s * c
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return mk(tuple(sorted(d.items())), ka + s * kb)


def scale(a, c):
    if c == 0:
        return 0
    t, k = parts(a)
    return mk(tuple((x, y * c) for x, y in t), k * c)


def vatoms(v, out):
    if isinstance(v, Lin):
        for a, _ in v.t:
            out.add(a)
    elif isinstance(v, Ptr):
        out.add(v.b)
        if isinstance(v.o, Lin):
            for a, _ in v.o.t:
                out.add(a)
    elif isinstance(v, Cmp):
        vatoms(v.a, out)
        vatoms(v.c, out)


def is_num(v):
    return isinstance(v, (int, Lin))


def to_num(v):
    if is_num(v):
        return v
    if isinstance(v, Ptr):
        return add(lin(atom(('addr', v.b), 1, INF)), v.o)
    return lin(atom(('val', v)))


def wrap(n, bits):
    if bits == 1:
        return n & 1
    n &= (1 << bits) - 1
    if n >> (bits - 1):
        n -= 1 << bits
    return n


def unsigned(n, bits):
    return n & ((1 << bits) - 1)


# ------------------------------------------------------------------ memory
class BM:
    """contents of one base object: cells at constant offsets override older blobs"""
    __slots__ = ('cells', 'blobs', 'epoch', '_k')

    def __init__(self, cells, blobs, epoch):
        self.cells, self.blobs, self.epoch = cells, blobs, epoch
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset((o, c[0], c[1]) for o, c in self.cells.items()), self.blobs, self.epoch)
        return self._k

    def __eq__(self, o):
        return self is o or self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


EMPTY = BM({}, (), 0)


class Frame:
    __slots__ = ('fn', 'env', 'ret', 'blk', 'idx', 'iters', 'site', 'prev', 'args')

    def copy(self):
        f = Frame()
        f.fn, f.env, f.ret, f.blk, f.idx, f.iters, f.site, f.prev = (
            self.fn, dict(self.env), self.ret, self.blk, self.idx, self.iters, self.site, self.prev)
        f.args = self.args
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'cl', 'trace', 'wtags')

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].copy()]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.cl = self.cl
        s.trace = self.trace
        s.wtags = self.wtags
        return s

    @property
    def top(self):
        return self.frames[-1]


FULL = (-INF, INF, frozenset())


class Engine:
    def __init__(self, prog, client, unroll=80, limit=96, max_steps=400000, inline=None):
        self.prog, self.client = prog, client
        self.unroll, self.limit, self.max_steps = unroll, limit, max_steps
        self.inline_pred = inline
        self.steps = 0
        self.nstates = 0
        self.unmodelled = {}
        self.calls_seen = set()
        self.blocks_seen = set()
        self.merged = 0
        self.widened = 0
        self.exits = []
        self.sizes = {}
        self.heapsize = {}
        self.thresholds = [-1, 0, 1, 255, 65535, 2147483647, 4294967295]
        from . import models
        self.models = models.MODELS

    # -------------------------------------------------- facts
    def rng(self, st, v):
        """interval (lo, hi) and excluded set of a numeric value"""
        if isinstance(v, int):
            return (v, v, frozenset())
        if isinstance(v, Ptr):
            return self.prng(st, v)
        if isinstance(v, Cmp):
            d = self.decide(st, v.p, v.a, v.c)
            return (0, 1, frozenset()) if d is None else (int(d), int(d), frozenset())
        if isinstance(v, Fn):
            return (1, INF, frozenset())
        lo = hi = v.k
        for a, c in v.t:
            l, h = _arange[a]
            f = st.facts.get(((a, 1),))
            if f:
                l, h = max(l, f[0]), min(h, f[1])
            if c > 0:
                lo, hi = lo + c * l, hi + c * h
            else:
                lo, hi = lo + c * h, hi + c * l
        ne = frozenset()
        key, sgn = self.canon(v.t)
        if len(v.t) > 1 or v.t[0][1] not in (1,):
            f = st.facts.get(key)
            if f:
                l, h, n = f
                if sgn < 0:
                    l, h, n = -h, -l, frozenset(-x for x in n)
                lo, hi = max(lo, l + v.k), min(hi, h + v.k)
                ne = frozenset(x + v.k for x in n)
        else:
            f = st.facts.get(key)
            if f:
                ne = frozenset(x + v.k for x in f[2])
        if len(v.t) > 1 and (lo == -INF or hi == INF or True):
            # one step of transitive reasoning through two-term facts
            lo2, hi2 = self.pairwise(st, v)
            lo, hi = max(lo, lo2), min(hi, hi2)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        return (lo, hi, ne)

    def pairwise(self, st, v):
        """bound v by splitting it into a recorded relational form plus a remainder"""
        lo, hi = -INF, INF
        vd = dict(v.t)
        for key, f in st.facts.items():
            if len(key) < 2 or not isinstance(key[0], tuple):
                continue
            c0 = vd.get(key[0][0])
            if not c0 or c0 % key[0][1]:
                continue
            m = c0 // key[0][1]
            d = dict(vd)
            for a, c in key:
                n = d.get(a, 0) - m * c
                if n:
                    d[a] = n
                else:
                    d.pop(a, None)
            if len(d) >= len(vd):
                continue
            l, h, _ = f
            if m < 0:
                l, h = m * h, m * l
            else:
                l, h = m * l, m * h
            for a, c in d.items():
                al, ah = _arange[a]
                g = st.facts.get(((a, 1),))
                if g:
                    al, ah = max(al, g[0]), min(ah, g[1])
                if c > 0:
                    l, h = l + c * al, h + c * ah
                else:
                    l, h = l + c * ah, h + c * al
            lo, hi = max(lo, l + v.k), min(hi, h + v.k)
        return lo, hi

    @staticmethod
    def canon(t):
        if t[0][1] < 0:
            return tuple((a, -c) for a, c in t), -1
        return t, 1

    def prng(self, st, p):
        d = _desc[p.b]
        if d[0] in ('L', 'G', 'H', 'O'):
            return (1, INF, frozenset((0,)))
        if p.o == 0:
            f = st.facts.get(((p.b, 1),))
            if f:
                return f
            return (0, INF, frozenset())
        return (1, INF, frozenset((0,)))

    def decide(self, st, p, a, b):
        """True / False / None"""
        if isinstance(a, Fn) or isinstance(b, Fn):
            if a == b:
                return p == 'eq'
            if p in ('eq', 'ne') and (isinstance(a, (Fn, int)) and isinstance(b, (Fn, int))):
                return p == 'ne'
            return None
        if isinstance(a, Cmp) or isinstance(b, Cmp):
            if isinstance(a, int) and isinstance(b, Cmp):
                a, b, p = b, a, SWAP[p]
            if isinstance(b, int):
                d = self.decide(st, a.p, a.a, a.c)
                if d is not None:
                    return self.decide(st, p, int(d), b)
                if p == 'eq' and b not in (0, 1):
                    return False
                if p == 'ne' and b not in (0, 1):
                    return True
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b == b.b:
                return self.decide(st, p, a.o, b.o)
            if p in ('eq', 'ne'):
                f = st.facts.get(('peq', frozenset((a, b))))
                if f is not None:
                    return f if p == 'eq' else not f
                if self.distinct(st, a.b, b.b):
                    return p == 'ne'
            return None
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, Ptr):
                a, b, p = b, a, SWAP[p]
            if isinstance(b, int) and b == 0:
                lo, hi, ne = self.prng(st, a)
                null = True if hi == 0 else (False if lo > 0 or 0 in ne else None)
                if null is None:
                    return None
                if p == 'eq':
                    return null
                if p == 'ne':
                    return not null
                if p == 'ugt':
                    return not null
                if p == 'ule':
                    return null
            return None
        if p in ('ugt', 'uge', 'ult', 'ule'):
            # operands are compared in the unsigned domain: callers pass zero-extended forms
            p = 's' + p[1:]
        if p in ('slt', 'sle', 'sgt', 'sge', 'eq', 'ne'):
            d = add(a, b, -1)
            lo, hi, ne = self.rng(st, d)
            if p == 'eq' or p == 'ne':
                if lo == hi == 0:
                    r = True
                elif lo > 0 or hi < 0 or 0 in ne:
                    r = False
                else:
                    return None
                return r if p == 'eq' else not r
            if p == 'slt':
                return True if hi < 0 else (False if lo >= 0 else None)
            if p == 'sle':
                return True if hi <= 0 else (False if lo > 0 else None)
            if p == 'sgt':
                return True if lo > 0 else (False if hi <= 0 else None)
            if p == 'sge':
                return True if lo >= 0 else (False if hi < 0 else None)
        return None

    def distinct(self, st, x, y):
        dx, dy = _desc[x], _desc[y]
        if x == y:
            return False
        kx, ky = dx[0], dy[0]
        obj = ('L', 'G', 'H', 'O')
        if kx in obj and ky in obj:
            return True
        if kx == 'L' and ky not in obj or ky == 'L' and kx not in obj:
            return True          # unknown pointers never name a local whose address did not escape
        if kx == 'H' and ky not in obj or ky == 'H' and kx not in obj:
            h, o = (dx, dy) if kx == 'H' else (dy, dx)
            return True if o[0] in ('init', 'arg') else False
        return self.client.distinct(self, st, x, y)

    def assume(self, st, p, a, b, truth=True):
        """Refine st in place; False when contradictory"""
        if not truth:
            p = NEG[p]
        d = self.decide(st, p, a, b)
        if d is not None:
            return d
        if isinstance(b, Cmp) and isinstance(a, int):
            a, b, p = b, a, SWAP[p]
        if isinstance(a, Cmp):
            if isinstance(b, int) and p in ('eq', 'ne'):
                want = (b == 1) == (p == 'eq') if b in (0, 1) else None
                if want is not None:
                    return self.assume(st, a.p, a.a, a.c, want)
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b == b.b:
                return self.assume(st, p, a.o, b.o)
            if p in ('eq', 'ne'):
                st.facts[('peq', frozenset((a, b)))] = (p == 'eq')
            return True
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, Ptr):
                a, b, p = b, a, SWAP[p]
            if b == 0 and isinstance(b, int) and a.o == 0:
                isnull = p in ('eq', 'ule')
                st.facts[((a.b, 1),)] = (0, 0, frozenset()) if isnull else (1, INF, frozenset((0,)))
            return True
        if isinstance(a, Fn) or isinstance(b, Fn):
            return True
        if p[0] == 'u':
            p = 's' + p[1:]
        dd = add(a, b, -1)
        key, sgn = self.canon(dd.t)
        k = dd.k
        # dd = sgn*form + k  (p) 0
        lo, hi, ne = st.facts.get(key, FULL)
        if len(key) == 1 and key[0][1] == 1:
            al, ah = _arange[key[0][0]]
            lo, hi = max(lo, al), min(hi, ah)
        if p == 'eq':
            x = -k * sgn
            if x < lo or x > hi or x in ne:
                return False
            lo = hi = x
            ne = frozenset()
        elif p == 'ne':
            ne = ne | {-k * sgn}
        else:
            # bounds on v = sgn*form:  v + k (p) 0
            if p == 'slt':
                vh, vl = -k - 1, -INF
            elif p == 'sle':
                vh, vl = -k, -INF
            elif p == 'sgt':
                vl, vh = -k + 1, INF
            else:
                vl, vh = -k, INF
            if sgn < 0:
                vl, vh = -vh, -vl
            lo, hi = max(lo, vl), min(hi, vh)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        ne = frozenset(x for x in ne if lo < x < hi)
        st.facts[key] = (lo, hi, ne)
        if len(key) == 1:
            d = _desc[key[0][0]]
            if d[0] == 'zx' and key[0][1] == 1:
                # the signed reading agrees with the unsigned one below the sign bit
                half = 1 << (d[1] - 1)
                ik = ((d[2], 1),)
                il, ih, ine = st.facts.get(ik, FULL)
                al, ah = _arange[d[2]]
                il, ih = max(il, al), min(ih, ah)
                if hi < half:
                    il, ih = max(il, lo), min(ih, hi)
                ine = ine | frozenset(x for x in ne if x < half)
                while il in ine:
                    il += 1
                while ih in ine:
                    ih -= 1
                if il > ih:
                    return False
                if (il, ih) != (al, ah) or ine:
                    st.facts[ik] = (il, ih, ine)
            return self.client.on_fact(self, st, key[0][0], lo, hi)
        return True

    # -------------------------------------------------- memory
    def bm(self, st, b):
        return st.mem.get(b, EMPTY)

    def fresh(self, st, desc, lo=-INF, hi=INF):
        """a new unknown; older occurrences of the same name in the state go stale"""
        a = atom(desc, lo, hi)
        if _arange[a] != (lo, hi):          # the name is in use elsewhere for something of another range
            a = atom(tuple(desc) + (('range', lo, hi),), lo, hi)
        for fr in st.frames:
            if any(v == 'w' for _, v in fr.iters):
                self.stale(st, a)
                break
        return a

    def mentions(self, st, a):
        s = set()
        for fr in st.frames:
            for v in fr.env.values():
                vatoms(v, s)
        for b, m in st.mem.items():
            s.add(b)
            for c in m.cells.values():
                vatoms(c[1], s)
        for k in st.facts:
            if isinstance(k[0], tuple):
                s.update(x for x, _ in k)
        return a in s

    def stale(self, st, a):
        if not self.mentions(st, a):
            return

        def f(v, loc):
            s = set()
            vatoms(v, s)
            if a not in s:
                return v
            if isinstance(v, Ptr):
                if v.b == a:
                    nb = atom(('st', loc))
                    return Ptr(nb, v.o, v.tag)
                return Ptr(v.b, lin(atom(('st', loc))), v.tag)
            return lin(atom(('st', loc)))
        for i, fr in enumerate(st.frames):
            if any(True for v in fr.env.values()):
                ne = {}
                for k, v in fr.env.items():
                    ne[k] = f(v, ('e', i, k))
                if ne != fr.env:
                    if i < len(st.frames) - 1:
                        st.frames[i] = fr = fr.copy()
                    fr.env = ne
        for b, m in list(st.mem.items()):
            if b == a:
                del st.mem[b]
                continue
            ch = False
            nc = {}
            for o, c in m.cells.items():
                nv = f(c[1], ('m', b, o))
                if nv is not c[1]:
                    ch = True
                nc[o] = (c[0], nv, c[2])
            if ch:
                st.mem[b] = BM(nc, m.blobs, m.epoch)
        for k in list(st.facts):
            if isinstance(k[0], tuple) and any(x == a for x, _ in k):
                del st.facts[k]
            elif k[0] == 'peq' and any(p.b == a for p in k[1]):
                del st.facts[k]

    def load(self, st, p, ty, line=0):
        size = ty.size
        b, o = p.b, p.o
        m = st.mem.get(b, EMPTY)
        isptr = ty.kind == 'ptr'
        if isinstance(o, int):
            c = m.cells.get(o)
            if c is not None and c[0] == size:
                return self.coerce(c[1], isptr)
            for co, cc in m.cells.items():
                if co < o + size and o < co + cc[0]:
                    if isinstance(cc[1], int) and cc[1] == 0 and co <= o and o + size <= co + cc[0]:
                        return 0
                    return self.opaque(('mix', b, o, size, m.key()), isptr, ty)
        else:
            for co, cc in m.cells.items():
                d = self.overlap(st, co, cc[0], o, size)
                if d is not False:
                    if size == 1 and not isptr:
                        lo, hi = self.cells_hull(st, m, b)
                        return lin(atom(('ld', b, o, size, m.key()), -128, 127))
                    return self.opaque(('ld', b, o, size, m.key()), isptr, ty)
        for bl in m.blobs:
            kind, bo, bn, bid = bl
            d = self.overlap(st, bo, bn, o, size)
            if d is False:
                continue
            if kind == 'sym':
                if bo == o and bn == size:
                    return self.coerce(bid, isptr)
                return self.opaque(('ld', b, o, size, m.key()), isptr, ty)
            if self.inside(st, o, size, bo, bn):
                if kind == 'zero':
                    return 0
                if kind == 'fill':
                    return bid if size == 1 else self.opaque(('ld', b, o, size, m.key()), isptr, ty)
                if size == 1:
                    return lin(atom(('blob', bid, add(o, bo, -1)), -128, 127))
                return self.opaque(('blob', bid, add(o, bo, -1), size), isptr, ty)
            return self.opaque(('ld', b, o, size, m.key()), isptr, ty)
        d = _desc[b]
        if d[0] == 'G' and m.epoch == 0:
            g = self.prog.globals.get(d[1])
            if g is not None and g.cells is not None and (g.const or self.client.trust_globals):
                r = self.gload(st, g, o, size, isptr)
                if r is not None:
                    return r
        if d[0] == 'L' and m.epoch == 0:
            return self.opaque(('undef', b, o, size), isptr, ty)
        extra = ()
        if p.tag and p.tag in st.wtags:
            w = [x for x in st.wtags[p.tag] if x != b and not self.distinct(st, x, b)]
            if w:
                extra = (tuple(w),)
        return self.client.initial(self, st, p, ty, ('init', b, o, size, m.epoch) + extra)

    def cells_hull(self, st, m, b):
        return -128, 255

    def gload(self, st, g, o, size, isptr):
        if isinstance(o, int):
            for co, cs, cv in g.cells:
                if co <= o < co + cs:
                    if cv[0] == 's' and size == 1:
                        n = o - co
                        bs = cv[1]
                        return wrap(bs[n], 8) if n < len(bs) else 0
                    if cv[0] == 'z':
                        return 0
                    if co == o and cs == size:
                        return self.coerce(self.cval(cv), isptr)
                    return None
            return None
        return None

    def cval(self, o):
        k = o[0]
        if k == 'i':
            return o[1]
        if k == 'g':
            return Ptr(atom(('G', o[1])), o[2])
        if k == 'f':
            return Fn(o[1])
        if k == 'z':
            return 0
        return lin(atom(('undefc',)))

    def coerce(self, v, isptr):
        if isptr and isinstance(v, Lin):
            if len(v.t) >= 1 and v.t[0][1] == 1 and len(v.t) == 1 and _desc[v.t[0][0]][0] == 'addr':
                return Ptr(_desc[v.t[0][0]][1], v.k)
            return Ptr(atom(('asptr', v)), 0)
        if not isptr and isinstance(v, Ptr):
            return to_num(v)
        return v

    def opaque(self, desc, isptr, ty):
        if isptr:
            return Ptr(atom(desc), 0)
        lo, hi = -INF, INF
        if ty is not None and ty.kind == 'int':
            if ty.bits <= 32:
                lo, hi = -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
                if ty.bits == 1:
                    lo, hi = 0, 1
        return lin(atom(desc, lo, hi))

    def overlap(self, st, o1, n1, o2, n2):
        """False: certainly disjoint; True: certainly overlapping; None: unknown"""
        if isinstance(o1, int) and isinstance(o2, int) and isinstance(n1, int) and isinstance(n2, int):
            return o1 < o2 + n2 and o2 < o1 + n1
        if self.decide(st, 'sle', add(o1, n1), o2) or self.decide(st, 'sle', add(o2, n2), o1):
            return False
        return None

    def inside(self, st, o, n, bo, bn):
        return bool(self.decide(st, 'sle', bo, o) and self.decide(st, 'sle', add(o, n), add(bo, bn)))

    def store(self, st, p, size, v):
        b, o = p.b, p.o
        m = st.mem.get(b, EMPTY)
        if isinstance(o, int):
            cells = dict(m.cells)
            for co in list(cells):
                if co < o + size and o < co + cells[co][0]:
                    del cells[co]
            cells[o] = (size, v, p.tag)
            blobs = m.blobs
        else:
            cells = {co: cc for co, cc in m.cells.items() if self.overlap(st, co, cc[0], o, size) is False}
            blobs = (('sym', o, size, v),) + tuple(x for x in m.blobs if not (x[0] == 'sym' and x[1] == o))
            if len(blobs) > 6:
                st.mem[b] = BM(cells, (), atom(('hv', b)))
                return
        st.mem[b] = BM(cells, blobs, m.epoch)
        self.alias_kill(st, p, size)

    def alias_kill(self, st, p, size):
        if _desc[p.b][0] == 'L' or not p.tag:
            return
        for b2, m2 in list(st.mem.items()):
            if b2 == p.b or _desc[b2][0] == 'L':
                continue
            hit = [o for o, c in m2.cells.items() if c[2] == p.tag]
            if hit and not self.distinct(st, b2, p.b):
                nc = dict(m2.cells)
                for o in hit:
                    sz, ov, tg = nc[o]
                    nc[o] = (sz, self.coerce(lin(atom(('al', b2, o, p.b))), isinstance(ov, Ptr)), tg)
                st.mem[b2] = BM(nc, m2.blobs, m2.epoch)
        w = st.wtags.get(p.tag, ())
        if p.b not in w:
            d = dict(st.wtags)
            d[p.tag] = w + (p.b,)
            st.wtags = d

    def blob(self, st, p, n, kind, bid):
        """overwrite n bytes at p with one blob"""
        if isinstance(n, int) and n <= 0:
            return
        b, o = p.b, p.o
        m = st.mem.get(b, EMPTY)
        cells = {co: cc for co, cc in m.cells.items() if self.overlap(st, co, cc[0], o, n) is False}
        blobs = tuple(x for x in m.blobs if not (self.inside(st, x[1], x[2], o, n)))
        st.mem[b] = BM(cells, ((kind, o, n, bid),) + blobs[:8], m.epoch)

    def havoc(self, st, b, why):
        if b in st.mem or _desc[b][0] == 'L':
            st.mem[b] = BM({}, (), atom(('hv', b, why)))
        else:
            st.mem[b] = BM({}, (), atom(('hv', b, why)))

    def havoc_field(self, st, p, size, why):
        v = atom(('hvf', p.b, p.o, why))
        m = st.mem.get(p.b, EMPTY)
        old = m.cells.get(p.o)
        self.store(st, p, size, lin(v) if not (old and isinstance(old[1], Ptr)) else Ptr(v, 0))

    # -------------------------------------------------- evaluation
    def ev(self, st, o):
        k = o[0]
        if k == 'v':
            try:
                return st.top.env[o[1]]
            except KeyError:
                return lin(atom(('undef', o[1])))
        if k == 'i':
            return o[1]
        return self.cval(o)

    def site(self, st, inst):
        """identity of a dynamic call: chain of call sites and loop iterations"""
        return (inst.fn.name, inst.id, tuple((f.site, f.iters) for f in st.frames))

    def binop(self, st, op, a, b, ty):
        bits = ty.bits
        if isinstance(a, Cmp) and op == 'xor' and b in (1, -1) and isinstance(b, int):
            return Cmp(NEG[a.p], a.a, a.c)
        if isinstance(a, Cmp) or isinstance(b, Cmp):
            if op in ('and', 'or') and isinstance(b, Cmp) and isinstance(a, Cmp):
                da, db = self.decide(st, a.p, a.a, a.c), self.decide(st, b.p, b.a, b.c)
                if op == 'and' and (da is False or db is False):
                    return 0
                if op == 'or' and (da or db):
                    return 1
                if da is not None:
                    return b
                if db is not None:
                    return a
                return lin(atom(('bool', op, a, b), 0, 1))
            def cv(x):
                return x if not isinstance(x, Cmp) else lin(atom(('b2i', x), 0, 1))
            a, b = cv(a), cv(b)
        a, b = to_num(a), to_num(b)
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = unsigned(a, bits), unsigned(b, bits)
            try:
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                     'udiv': lambda: ua // ub, 'urem': lambda: ua % ub,
                     'sdiv': lambda: int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
                     'srem': lambda: (abs(a) % abs(b)) * (1 if a >= 0 else -1),
                     'shl': lambda: a << ub, 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub,
                     'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
            except (ZeroDivisionError, ValueError):
                return lin(atom(('undefdiv', op, a, b)))
            return wrap(r, bits)
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return add(a, b, -1)
        if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
            return scale(a, b) if isinstance(b, int) else scale(b, a)
        if op == 'shl' and isinstance(b, int) and 0 <= b < 63:
            return scale(a, 1 << b)
        lo, hi = -INF, INF
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b == -1 or b == (1 << bits) - 1:
                    return a
                if b > 0:
                    al, ah, _ = self.rng(st, a)
                    if al >= 0 and ah <= b and (b & (b + 1)) == 0:
                        return a
                    lo, hi = 0, b
        elif op in ('urem', 'srem') and isinstance(b, int) and b > 0:
            al, ah, _ = self.rng(st, a)
            if al >= 0:
                if ah < b:
                    return a
                lo, hi = 0, b - 1
        elif op in ('lshr', 'udiv', 'sdiv', 'ashr') and isinstance(b, int) and b >= 0:
            al, ah, _ = self.rng(st, a)
            q = (1 << b) if op in ('lshr', 'ashr') else b
            if q == 1:
                return a
            if al >= 0 and q > 0:
                lo, hi = al // q, (ah // q if ah != INF else INF)
            elif op == 'lshr':
                lo, hi = 0, (1 << (bits - b)) - 1
        elif op == 'or' or op == 'xor':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a
            al, ah, _ = self.rng(st, a)
            bl, bh, _ = self.rng(st, b)
            if al >= 0 and bl >= 0:
                lo = 0
                m = max(ah, bh)
                if m != INF:
                    hi = (1 << int(m).bit_length()) - 1
            if a == b and op == 'xor':
                return 0
        return lin(atom(('op', op, a, b, bits), lo, hi))

    def zx(self, st, v, bits):
        """v, an integer of `bits` bits in signed reading, as an unsigned quantity"""
        if isinstance(v, int):
            return unsigned(v, bits)
        if isinstance(v, (Cmp, Ptr, Fn)):
            return v
        lo, hi, ex = self.rng(st, v)
        if lo >= 0:
            return v
        if len(v.t) == 1 and v.t[0][1] == 1 and v.k == 0:
            r = lin(atom(('zx', bits, v.t[0][0]), 0, (1 << bits) - 1 if bits < 64 else INF))
            if 0 in ex and 0 not in self.rng(st, r)[2]:
                self.assume(st, 'ne', r, 0)
            return r
        if lo == -INF and bits >= 32:
            # sums of unsigned quantities are not tracked modulo 2**n
            return lin(atom(('zxl', bits, v), 0, (1 << bits) - 1 if bits < 64 else INF))
        return lin(atom(('zxl', bits, v), 0, (1 << bits) - 1 if bits < 64 else INF))

    def exec_inst(self, st, I):
        op = I.op
        env = st.top.env
        if op == 'load':
            p = self.ev(st, I.args[0])
            p = self.as_ptr(p)
            r = self.client.on_load(self, st, I, p)
            env[I.id] = self.load(st, p, I.ty, I.line) if r is None else r
        elif op == 'store':
            v = self.ev(st, I.args[0])
            p = self.as_ptr(self.ev(st, I.args[1]))
            self.client.on_store(self, st, I, p, v, I.x.size)
            self.store(st, p, I.x.size, v)
        elif op == 'gep':
            p = self.as_ptr(self.ev(st, I.args[0]))
            off, var, path = I.x
            o = add(p.o, off)
            for (oo, sc) in var:
                iv = to_num(self.ev(st, oo))
                o = add(o, scale(iv, sc))
            tag = None
            if path:
                s, fo, _ = path[-1]
                if s:
                    f = self.prog.structs.get(s, {}).get(fo)
                    tag = (s, f[0] if f else 'f%d' % fo)
            elif off == 0 and not var:
                tag = p.tag
            elif p.tag:
                tag = p.tag
            env[I.id] = Ptr(p.b, o, tag)
            self.client.on_gep(self, st, I, p, env[I.id])
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.ev(st, I.args[0]), self.ev(st, I.args[1])
            if op in ('udiv', 'urem', 'lshr') and is_num(a):
                a = self.zx(st, a, I.ty.bits)
            env[I.id] = self.binop(st, op, a, b, I.ty)
            self.client.on_binop(self, st, I, a, b, env[I.id])
        elif op == 'icmp':
            a, b = self.ev(st, I.args[0]), self.ev(st, I.args[1])
            p = I.x
            if I.ty.kind == 'int' and p[0] == 'u':
                a, b = self.zx(st, a, I.ty.bits), self.zx(st, b, I.ty.bits)
            elif I.ty.kind == 'int' and I.ty.bits < 64 and p in ('eq', 'ne'):
                if isinstance(b, int) and is_num(a) and not isinstance(a, int):
                    lo, hi, _ = self.rng(st, a)
                    if lo >= 0 and b < 0:
                        b = unsigned(b, I.ty.bits)
            if I.ty.kind == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Lin):
                    a = self.coerce(a, True)
                if isinstance(b, Lin):
                    b = self.coerce(b, True)
            d = self.decide(st, p, a, b)
            env[I.id] = int(d) if d is not None else Cmp(p, a, b)
        elif op == 'zext':
            v = self.ev(st, I.args[0])
            env[I.id] = v if isinstance(v, Cmp) else self.zx(st, v, I.x.bits)
        elif op == 'sext':
            v = self.ev(st, I.args[0])
            if is_num(v) and not isinstance(v, int) and I.x.bits > 1 and len(v.t) == 1:
                lo, hi, _ = self.rng(st, v)
                if hi >= (1 << (I.x.bits - 1)) and hi != INF and lo < 0:
                    pass
            env[I.id] = v
        elif op == 'trunc':
            v = self.ev(st, I.args[0])
            if isinstance(v, int):
                v = wrap(v, I.ty.bits)
            elif isinstance(v, Lin):
                lo, hi, _ = self.rng(st, v)
                d = _desc[v.t[0][0]] if len(v.t) == 1 else ()
                if not (lo >= -(1 << (I.ty.bits - 1)) and hi < (1 << I.ty.bits)):
                    keep = False
                    if len(v.t) == 1 and v.t[0][1] == 1 and v.k == 0 and d[0] == 'zx' and d[1] <= I.ty.bits:
                        v = lin(d[2])
                        keep = True
                    if not keep and not self.client.trunc_ok(self, st, I, v):
                        v = lin(atom(('tr', I.ty.bits, v), -(1 << (I.ty.bits - 1)), (1 << I.ty.bits) - 1))
            elif isinstance(v, Cmp):
                pass
            env[I.id] = v
        elif op in ('bitcast', 'freeze', 'addrspacecast'):
            env[I.id] = self.ev(st, I.args[0])
        elif op == 'ptrtoint':
            v = self.ev(st, I.args[0])
            env[I.id] = to_num(v)
        elif op == 'inttoptr':
            v = self.ev(st, I.args[0])
            env[I.id] = v if isinstance(v, int) and v == 0 else self.coerce(v, True)
        elif op == 'alloca':
            f = st.top
            b = atom(('L', len(st.frames), f.fn.name, I.id, f.site))
            env[I.id] = Ptr(b, 0)
            self.sizes[b] = I.x.size
        else:
            env[I.id] = self.opaque(('x', op, self.site(st, I)), I.ty.kind == 'ptr', I.ty)

    def as_ptr(self, p):
        if isinstance(p, Ptr):
            return p
        if isinstance(p, int):
            return Ptr(atom(('NULL', p)), 0)
        if isinstance(p, Fn):
            return Ptr(atom(('G', p.g)), 0)
        return self.coerce(p, True) if isinstance(p, Lin) else Ptr(atom(('asptr', p)), 0)

    # -------------------------------------------------- driver
    def initial_state(self, fn, args=None, cl=None):
        st = State()
        f = Frame()
        f.fn, f.ret, f.blk, f.idx, f.site, f.prev = fn, None, fn.blocks[0], 0, None, None
        f.iters = ()
        f.env = {}
        for n, (pid, ty) in enumerate(fn.params):
            if args and n in args:
                v = args[n]
            elif ty.kind == 'ptr':
                v = Ptr(atom(('arg', fn.name, n)), 0)
            else:
                v = self.opaque(('arg', fn.name, n), False, ty)
            f.env[pid] = v
        f.args = tuple(f.env[p] for p, _ in fn.params)
        st.frames = [f]
        st.mem, st.facts, st.trace, st.wtags = {}, {}, None, {}
        st.cl = cl if cl is not None else self.client.start(self, st, fn)
        return st

    def nodekey(self, st):
        return tuple((f.fn.name, f.site, f.blk.idx, f.idx, f.iters) for f in st.frames)

    def prio(self, st):
        p = []
        for f in st.frames:
            p.append(f.blk.rpo)
            p.append(f.idx)
        return tuple(p)

    def client_write(self, st, I, p, n, what):
        self.client.on_write(self, st, I, p, n, what)

    def client_read(self, st, I, p, n, what):
        self.client.on_read(self, st, I, p, n, what)

    def mulv(self, a, b):
        if isinstance(a, int):
            return scale(b, a)
        if isinstance(b, int):
            return scale(a, b)
        return lin(atom(('mul', a, b), 0, INF))

    def run(self, fn, args=None, cl=None, st=None, setup=None):
        st = st or self.initial_state(fn, args, cl)
        if setup:
            setup(self, st)
        self.heap = []
        self.seen = {}
        self.cnt = 0
        self.wstate = {}
        self.push(st)
        while self.heap:
            _, _, s = heapq.heappop(self.heap)
            if getattr(s, 'cl', None) is DEAD:
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisError('state budget exhausted in %s (%s)' % (
                    fn.name, self.nodekey(s)[-1]))
            self.exec_block(s)

    def push(self, st):
        """enqueue at (top.blk, top.idx) after dedup"""
        self.gc(st)
        nk = self.nodekey(st)
        ck = self.client.key(self, st)
        d = self.seen.setdefault((nk, ck), {})
        h = self.skey(st)
        if h in d:
            return
        if len(d) >= self.limit and st.top.idx == 0:
            # join with what has been seen at this point under the same typestate
            self.merged += 1
            old = self.wstate.get(('j', nk, ck))
            if old is None:
                self.wstate[('j', nk, ck)] = st.copy()
            else:
                n = self.widen(old, st, ('j', nk))
                if n is None:
                    return
                self.wstate[('j', nk, ck)] = n.copy()
                st = n
                h = self.skey(st)
        d[h] = True
        self.nstates += 1
        self.cnt += 1
        heapq.heappush(self.heap, (self.prio(st), self.cnt, st))

    def skey(self, st):
        return (tuple(frozenset(f.env.items()) for f in st.frames),
                frozenset((b, m.key()) for b, m in st.mem.items()),
                frozenset(st.facts.items()))

    def gc(self, st):
        """drop dead SSA names, memory of popped frames and facts about unreachable atoms"""
        f = st.top
        if f.idx == 0 and f.blk.live_in is not None:
            li = f.blk.live_in
            f.env = {k: v for k, v in f.env.items() if k in li}
        live = set()
        for fr in st.frames:
            for v in fr.env.values():
                vatoms(v, live)
            for v in fr.args:
                vatoms(v, live)
        self.client.prune(self, st, live)
        self.client.atoms(self, st, live)
        # memory reachability: locals that no live pointer names are dropped
        work = list(live)
        reach = set(live)
        depth = len(st.frames)
        for b, m in st.mem.items():
            d = _desc[b]
            if d[0] != 'L' and b not in reach:
                reach.add(b)
                work.append(b)
        while work:
            b = work.pop()
            m = st.mem.get(b)
            if m is not None:
                s = set()
                for c in m.cells.values():
                    vatoms(c[1], s)
                for bl in m.blobs:
                    vatoms(bl[1], s)
                    vatoms(bl[2], s)
                    if bl[0] == 'sym':
                        vatoms(bl[3], s)
                for a in s:
                    if a not in reach:
                        reach.add(a)
                        work.append(a)
            d = _desc[b]
            for x in self.subatoms(b):
                if x not in reach:
                    reach.add(x)
                    work.append(x)
        for b in list(st.mem):
            if _desc[b][0] == 'L' and (b not in reach or _desc[b][1] > depth):
                del st.mem[b]
        nf = {}
        ki = self.client.keep_init
        for k, v in st.facts.items():
            if isinstance(k[0], tuple):
                if all(a in reach or ki and self.lazy(st, a, reach) for a, _ in k):
                    nf[k] = v
            elif k[0] == 'peq':
                if all(p.b in reach for p in k[1]):
                    nf[k] = v
            else:
                nf[k] = v
        st.facts = nf

    def lazy(self, st, a, reach):
        """a names the unmodified initial content of a location that can still be read"""
        d = _desc[a]
        while d[0] == 'zx':
            d = _desc[d[2]]
        while d[0] == 'init':
            b, o, sz = d[1], d[2], d[3]
            m = st.mem.get(b, EMPTY)
            if m.epoch != d[4] or o in m.cells:
                return False
            if b in reach:
                return True
            d = _desc[b]
        return False

    _sub = {}

    def subatoms(self, a):
        r = self._sub.get(a)
        if r is None:
            out = set()

            def f(x):
                if isinstance(x, tuple):
                    for y in x:
                        f(y)
                elif isinstance(x, (Lin, Ptr, Cmp)):
                    vatoms(x, out)
            d = _desc[a]
            if d[0] in ('zx',):
                out.add(d[2])
            elif d[0] == 'init' or d[0] == 'addr':
                out.add(d[1])
            else:
                f(d)
            r = self._sub[a] = tuple(out)
        return r

    def goto(self, st, src, dst):
        """move to block dst from src, evaluating phis and loop bookkeeping; then enqueue"""
        f = st.top
        vals = {}
        for ph in dst.phis:
            for b, v in ph.x:
                if b is src:
                    vals[ph.id] = self.ev(st, v)
        f.env.update(vals)
        # loop iteration context
        it = dict(f.iters)
        for h in list(it):
            hb = f.fn.blocks[0] if h == -1 else h
            if isinstance(h, tuple):
                continue
        loops = {h.idx for h in dst.loops}
        it = {h: n for h, n in it.items() if (h if not isinstance(h, tuple) else h[0]) in loops}
        f.prev = src
        widen = False
        if dst.loop_header:
            inloop = src in f.fn.loops[dst]
            hid = dst.idx
            if not inloop:
                it[hid] = 0
                it.pop((hid, 'd'), None)
                it.pop((hid, 'c'), None)
            else:
                n = it.get(hid, 0)
                dec = it.pop((hid, 'd'), None)
                if n == 'w':
                    widen = True
                else:
                    last = it.get((hid, 'c'))
                    if dec is not None and dec != last and n < self.unroll:
                        it[hid] = n + 1
                        it[(hid, 'c')] = dec
                    elif self.client.peel(self, st, dst) > n:
                        it[hid] = n + 1
                    else:
                        it[hid] = 'w'
                        it.pop((hid, 'c'), None)
                        widen = True
        f.iters = tuple(sorted(it.items(), key=repr))
        f.blk, f.idx = dst, 0
        if widen:
            self.gc(st)
            nk = self.nodekey(st)
            ck = self.client.key(self, st)
            old = self.wstate.get((nk, ck))
            if old is None:
                # first arrival: forget stale names of this header
                self.wstate[(nk, ck)] = st.copy()
            else:
                n = self.widen(old, st, nk)
                self.widened += 1
                if n is None:
                    return
                self.wstate[(nk, ck)] = n.copy()
                st = n
        self.push(st)

    # -------------------------------------------------- widening join
    def subst(self, v, sig):
        if isinstance(v, Lin):
            r = v.k
            for a, c in v.t:
                x = sig.get(a)
                r = add(r, scale(to_num(x), c)) if x is not None else add(r, Lin(((a, c),), 0))
            return r
        if isinstance(v, Ptr):
            x = sig.get(v.b)
            if x is not None:
                if isinstance(x, Ptr):
                    return Ptr(x.b, add(x.o, self.subst(v.o, sig)) if v.o != 0 else x.o, v.tag)
                if v.o == 0:
                    return x
                return v
            if isinstance(v.o, Lin):
                return Ptr(v.b, self.subst(v.o, sig), v.tag)
            return v
        if isinstance(v, Cmp):
            return Cmp(v.p, self.subst(v.a, sig), self.subst(v.c, sig))
        return v

    def locs(self, st):
        out = {}
        for i, f in enumerate(st.frames):
            for k, v in f.env.items():
                out[('e', i, k)] = v
        for b, m in st.mem.items():
            for o, c in m.cells.items():
                out[('m', b, o)] = c[1]
        return out

    def materialize(self, st, other):
        """give st an explicit cell, holding the initial content, wherever other has one"""
        for b, mo in list(other.mem.items()):
            if _desc[b][0] in ('L',):
                continue
            m = st.mem.get(b)
            if m is None:
                if _desc[b][0] == 'H' or mo.epoch != 0:
                    continue
                m = EMPTY
            if m is mo or m.epoch != mo.epoch:
                continue
            cells = None
            for o, c in mo.cells.items():
                if o in m.cells or any(self.overlap(st, x, y[0], o, c[0]) is not False for x, y in m.cells.items()):
                    continue
                v = self.load(st, Ptr(b, o, c[2]), _cellty(c[0], isinstance(c[1], Ptr) or c[0] == 8 and c[1] == 0))
                if cells is None:
                    cells = dict(m.cells)
                cells[o] = (c[0], v, c[2])
            if cells is not None:
                st.mem[b] = BM(cells, m.blobs, m.epoch)

    def widen(self, old, new, nk):
        """join new into old at nk; None when nothing changes"""
        self.materialize(old, new)
        self.materialize(new, old)
        lo, ln = self.locs(old), self.locs(new)
        hk = hash(nk)
        wname = lambda loc: ('w', nk, loc)
        sig = {}
        for loc, v in ln.items():
            a = _atoms.get(wname(loc))
            if a is not None:
                sig[a] = v
        res, changed, newfacts = {}, False, {}
        fresh_list = []
        rel = self.client.relational
        order = sorted(lo, key=repr)
        if rel:
            def step(loc):
                a, b = lo[loc], ln.get(loc)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                    a, b = a.o, b.o
                if not is_num(a) or not is_num(b):
                    return 0
                d = add(b, a, -1)
                return abs(d) if isinstance(d, int) else max(abs(c) for _, c in d.t)
            order.sort(key=step)
        for loc in order:
            vo = lo[loc]
            if loc not in ln:
                if loc[0] == 'e':
                    continue
                changed = True
                continue
            vn = ln[loc]
            if self.subst(vo, sig) == vn:
                res[loc] = vo
                continue
            changed = True
            # affine relation with something already widened in this round
            done = False
            if is_num(vo) and is_num(vn):
                d = add(vn, vo, -1)
                for (l2, wa, vo2, d2) in fresh_list:
                    if d == d2 and d != 0:
                        res[loc] = add(vo, add(wa, vo2, -1))
                        done = True
                        break
                    if is_num(d2) and add(d, d2) == 0 and d != 0:
                        res[loc] = add(vo, add(wa, vo2, -1), -1)
                        done = True
                        break
                    c = ratio(d, d2) if rel else None
                    if c:
                        res[loc] = add(vo, scale(add(wa, vo2, -1), c))
                        done = True
                        break
            if done:
                continue
            if isinstance(vo, Ptr) and isinstance(vn, Ptr) and vo.b == vn.b:
                d = add(vn.o, vo.o, -1)
                for (l2, wa, vo2, d2) in fresh_list:
                    if d == d2:
                        res[loc] = Ptr(vo.b, add(vo.o, add(wa, vo2, -1)), vo.tag if vo.tag == vn.tag else None)
                        done = True
                        break
                    if is_num(d2) and add(d, d2) == 0 and d != 0:
                        res[loc] = Ptr(vo.b, add(vo.o, add(wa, vo2, -1), -1), None)
                        done = True
                        break
                    c = ratio(d, d2) if rel and is_num(d2) else None
                    if c:
                        res[loc] = Ptr(vo.b, add(vo.o, scale(add(wa, vo2, -1), c)), vo.tag if vo.tag == vn.tag else None)
                        done = True
                        break
                if done:
                    continue
                a = atom(wname(loc))
                newfacts[a] = (vo.o, vn.o)
                wv = lin(a)
                fresh_list.append((loc, wv, vo.o, d))
                res[loc] = Ptr(vo.b, wv, vo.tag if vo.tag == vn.tag else None)
                continue
            a = atom(wname(loc))
            if isinstance(vo, Ptr) and isinstance(vn, (Ptr, int)) or isinstance(vn, Ptr) and isinstance(vo, (Ptr, int)):
                res[loc] = Ptr(a, 0)
                newfacts[a] = (vo, vn)
                continue
            wv = lin(a)
            if is_num(vo) and is_num(vn):
                fresh_list.append((loc, wv, vo, add(vn, vo, -1)))
            newfacts[a] = (vo, vn)
            res[loc] = wv
        # facts
        facts = {}
        sig2 = dict(sig)
        for k, fo in old.facts.items():
            if not isinstance(k[0], tuple):
                if new.facts.get(k) == fo:
                    facts[k] = fo
                else:
                    changed = True
                continue
            if any(a in newfacts for a, _ in k):
                changed = True
                continue
            if len(k) == 1 and k[0][0] in sig and isinstance(sig[k[0][0]], Ptr):
                rn = self.prng(new, sig[k[0][0]])
                if isinstance(rn[0], int) and rn[0] > 0 and fo[0] > 0 or rn[1] == 0 and fo[1] == 0:
                    facts[k] = fo
                else:
                    changed = True
                continue
            v = self.subst(Lin(k, 0), sig2)
            rn = self.rng(new, v)
            l = fo[0] if rn[0] >= fo[0] else self.thr_lo(rn[0])
            h = fo[1] if rn[1] <= fo[1] else self.thr_hi(rn[1])
            ne = frozenset(x for x in fo[2] if x in rn[2] or x < rn[0] or x > rn[1])
            if (l, h, ne) != fo:
                changed = True
            if (l, h) != (-INF, INF) or ne:
                facts[k] = (l, h, ne)
        for a, (vo, vn) in newfacts.items():
            if isinstance(vo, Ptr) or isinstance(vn, Ptr):
                r1 = self.prng(old, vo) if isinstance(vo, Ptr) else ((vo, vo) if isinstance(vo, int) else (0, INF))
                r2 = self.prng(new, vn) if isinstance(vn, Ptr) else ((vn, vn) if isinstance(vn, int) else (0, INF))
                if r1[0] > 0 and r2[0] > 0:
                    facts[((a, 1),)] = (1, INF, frozenset((0,)))
                elif r1[1] == 0 and r2[1] == 0:
                    facts[((a, 1),)] = (0, 0, frozenset())
                continue
            if isinstance(vo, Fn) or isinstance(vn, Fn):
                continue
            r1, r2 = self.rng(old, vo), self.rng(new, vn)
            l = r1[0] if r2[0] >= r1[0] else self.thr_lo(r2[0])
            h = r1[1] if r2[1] <= r1[1] else self.thr_hi(r2[1])
            ne = frozenset(x for x in r1[2] if x in r2[2] or x < r2[0] or x > r2[1])
            if (l, h) != (-INF, INF) or ne:
                facts[((a, 1),)] = (l, h, ne)
            # relational: keep differences to loop-invariant single atoms known on both sides
            for k in set(old.facts) | set(new.facts):
                if not isinstance(k[0], tuple) or len(k) != 2:
                    continue
            if is_num(vo) and is_num(vn):
                cands = set()
                for s_ in (old, new):
                    for k in s_.facts:
                        if isinstance(k[0], tuple):
                            for x, c in k:
                                if x not in newfacts and _desc[x][0] not in ('w',):
                                    cands.add(x)
                for x in cands:
                    d1, d2 = self.rng(old, add(vo, lin(x), -1)), self.rng(new, add(vn, lin(x), -1))
                    h = d1[1] if d2[1] <= d1[1] else (self.thr_hi(d2[1]) if d2[1] <= 0 else INF)
                    if h != INF:
                        kk, sg = self.canon(tuple(sorted(((a, 1), (x, -1)))))
                        # h bounds a - x
                        f0 = facts.get(kk, FULL)
                        if dict(kk)[a] == 1:
                            facts[kk] = (f0[0], min(f0[1], h), frozenset())
                        else:
                            facts[kk] = (max(f0[0], -h), f0[1], frozenset())
        if self.client.relational:
            vs = [(a, p[0], p[1]) for a, p in newfacts.items() if is_num(p[0]) and is_num(p[1])]
            ws = [(x, lin(x), v) for x, v in sig.items() if x not in newfacts and is_num(v)]
            for i, (a, vo, vn) in enumerate(vs):
                ms, rel2 = set(), set()
                vatoms(vo, ms)
                vatoms(vn, ms)
                for s_ in (old, new):          # and what they are already known to be ordered with
                    for k in s_.facts:
                        if isinstance(k[0], tuple) and len(k) == 2 and (k[0][0] in ms or k[1][0] in ms):
                            rel2.update((k[0][0], k[1][0]))
                ms |= rel2
                for (x, xo, xn) in vs[i + 1:] + ws + [(y, lin(y), lin(y)) for y in sorted(ms) if y not in newfacts and y not in sig and y != a]:
                    d1, d2 = self.rng2(old, add(vo, xo, -1)), self.rng2(new, add(vn, xn, -1))
                    h = d1[1] if d2[1] <= d1[1] and d1[1] <= 1 else (self.thr_hi(max(d1[1], d2[1])) if max(d1[1], d2[1]) <= 1 else INF)
                    l = -d1[0] if d2[0] >= d1[0] and -d1[0] <= 1 else (self.thr_hi(max(-d1[0], -d2[0])) if max(-d1[0], -d2[0]) <= 1 else INF)
                    if h == INF and l == INF:
                        continue
                    kk, sg = self.canon(tuple(sorted(((a, 1), (x, -1)))))
                    f0 = facts.get(kk, FULL)
                    if dict(kk)[a] == 1:
                        facts[kk] = (max(f0[0], -l), min(f0[1], h), frozenset())
                    else:
                        facts[kk] = (max(f0[0], -h), min(f0[1], l), frozenset())
        s = new.copy()
        s.frames = []
        for i, f in enumerate(new.frames):
            g = f.copy()
            g.env = {k: res[('e', i, k)] for k in f.env if ('e', i, k) in res}
            s.frames.append(g)
        s.mem = {}
        for b in set(old.mem) | set(new.mem):
            mo, mn = old.mem.get(b), new.mem.get(b)
            if mo is None or mn is None:
                # present on one side only: unknown contents
                if (mo or mn).epoch == 0 and _desc[b][0] == 'L' and False:
                    continue
                changed = changed or mn is None or mo is None
                s.mem[b] = BM({}, (), atom(('we', nk, b)))
                continue
            cells = {}
            for o in mo.cells:
                if ('m', b, o) in res:
                    cn = mn.cells[o]
                    if cn[0] == mo.cells[o][0]:
                        cells[o] = (cn[0], res[('m', b, o)], mo.cells[o][2])
            if mo.blobs == mn.blobs:
                blobs = mo.blobs
            else:
                blobs = ()
            ep = mo.epoch
            lost = set(mn.cells) - set(cells) or set(mo.cells) - set(cells)
            if mo.epoch != mn.epoch or mo.blobs != mn.blobs or lost:
                ep = atom(('we', nk, b))
            if ep != mo.epoch or blobs != mo.blobs or len(cells) != len(mo.cells):
                changed = True
            s.mem[b] = BM(cells, blobs, ep)
        s.facts = facts
        s.wtags = {**old.wtags}
        for t, w in new.wtags.items():
            s.wtags[t] = tuple(dict.fromkeys(s.wtags.get(t, ()) + w))
        if s.wtags != old.wtags:
            changed = True
        if not changed:
            return None
        return s

    @staticmethod
    def thr_lo(x):
        for t in (1, 0, -1, -4095, -128, -32768, -2147483648):
            if x >= t:
                return t
        return -INF

    def rng2(self, st, v):
        """interval of a difference, also through one intermediate quantity"""
        lo, hi, _ = self.rng(st, v)
        if not isinstance(v, Lin) or len(v.t) != 2 or v.t[0][1] + v.t[1][1] != 0 or abs(v.t[0][1]) != 1:
            return lo, hi
        a = next(x for x, c in v.t if c == 1)
        b = next(x for x, c in v.t if c == -1)
        zs = set()
        for k in st.facts:
            if isinstance(k[0], tuple) and len(k) == 2 and any(x == a or x == b for x, _ in k):
                zs.update(x for x, _ in k)
        for z in zs - {a, b}:
            r1, r2 = self.rng(st, add(lin(a), lin(z), -1)), self.rng(st, add(lin(z), lin(b), -1))
            lo, hi = max(lo, r1[0] + r2[0] + v.k), min(hi, r1[1] + r2[1] + v.k)
        return lo, hi

    def thr_hi(self, x):
        for t in self.thresholds:
            if x <= t:
                return t
        return INF

    # -------------------------------------------------- blocks
    def exec_block(self, st):
        f = st.top
        blk = f.blk
        self.blocks_seen.add((blk.fn.name, blk.idx))
        insts = blk.insts
        i = f.idx
        while i < len(insts):
            I = insts[i]
            op = I.op
            if op == 'call':
                f.idx = i
                if not self.do_call(st, I):
                    return
                f = st.top
                i += 1
                continue
            if op == 'br':
                if not I.args:
                    self.goto(st, blk, blk.succs[0])
                    return
                c = self.ev(st, I.args[0])
                self.branch(st, blk, I, c)
                return
            if op == 'ret':
                self.do_ret(st, I)
                return
            if op == 'switch':
                self.do_switch(st, blk, I)
                return
            if op == 'unreachable':
                return
            if op == 'select':
                c = self.ev(st, I.args[0])
                d = c if isinstance(c, int) else (self.decide(st, c.p, c.a, c.c) if isinstance(c, Cmp) else None)
                if d is not None:
                    f.env[I.id] = self.ev(st, I.args[1] if d else I.args[2])
                else:
                    s2 = st.copy()
                    ok2 = True
                    if isinstance(c, Cmp):
                        ok2 = self.assume(s2, c.p, c.a, c.c, False)
                        if not self.assume(st, c.p, c.a, c.c, True):
                            st = None
                    if ok2:
                        s2.top.env[I.id] = self.ev(s2, I.args[2])
                        s2.top.idx = i + 1
                        self.push(s2)
                    if st is None:
                        return
                    f = st.top
                    f.env[I.id] = self.ev(st, I.args[1])
                i += 1
                continue
            self.exec_inst(st, I)
            if st.cl is DEAD:
                return
            i += 1

    def branch(self, st, blk, I, c):
        t, e = blk.succs
        if isinstance(c, Cmp):
            d = self.decide(st, c.p, c.a, c.c)
        elif isinstance(c, int):
            d = bool(c & 1)
        elif isinstance(c, Lin):
            lo, hi, ne = self.rng(st, c)
            d = True if lo == 1 or (lo > 0) else (False if hi == 0 else None)
            c = Cmp('ne', c, 0)
        else:
            d = None
        self.client.on_branch(self, st, I, c, d)
        if d is not None:
            self.note_exit(st, blk, I)
            self.goto(st, blk, t if d else e)
            return
        s2 = st.copy()
        if isinstance(c, Cmp):
            ok1 = self.assume(st, c.p, c.a, c.c, True)
            ok2 = self.assume(s2, c.p, c.a, c.c, False)
        else:
            ok1 = ok2 = True
        if ok1:
            st.trace = (st.trace, I.line, 'T')
            self.goto(st, blk, t)
        if ok2:
            s2.trace = (s2.trace, I.line, 'F')
            self.goto(s2, blk, e)

    def note_exit(self, st, blk, I):
        """a decided loop-exit test whose operands are constants: progress of an unrollable loop"""
        if not blk.loops:
            return
        f = st.top
        # operands of the icmp that feeds this branch
        o = I.args[0]
        if o[0] != 'v':
            return
        src = None
        for J in blk.insts:
            if J.id == o[1] and J.op == 'icmp':
                src = J
        if src is None or not self.client.count_calls and any(self.from_call(f.fn, x) for x in src.args):
            return
        a, b = self.ev(st, src.args[0]), self.ev(st, src.args[1])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
            a, b = a.o, b.o
        if not (isinstance(a, int) and isinstance(b, int)):
            return
        for h in blk.loops:
            if any(s not in f.fn.loops[h] for s in blk.succs) or blk is h or len(blk.succs) > 1:
                it = dict(f.iters)
                if it.get(h.idx) != 'w':
                    prev = it.get((h.idx, 'd'), ())
                    it[(h.idx, 'd')] = prev + ((I.id if hasattr(I, 'id') else 0, a, b),) if len(prev) < 6 else prev
                    f.iters = tuple(sorted(it.items(), key=repr))

    def from_call(self, fn, x):
        """the result of a call, as it was returned"""
        while x[0] == 'v':
            d = fn.defs.get(x[1]) if hasattr(fn, 'defs') else None
            if d is None:
                if hasattr(fn, 'defs'):
                    return False
                fn.defs = {i.id: i for b in fn.blocks for i in b.insts if i.id}
                continue
            if d.op in ('sext', 'zext', 'trunc', 'bitcast'):
                x = d.args[0]
                continue
            return d.op == 'call'
        return False

    def do_switch(self, st, blk, I):
        v = self.ev(st, I.args[0])
        cases, dflt = I.x
        if isinstance(v, int):
            for c, b in cases:
                if wrap(c, 64) == v or c == v:
                    self.goto(st, blk, b)
                    return
            self.goto(st, blk, dflt)
            return
        lo, hi, ne = self.rng(st, v)
        rest = st.copy()
        alive = True
        for c, b in cases:
            if lo >= 0 and c < 0:
                c = unsigned(c, 32) if hi > 255 else unsigned(c, 8)
            s = st.copy()
            if self.assume(s, 'eq', v, c):
                s.trace = (s.trace, I.line, 'case %d' % c)
                self.goto(s, blk, b)
            if alive:
                alive = self.assume(rest, 'ne', v, c)
        if alive:
            rest.trace = (rest.trace, I.line, 'default')
            self.goto(rest, blk, dflt)

    def resolve(self, st, I):
        c = I.x
        if c[0] == 'f':
            return c[1]
        if c[0] == 'v':
            v = self.ev(st, c)
            if isinstance(v, Fn):
                return v.g
        return None

    def should_inline(self, st, fn):
        if self.inline_pred is not None:
            r = self.inline_pred(fn)
            if r is not None:
                return r
        return not fn.boundary

    def do_call(self, st, I):
        """True: continue in the same block with st; False: st was consumed"""
        g = self.resolve(st, I)
        name = g if isinstance(g, str) else (g[1] if g else None)
        args = [self.ev(st, a) for a in I.args]
        if g is None and I.x[0] == 'v':
            tab = [f for f in self.prog.allf if f.tabled and f.module == I.fn.module and len(f.params) == len(args)]
            for f in tab:                   # any of the functions the module's tables name
                s = st.copy()
                s.top.env[I.x[1]] = Fn((f.module, f.name))
                if self.do_call(s, I):
                    s.top.idx = I.idx + 1
                    self.push(s)
            if tab:
                return False
        self.calls_seen.add((I.fn.name, I.line, name))
        r = self.client.on_call(self, st, I, name, args)
        if r is None:
            fn = self.prog.funcs.get(g) if g else None
            if fn is not None and self.should_inline(st, fn):
                if any(f.fn is fn for f in st.frames) or len(st.frames) > 24:
                    raise AnalysisError('recursion through %s' % fn.name)
                fr = Frame()
                fr.fn, fr.blk, fr.idx, fr.prev = fn, fn.blocks[0], 0, None
                fr.ret = I
                fr.site = (I.fn.name, I.id, st.top.iters)
                fr.iters = ()
                fr.env = {pid: args[n] for n, (pid, ty) in enumerate(fn.params)}
                fr.args = tuple(args)
                st.frames[-1].idx = I.idx + 1
                # keep only what the continuation needs: caller env stays as is
                st.frames.append(fr)
                self.client.on_enter(self, st, fn)
                self.push(st)
                return False
            m = self.models.get(name) if name else None
            if m is not None:
                r = m(self, st, I, args)
            else:
                r = self.default_call(st, I, name, args)
        if r is DEAD or r == []:
            return False
        if isinstance(r, list):
            if len(r) == 1:
                v, s = r[0]
                if s is st:
                    if I.ty.kind != 'void':
                        st.top.env[I.id] = v
                    return st.cl is not DEAD
            for v, s in r:
                if s.cl is DEAD:
                    continue
                if I.ty.kind != 'void':
                    s.top.env[I.id] = v
                s.top.idx = I.idx + 1
                self.push(s)
            return False
        if I.ty.kind != 'void':
            st.top.env[I.id] = r
        return st.cl is not DEAD

    def result(self, st, I, lo=-INF, hi=INF, kind='ret'):
        a = self.fresh(st, (kind,) + self.site(st, I), lo, hi)
        if I.ty.kind == 'ptr':
            return Ptr(a, 0)
        if lo == -INF and hi == INF and I.ty.kind == 'int' and I.ty.bits <= 32:
            _arange[a] = (-(1 << (I.ty.bits - 1)), (1 << I.ty.bits) - 1 if I.ty.bits < 32 else (1 << 31) - 1)
        return lin(a)

    def default_call(self, st, I, name, args):
        self.unmodelled.setdefault(name, set()).add((I.fn.name, I.line))
        for a in args:
            if isinstance(a, Ptr):
                self.havoc(st, a.b, self.site(st, I))
        return self.result(st, I)

    def do_ret(self, st, I):
        v = self.ev(st, I.args[0]) if I.args else None
        f = st.top
        self.client.on_exit_frame(self, st, I, v)
        if len(st.frames) == 1:
            self.exits.append(I.line)
            self.client.on_return(self, st, I, v)
            return
        st.frames.pop()
        depth = len(st.frames)
        st.frames[-1] = st.frames[-1].copy()
        for b in list(st.mem):
            d = _desc[b]
            if d[0] == 'L' and d[1] > depth:
                del st.mem[b]
        c = f.ret
        if c.ty.kind != 'void' and v is not None:
            st.top.env[c.id] = v
        self.client.on_leave(self, st, f.fn, c, v)
        self.push(st)


class _Ty:
    __slots__ = ('kind', 'bits', 'size', 'name')


def _cellty(size, isptr, _c={}):
    t = _c.get((size, isptr))
    if t is None:
        t = _c[(size, isptr)] = _Ty()
        t.kind, t.bits, t.size, t.name = 'ptr' if isptr else 'int', size * 8, size, None
    return t


class _Dead:
    def __repr__(self):
        return 'DEAD'


DEAD = _Dead()


class Client:
    """Typestate component; subclasses override the hooks.  st.cl must be hashable."""
    trust_globals = False
    keep_init = False           # keep facts about initial contents of memory that are in no register

    def start(self, eng, st, fn):
        return ()

    def key(self, eng, st):
        return st.cl

    def atoms(self, eng, st, live):
        pass

    def prune(self, eng, st, live):
        """drop what the typestate remembers about values no longer held in any register"""

    def distinct(self, eng, st, x, y):
        return False

    def initial(self, eng, st, p, ty, desc):
        return eng.opaque(desc, ty.kind == 'ptr', ty)

    def exact_end(self, eng, st, p):
        """the length of the text at p, when the client knows it"""

    count_calls = True        # a loop steered by what calls return is followed turn by turn
    relational = False        # keep differences of variables that change in the same loop

    def peel(self, eng, st, hdr):
        return 0

    def trunc_ok(self, eng, st, I, v):
        return False

    def on_fact(self, eng, st, a, lo, hi):
        return True

    def on_load(self, eng, st, I, p):
        return None

    def on_store(self, eng, st, I, p, v, size):
        pass

    def on_binop(self, eng, st, I, a, b, r):
        pass

    def on_gep(self, eng, st, I, p, r):
        pass

    def on_write(self, eng, st, I, p, n, what):
        pass

    def on_read(self, eng, st, I, p, n, what):
        pass

    def string_bound(self, eng, st, p):
        return None

    def on_branch(self, eng, st, I, c, d):
        pass

    def on_call(self, eng, st, I, name, args):
        return None

    def on_enter(self, eng, st, fn):
        pass

    def on_leave(self, eng, st, fn, call, v):
        pass

    def on_exit_frame(self, eng, st, I, v):
        pass

    def on_return(self, eng, st, I, v):
        pass


def trace_lines(st, n=12):
    out = []
    t = st.trace
    while t and len(out) < n:
        out.append('%d%s' % (t[1], t[2]))
        t = t[0]
    return ' <- '.join(out)
