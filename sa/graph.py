"""Value graphs: what a function computes, as bit-exact expressions over what it reads.

Every bit of a value is a Boolean function (truth table) of at most CAP source bits; a source is a bit of memory or of
an argument at entry, or of a leaf (a sum modulo 2**n in canonical form, or an operation that stays opaque).  Shifts,
rotations, masks, byte composition, table look-ups and any way of writing a bitwise function of the same words
therefore have the same graph.  Branches fork; loops with constant bounds are unrolled, other loops stop at their
second arrival ('back') and are treated by induction by the caller."""
import functools
from .ir import AnalysisError

CAP = 16
_bits, _bit_of = {}, []
_vals, _val_of = {}, []
_leaves, _leaf_of = {}, []


def _bit(srcs, table):
    k = (srcs, table)
    i = _bits.get(k)
    if i is None:
        i = _bits[k] = len(_bit_of)
        _bit_of.append(k)
    return i


ZERO, ONE = _bit((), 0), _bit((), 1)


def leaf(desc, bits):
    """a fresh word: tuple of bits"""
    k = (desc, bits)
    i = _leaves.get(k)
    if i is None:
        i = _leaves[k] = len(_leaf_of)
        _leaf_of.append(k)
    return tuple(_bit(((i, j),), 2) for j in range(bits))


def vid(v):
    i = _vals.get(v)
    if i is None:
        i = _vals[v] = len(_val_of)
        _val_of.append(v)
    return i


@functools.lru_cache(maxsize=200000)
def const(n, bits):
    return tuple(ONE if n >> i & 1 else ZERO for i in range(bits))


def isconst(v):
    n = 0
    for i, b in enumerate(v):
        if b == ONE:
            n |= 1 << i
        elif b != ZERO:
            return None
    return n


def signed(n, bits):
    return n - (1 << bits) if n >> (bits - 1) & 1 else n


_exp = {}


def expand(b, U):
    k = (b, U)
    r = _exp.get(k)
    if r is not None:
        return r
    srcs, t = _bit_of[b]
    have = list(srcs)
    # insert missing variables at their position (U is sorted, so is srcs)
    for j, s in enumerate(U):
        if j < len(have) and have[j] == s:
            continue
        n = len(have) + 1
        for i in range(n - 2, j - 1, -1):
            low = t & lowmask(i, n)
            t = low | (t ^ low) << (1 << i)
        t |= t << (1 << j)
        have.insert(j, s)
    if len(U) <= 8:
        _exp[k] = t
    return t


_low = {}


def lowmask(j, n):
    """the rows of a table over n variables where variable j is 0"""
    r = _low.get((j, n))
    if r is None:
        r = (1 << (1 << j)) - 1
        w = 2 << j
        while w < 1 << n:
            r |= r << w
            w *= 2
        _low[(j, n)] = r
    return r


def reduce(U, t):
    """minimal support"""
    U = list(U)
    j = 0
    while j < len(U):
        n = len(U)
        if (t ^ t >> (1 << j)) & lowmask(j, n):
            j += 1
            continue
        t &= lowmask(j, n)
        for i in range(j, n - 1):
            t = (t | t >> (1 << i)) & lowmask(i + 1, n)
        U.pop(j)
    return _bit(tuple(U), t)


def union(*bs):
    s = set()
    for b in bs:
        s.update(_bit_of[b][0])
    return tuple(sorted(s))


_op = {}


def bop(op, a, b):
    if op == 'and':
        if a == ZERO or b == ZERO:
            return ZERO
        if a == ONE or a == b:
            return b
        if b == ONE:
            return a
    elif op == 'or':
        if a == ONE or b == ONE:
            return ONE
        if a == ZERO or a == b:
            return b
        if b == ZERO:
            return a
    else:
        if a == b:
            return ZERO
        if a == ZERO:
            return b
        if b == ZERO:
            return a
    if a > b:
        a, b = b, a
    k = (op, a, b)
    r = _op.get(k)
    if r is None:
        U = union(a, b)
        if len(U) > CAP:
            r = leaf(('bit', op, a, b), 1)[0]
        else:
            x, y = expand(a, U), expand(b, U)
            r = reduce(U, x & y if op == 'and' else x | y if op == 'or' else x ^ y)
        _op[k] = r
    return r


def bnot(a):
    return bop('xor', a, ONE)


def mux(c, a, b):
    if c == ONE:
        return a
    if c == ZERO:
        return b
    return bop('or', bop('and', c, a), bop('and', bnot(c), b))


def support(v):
    s = set()
    for b in v:
        s.update(_bit_of[b][0])
    return s


# ------------------------------------------------------------------------------------------------------ words
def sumform(v):
    """({value id: coefficient}, constant) of a word"""
    n = len(v)
    c = isconst(v)
    if c is not None:
        return {}, c
    s, t = _bit_of[v[0]]
    if len(s) == 1 and t == 2:
        d, w = _leaf_of[s[0][0]]
        if d[0] == 'sum' and w == n and v == leaf(d, w):
            return dict(d[1]), d[2]
    return {vid(v): 1}, 0


def ripple(a, b, cin):
    out, c = [], cin
    for x, y in zip(a, b):
        s = bop('xor', x, y)
        out.append(bop('xor', s, c))
        c = bop('or', bop('and', x, y), bop('and', s, c))
    return tuple(out), c


def small(*vs):
    s = set()
    for v in vs:
        for b in v:
            s.update(_bit_of[b][0])
        if len(s) > 12:
            return False
    return True


LOWBITS = False          # sums keep constant low bits apart


def lowconst(v):
    k = 0
    while k < len(v) and v[k] in (ZERO, ONE):
        k += 1
    return k


def addv(a, b, sub=False):
    n = len(a)
    if LOWBITS and not small(a, b):
        k = min(lowconst(a), lowconst(b))
        if 0 < k < n:
            x, y = isconst(a[:k]), isconst(b[:k])
            r = x - y if sub else x + y
            hi = addv(a[k:], b[k:], sub)
            if r < 0:
                hi = addv(hi, const((1 << n - k) - 1, n - k))
            elif r >> k:
                hi = addv(hi, const(1, n - k))
            return const(r & (1 << k) - 1, k) + hi
    if all(x == ZERO or y == ZERO for x, y in zip(a, b)) and not sub:
        return tuple(x if y == ZERO else y for x, y in zip(a, b))
    if small(a, b):
        if sub:
            return ripple(a, tuple(bnot(x) for x in b), ONE)[0]
        return ripple(a, b, ZERO)[0]
    m = (1 << n) - 1
    t, k = sumform(a)
    u, l = sumform(b)
    sg = -1 if sub else 1
    t = dict(t)
    for x, c in u.items():
        t[x] = t.get(x, 0) + sg * c & m
        if not t[x]:
            del t[x]
    return mksum(t, k + sg * l, n)


def mksum(t, k, n):
    k &= (1 << n) - 1
    if not t:
        return const(k, n)
    if k == 0 and list(t.values()) == [1]:
        return _val_of[list(t)[0]]
    return leaf(('sum', tuple(sorted(t.items())), k), n)


def scalev(a, c, n):
    m = (1 << n) - 1
    c &= m
    if c and c & (c - 1) == 0:
        s = c.bit_length() - 1
        return (ZERO,) * s + a[:n - s]
    if small(a):
        r, x = const(0, n), a
        for i in range(n):
            if c >> i & 1:
                r = addv(r, ((ZERO,) * i + a)[:n])
        return r
    t, k = sumform(a)
    return mksum({x: y * c & m for x, y in t.items() if y * c & m}, k * c, n)


def truncv(a, n):
    if n >= len(a):
        return a
    s, t = _bit_of[a[0]]
    if len(s) == 1 and t == 2:
        d, w = _leaf_of[s[0][0]]
        if d[0] == 'sum' and w == len(a) and a == leaf(d, w):
            m = (1 << n) - 1
            r = const(d[2] & m, n)
            for x, c in d[1]:
                r = addv(r, scalev(truncv(_val_of[x], n), c, n))
            return r
    return a[:n]


def opaque(name, n, *vs):
    return leaf((name,) + tuple(vid(v) for v in vs), n)


def shift(op, a, s):
    n = len(a)
    if s >= n:
        return (a[-1],) * n if op == 'ashr' else const(0, n)
    if op == 'shl':
        return (ZERO,) * s + a[:n - s]
    return a[s:] + ((a[-1] if op == 'ashr' else ZERO),) * s


def less(a, b, strict=True):
    """a < b unsigned, as a bit"""
    r = ZERO if strict else ONE
    for x, y in zip(a, b):
        r = mux(bop('xor', x, y), y, r)
    return r


def flip(a):
    return a[:-1] + (bnot(a[-1]),)


def icmp(p, a, b):
    if a == b:
        return ONE if p in ('eq', 'ule', 'uge', 'sle', 'sge') else ZERO
    ca, cb = isconst(a), isconst(b)
    if p in ('ne', 'eq'):
        if ca is not None and cb is not None:
            return ONE if (ca == cb) == (p == 'eq') else ZERO
        if small(a, b):
            r = ONE
            for x, y in zip(a, b):
                r = bop('and', r, bnot(bop('xor', x, y)))
        else:
            if any({x, y} == {ZERO, ONE} for x, y in zip(a, b)):
                r = ZERO
            else:
                r = opaque('eq', 1, *sorted((a, b), key=vid))[0]
        return r if p == 'eq' else bnot(r)
    if p[0] == 's':
        a, b = flip(a), flip(b)
    if p[1] == 'g':
        a, b = b, a
    strict = p[2] == 't'
    if small(a, b):
        return less(a, b, strict)
    return opaque('lt' if strict else 'le', 1, a, b)[0]


def binop(op, a, b):
    n = len(a)
    if op in ('and', 'or', 'xor'):
        return tuple(bop(op, x, y) for x, y in zip(a, b))
    if op in ('add', 'sub'):
        return addv(a, b, op == 'sub')
    cb, ca = isconst(b), isconst(a)
    if op == 'mul':
        if cb is not None:
            return scalev(a, cb, n)
        if ca is not None:
            return scalev(b, ca, n)
    if op in ('shl', 'lshr', 'ashr'):
        if cb is not None:
            return shift(op, a, cb)
        if small(b):
            r = const(0, n)
            vals = [(k, icmp('eq', b, const(k, n))) for k in range(n)]
            for k, c in vals:
                if c != ZERO:
                    r = tuple(mux(c, x, y) for x, y in zip(shift(op, a, k), r))
            return r
    if op in ('udiv', 'urem', 'sdiv', 'srem') and cb:
        if op[0] == 's' and (a[-1] != ZERO or cb >> (n - 1) & 1):
            if ca is not None:
                x, y = signed(ca, n), signed(cb, n)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return const((q if op == 'sdiv' else x - q * y) & (1 << n) - 1, n)
        else:
            if ca is not None:
                return const(ca // cb if 'div' in op else ca % cb, n)
            if cb & (cb - 1) == 0:
                s = cb.bit_length() - 1
                return shift('lshr', a, s) if 'div' in op else a[:s] + (ZERO,) * (n - s)
    return opaque(op, n, a, b)


def sources(v):
    """(leaf description, bit) of everything a word depends on, through sums and comparisons"""
    out, seen = set(), set()

    def word(x):
        for b in x:
            bit(b)

    def bit(b):
        for l, i in _bit_of[b][0]:
            if l in seen:
                continue
            seen.add(l)
            d, w = _leaf_of[l]
            if d[0] == 'sum':
                for x, c in d[1]:
                    word(_val_of[x])
            elif d[0] == 'bit':
                bit(d[2])
                bit(d[3])
            elif d[0] in ('eq', 'lt', 'le', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
                word(_val_of[d[1]])
                word(_val_of[d[2]])
            else:
                out.add(d)
    word(v)
    return out


def evaluate(v, env):
    """the word under an assignment {leaf description: number} of its leaves; None when one is missing"""
    memo = {}

    def lf(i):
        if i in memo:
            return memo[i]
        d, w = _leaf_of[i]
        if d in env:
            r = env[d]
        elif d[0] == 'sum':
            r = d[2]
            for x, c in d[1]:
                y = word(_val_of[x])
                if y is None:
                    r = None
                    break
                r += c * y
        elif d[0] in ('eq', 'lt', 'le', 'mul', 'udiv', 'urem'):
            x, y = word(_val_of[d[1]]), word(_val_of[d[2]])
            if x is None or y is None:
                r = None
            else:
                r = {'eq': lambda: x == y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'mul': lambda: x * y,
                     'udiv': lambda: x // y if y else None, 'urem': lambda: x % y if y else None}[d[0]]()
                r = None if r is None else int(r)
        elif d[0] == 'bit':
            x, y = bit(d[2]), bit(d[3])
            r = None if x is None or y is None else {'and': x & y, 'or': x | y, 'xor': x ^ y}[d[1]]
        else:
            r = None
        if r is not None:
            r &= (1 << w) - 1
        memo[i] = r
        return r

    def bit(b):
        s, t = _bit_of[b]
        row = 0
        for j, (l, i) in enumerate(s):
            x = lf(l)
            if x is None:
                return None
            row |= (x >> i & 1) << j
        return t >> row & 1

    def word(x):
        n = 0
        for i, b in enumerate(x):
            y = bit(b)
            if y is None:
                return None
            n |= y << i
        return n
    return word(v)


# --------------------------------------------------------------------------------------------------- functions
class P:
    """pointer: base and offset (a constant part and a 64-bit word or None)"""
    __slots__ = ('b', 'o', 'v')

    def __init__(self, b, o=0, v=None):
        self.b, self.o, self.v = b, o, v

    def key(self):
        return ('P', self.b, self.o, self.v)

    def __eq__(self, x):
        return isinstance(x, P) and self.key() == x.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'P(%r+%r%s)' % (self.b, self.o, '+?' if self.v else '')


NULLP = P('null')
_pdom = {}


def ipdom(fn, blk):
    """the block where all ways from this block meet first, or None"""
    r = _pdom.get(id(fn))
    if r is None:
        ids = {b.idx for b in fn.blocks}
        pd = {b.idx: ({b.idx} if not b.succs else set(ids)) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                if b.succs:
                    n = set.intersection(*[pd[x.idx] for x in b.succs]) | {b.idx}
                    if n != pd[b.idx]:
                        pd[b.idx], ch = n, True
        r = {}
        by = {b.idx: b for b in fn.blocks}
        for b in fn.blocks:
            c = [x for x in pd[b.idx] if x != b.idx]
            n = [x for x in c if all(y in pd[x] for y in c)]
            r[b.idx] = by[n[0]] if n else None
        _pdom[id(fn)] = r
    return r[blk.idx]


class S:
    def copy(self):
        s = S()
        s.fr = [(f, b, i, dict(e), r, dict(v)) for f, b, i, e, r, v in self.fr]
        s.mem, s.ptr, s.epoch = dict(self.mem), dict(self.ptr), dict(self.epoch)
        s.conds, s.nfork, s.events = self.conds, self.nfork, self.events
        s.pc = self.pc
        return s


class Graph:
    decide = None            # (state, condition) -> True/False/None

    def __init__(self, prog, hook=None, inline=None, steps=200000, merge=False):
        self.prog, self.hook, self.inline, self.merge = prog, hook, inline, merge
        self.steps = steps
        self.done = []           # ('ret', value, state) | ('back', block, state)
        self.nblocks = 0

    def begin(self, fn, args, init=None):
        s = S()
        s.fr = [(fn, fn.blocks[0], 0, {p: a for (p, t), a in zip(fn.params, args)}, None, {})]
        s.mem, s.ptr, s.epoch, s.conds, s.nfork, s.events, s.pc = {}, {}, {}, (), 0, (), ONE
        if init:
            init(s)
        return s

    def run(self, s):
        self.explore([s], None, None)
        return self.done

    def explore(self, work, depth, stop):
        """until everything has ended or arrived at the block"""
        there = []
        while work:
            x = work.pop()
            f = x.fr[-1]
            if stop is not None and len(x.fr) == depth and f[1] is stop and f[2] == 0:
                there.append(x)
            else:
                work += self.block(x)
        return there

    def rejoin(self, states, fn, blk, depth, conds, pc, nfork):
        """the states behind a branch meet again where its ways do"""
        m = ipdom(fn, blk) if self.merge else None
        if m is None or len(states) < 2:
            return states
        work = self.explore(states, depth, m)
        k = len(conds)
        while True:
            for i, a in enumerate(work):
                for j, b in enumerate(work):
                    ca, cb = a.conds, b.conds
                    if i < j and len(ca) == len(cb) > k and ca[:-1] == cb[:-1] and ca[-1][0] == cb[-1][0] and ca[-1][1] != cb[-1][1]:
                        t, f = (a, b) if ca[-1][1] else (b, a)
                        r = self.mux(ca[-1][0], t, f)
                        if r is not None:
                            break
                else:
                    continue
                break
            else:
                break
            r.conds = ca[:-1]
            r.pc = bop('or', a.pc, b.pc)
            work = [r] + [w for w in work if w is not a and w is not b]
        if len(work) == 1 and work[0].conds == conds:
            work[0].nfork, work[0].pc = nfork, pc
            f = work[0].fr[-1]
            f[5][f[1].idx] = nfork
        return work

    def mux(self, c, a, b):
        if a.events != b.events or a.epoch != b.epoch or a.ptr != b.ptr:
            return None
        r = a.copy()
        env, other = r.fr[-1][3], b.fr[-1][3]
        for k in list(env):
            v, w = env[k], other.get(k)
            if w is None:
                del env[k]
            elif v != w:
                if isinstance(v, P) and isinstance(w, P) and v.b == w.b:
                    x, y = (addv(q.v or const(0, 64), const(q.o & (1 << 64) - 1, 64)) for q in (v, w))
                    env[k] = P(v.b, 0, tuple(mux(c, i, j) for i, j in zip(x, y)))
                elif isinstance(v, P) or isinstance(w, P):
                    return None
                else:
                    env[k] = tuple(mux(c, i, j) for i, j in zip(v, w))
        for k in set(r.mem) | set(b.mem):
            v, w = self.byte(a, *k), self.byte(b, *k)
            r.mem[k] = v if v == w else tuple(mux(c, i, j) for i, j in zip(v, w))
        return r

    # -- memory
    def byte(self, s, b, o):
        k = (b, o)
        v = s.mem.get(k)
        if v is None:
            g = self.prog.globals.get(b[1]) if isinstance(b, tuple) and b[0] == 'G' else None
            if g is not None and g.const:
                n = self.gbyte(g, o)
                if n is not None:
                    return const(n, 8)
            v = leaf(('mem', b, o, s.epoch.get(b, 0)), 8)
        return v

    def gbyte(self, g, o):
        if g.sval is not None and 0 <= o < len(g.sval):
            c = g.sval[o]
            return c if isinstance(c, int) else ord(c)
        for off, size, val in g.cells or ():
            if off <= o < off + size:
                if val[0] == 's':
                    c = val[1][o - off]
                    return c if isinstance(c, int) else ord(c)
                return (val[1] >> 8 * (o - off)) & 255 if val[0] == 'i' else 0 if val[0] == 'z' else None
        return 0 if 0 <= o < g.ty.size else None

    def load(self, s, p, n):
        if not isinstance(p, P):
            return leaf(('ld?',), n)
        b = p.b
        if p.v is not None:
            if isinstance(b, tuple) and b[0] == 'G':
                return self.lookup(s, p, n)
            b = ('at', p.b, vid(p.v), s.epoch.get(p.b, 0))
        out = ()
        for i in range((n + 7) // 8):
            out += self.byte(s, b, p.o + i)
        return out[:n]

    def lookup(self, s, p, n):
        """a table read at a computed index"""
        g = self.prog.globals.get(p.b[1]) if isinstance(p.b, tuple) and p.b[0] == 'G' else None
        w = (n + 7) // 8
        off = addv(p.v, const(p.o & (1 << 64) - 1, 64))
        if g is None or not g.const or len(support(off)) > CAP:
            return leaf(('ldx', p.b, vid(off), n, s.epoch.get(p.b, 0)), n)
        r = const(0, n)
        cov = ZERO
        for o in range(0, g.ty.size - w + 1):
            hit = ONE
            for i in range(64):
                hit = bop('and', hit, off[i] if o >> i & 1 else bnot(off[i]))
                if hit == ZERO:
                    break
            if hit == ZERO:
                continue
            x = 0
            for i in range(w):
                y = self.gbyte(g, o + i)
                if y is None:
                    return leaf(('ldx', p.b, vid(off), n, s.epoch.get(p.b, 0)), n)
                x |= y << 8 * i
            cov = bop('or', cov, hit)
            r = tuple(bop('or', z, hit) if x >> i & 1 else z for i, z in enumerate(r))
        if bop('and', s.pc, bnot(cov)) != ZERO:
            return leaf(('oob', p.b, vid(off), n), n)
        return r

    def store(self, s, p, v):
        if not isinstance(p, P):
            return
        if p.v is not None:
            self.clobber(s, p.b, p.o)
            return
        if isinstance(v, P):
            s.ptr[(p.b, p.o)] = v
            for i in range(8):
                s.mem[(p.b, p.o + i)] = leaf(('ptrbyte', v.key(), i), 8)
            return
        s.ptr.pop((p.b, p.o), None)
        for i in range((len(v) + 7) // 8):
            x = v[8 * i:8 * i + 8]
            s.mem[(p.b, p.o + i)] = x + (ZERO,) * (8 - len(x))

    structs = {}             # base: struct name

    def clobber(self, s, b, o=None):
        """something unknown is written into b (inside the member at o)"""
        s.epoch[b] = s.epoch.get(b, 0) + 1
        lo, hi = None, None
        if o is not None and b in self.structs:
            for f, (name, size) in self.prog.structs[self.structs[b]].items():
                if f <= o < f + size:
                    lo, hi = f, f + size
        if lo is not None:
            for i in range(lo, hi):
                s.mem[(b, i)] = leaf(('mem', b, i, s.epoch[b]), 8)
                s.ptr.pop((b, i), None)
            # the rest keeps what it has, also what was never written
            for f, (name, size) in self.prog.structs[self.structs[b]].items():
                for i in range(f, f + size):
                    if not lo <= i < hi and (b, i) not in s.mem:
                        s.mem[(b, i)] = leaf(('mem', b, i, s.epoch[b] - 1), 8)
            return
        for k in [k for k in s.mem if k[0] == b]:
            del s.mem[k]
        for k in [k for k in s.ptr if k[0] == b]:
            del s.ptr[k]

    # -- operands
    def ev(self, s, o, ty=None):
        k = o[0]
        env = s.fr[-1][3]
        if k == 'v':
            v = env.get(o[1])
            return v if v is not None else leaf(('undef', o[1]), ty.bits if ty is not None and ty.kind == 'int' else 64)
        if k == 'i':
            n = ty.bits if ty is not None and ty.kind == 'int' else 64
            return const(o[1] & (1 << n) - 1, n)
        if k == 'g':
            return P(('G', o[1]), o[2] if len(o) > 2 and isinstance(o[2], int) else 0)
        if k == 'z':
            return NULLP if ty is None or ty.kind == 'ptr' else const(0, ty.bits)
        if k == 'f':
            return P(('F', o[1]))
        return leaf(('undefc',), ty.bits if ty is not None and ty.kind == 'int' else 64)

    def pair(self, s, I, ty):
        a, b = self.ev(s, I.args[0], ty), self.ev(s, I.args[1], ty)
        return a, b

    def block(self, s):
        fn, blk, i, env, ret, visits = s.fr[-1]
        self.nblocks += 1
        while i < len(blk.insts):
            I = blk.insts[i]
            i += 1
            self.steps -= 1
            if self.steps < 0:
                raise AnalysisError('value graph of %s: too many steps' % fn.name)
            op = I.op
            if op == 'phi':
                continue
            if op == 'br':
                if not I.args:
                    return self.goto(s, blk, blk.succs[0])
                c = self.ev(s, I.args[0])
                return self.fork(s, blk, c[0] if isinstance(c, tuple) else leaf(('br?', I.id), 1)[0], blk.succs[0], blk.succs[1])
            if op == 'switch':
                v = self.ev(s, I.args[0])
                cases, d = I.x
                out, was = [], (s.conds, s.pc, s.nfork)
                depth = len(s.fr)
                for c, b in cases:
                    e = icmp('eq', v, const(c & (1 << len(v)) - 1, len(v)))
                    r = self.split(s, e)
                    if r[0] is not None:
                        out += self.goto(r[0], blk, b)
                    if r[1] is None:
                        return self.rejoin(out, fn, blk, depth, *was)
                    s = r[1]
                return self.rejoin(out + self.goto(s, blk, d), fn, blk, depth, *was)
            if op == 'ret':
                v = self.ev(s, I.args[0], fn.ret) if I.args else None
                s.fr.pop()
                if not s.fr:
                    self.done.append(('ret', v, s))
                    return []
                if ret is not None and v is not None:
                    s.fr[-1][3][ret] = v
                return [s]
            if op == 'unreachable':
                return []
            if op == 'call':
                s.fr[-1] = (fn, blk, i, env, ret, visits)
                r = self.call(s, I)
                if r == 'enter':
                    return [s]
                continue
            self.inst(s, I, env)
        raise AnalysisError('block without end')

    def split(self, s, c):
        """(state with c, state without c)"""
        if c == ONE:
            return s, None
        if c == ZERO:
            return None, s
        for d, x in s.conds:
            if d == c:
                return (s, None) if x else (None, s)
            if bnot(d) == c:
                return (None, s) if x else (s, None)
        if self.decide is not None:
            r = self.decide(s, c)
            if r is not None:
                return (s, None) if r else (None, s)
        t = s.copy()
        p = q = None
        if len(union(s.pc, c)) <= CAP:
            p, q = bop('and', s.pc, c), bop('and', s.pc, bnot(c))
            if p == ZERO:
                return None, s
            if q == ZERO:
                return s, None
            s.pc, t.pc = p, q
        s.conds += ((c, True),)
        t.conds += ((c, False),)
        s.nfork += 1
        t.nfork += 1
        return s, t

    def fork(self, s, blk, c, a, b):
        was, fn, depth = (s.conds, s.pc, s.nfork), s.fr[-1][0], len(s.fr)
        x, y = self.split(s, c)
        out = []
        if x is not None:
            out += self.goto(x, blk, a)
        if y is not None:
            out += self.goto(y, blk, b)
        return self.rejoin(out, fn, blk, depth, *was)

    def goto(self, s, src, dst):
        fn, _, _, env, ret, visits = s.fr[-1]
        vals = {}
        for ph in dst.phis:
            for b, v in ph.x:
                if b is src:
                    vals[ph.id] = self.ev(s, v, ph.ty)
        env.update(vals)
        n = visits.get(dst.idx)
        visits[dst.idx] = s.nfork
        s.fr[-1] = (fn, dst, 0, env, ret, visits)
        if n is not None and n != s.nfork and dst in fn.loops:
            self.done.append(('back', dst, s))
            return []
        return [s]

    def call(self, s, I):
        g = I.x
        name = g[1] if g and g[0] == 'f' else None
        name = name if isinstance(name, str) or name is None else name[1]
        fn = self.prog.funcs.get(g[1]) if g and g[0] == 'f' else None
        args = []
        for n, a in enumerate(I.args):
            ty = fn.params[n][1] if fn is not None and n < len(fn.params) else None
            args.append(self.ev(s, a, ty))
        env = s.fr[-1][3]
        if self.hook is not None:
            r = self.hook(self, s, I, name, args)
            if r is not None:
                if I.ty.kind != 'void' and r is not True:
                    env[I.id] = r
                return None
        if fn is not None and len(s.fr) < 12 and (self.inline is None or self.inline(fn)):
            s.fr.append((fn, fn.blocks[0], 0, {p: a for (p, t), a in zip(fn.params, args)},
                         I.id if I.ty.kind != 'void' else None, {}))
            return 'enter'
        n = isconst(args[2]) if len(args) > 2 and isinstance(args[2], tuple) else None
        if name and (name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove')):
            self.copy(s, args[0], args[1], n)
            if I.ty.kind != 'void':
                env[I.id] = args[0]
            return None
        if name and (name.startswith('llvm.memset') or name == 'memset'):
            self.fill(s, args[0], args[1], n)
            if I.ty.kind != 'void':
                env[I.id] = args[0]
            return None
        if name and name.startswith('llvm.bswap'):
            v = args[0]
            env[I.id] = sum((v[i:i + 8] for i in range(len(v) - 8, -1, -8)), ())
            return None
        if name in ('ntohl', 'htonl', 'ntohs', 'htons'):
            v = args[0]
            k = 32 if name[-1] == 'l' else 16
            v = v[:k]
            env[I.id] = sum((v[i:i + 8] for i in range(k - 8, -1, -8)), ())
            if I.ty.bits > k:
                env[I.id] += (ZERO,) * (I.ty.bits - k)
            return None
        if name and (name.startswith('llvm.fshl') or name.startswith('llvm.fshr')):
            a, b, c = args
            k, n = isconst(c), len(a)
            if k is not None:
                k %= n
                cat = b + a
                st = n - k if name.startswith('llvm.fshl') else k
                env[I.id] = cat[st:st + n] if name.startswith('llvm.fshr') or k else a
                return None
        if name and name.startswith('llvm.') and I.ty.kind == 'void':
            return None
        # anything else may change what it is given
        for a in args:
            if isinstance(a, P) and not (isinstance(a.b, tuple) and a.b[0] == 'G'):
                self.clobber(s, a.b)
        if I.ty.kind == 'ptr':
            env[I.id] = P(('call', I.id, s.nfork))
        elif I.ty.kind == 'int':
            env[I.id] = leaf(('call', I.fn.name, I.id, len(s.events)), I.ty.bits)
        s.events += (('call', name),)
        return None

    def copy(self, s, d, a, n):
        if not isinstance(d, P):
            return
        if n is None or n > 1 << 16 or d.v is not None or not isinstance(a, P):
            self.clobber(s, d.b, d.o)
            return
        if a.v is not None:
            for i, v in enumerate([self.load(s, P(a.b, a.o + i, a.v), 8) for i in range(n)]):
                s.mem[(d.b, d.o + i)] = v
                s.ptr.pop((d.b, d.o + i), None)
            return
        vals = [self.byte(s, a.b, a.o + i) for i in range(n)]
        ptrs = {k[1] - a.o: v for k, v in s.ptr.items() if k[0] == a.b and a.o <= k[1] < a.o + n}
        for i, v in enumerate(vals):
            s.mem[(d.b, d.o + i)] = v
            s.ptr.pop((d.b, d.o + i), None)
        for i, v in ptrs.items():
            s.ptr[(d.b, d.o + i)] = v

    def fill(self, s, d, v, n):
        if not isinstance(d, P):
            return
        if n is None or n > 1 << 16 or d.v is not None:
            self.clobber(s, d.b, d.o)
            return
        for i in range(n):
            s.mem[(d.b, d.o + i)] = v[:8]
            s.ptr.pop((d.b, d.o + i), None)

    def inst(self, s, I, env):
        op = I.op
        if op == 'alloca':
            env[I.id] = P(('L', I.fn.name, I.id, len(s.fr)))
        elif op == 'load':
            p = self.ev(s, I.args[0])
            if I.ty.kind == 'ptr':
                if isinstance(p, P) and p.v is None:
                    env[I.id] = s.ptr.get((p.b, p.o)) or P(('pmem', p.b, p.o, s.epoch.get(p.b, 0)))
                else:
                    env[I.id] = P(('pmem?', I.id, s.nfork))
            else:
                env[I.id] = self.load(s, p, I.ty.bits)
        elif op == 'store':
            v = self.ev(s, I.args[0], I.x)
            self.store(s, self.ev(s, I.args[1]), v)
        elif op == 'gep':
            p = self.ev(s, I.args[0])
            off, var, path = I.x
            if not isinstance(p, P):
                env[I.id] = P(('num', vid(p)))
                return
            o, v = p.o + off, p.v
            for oo, sc in var:
                x = self.ev(s, oo)
                x = x + (x[-1],) * (64 - len(x))
                x = scalev(x, sc & (1 << 64) - 1, 64)
                v = x if v is None else addv(v, x)
            if v is not None:
                c = isconst(v)
                if c is not None:
                    o, v = o + signed(c, 64), None
                else:
                    t, k = sumform(v)
                    if k and t:
                        o, v = o + signed(k, 64), mksum(t, 0, 64)
            env[I.id] = P(p.b, o, v)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.pair(s, I, I.ty)
            if isinstance(a, P) or isinstance(b, P):
                env[I.id] = leaf(('ptrop', I.id), I.ty.bits)
            else:
                env[I.id] = binop(op, a, b)
        elif op == 'icmp':
            a, b = self.pair(s, I, I.ty)
            if isinstance(a, P) or isinstance(b, P):
                env[I.id] = self.pcmp(I.x, a, b)
            else:
                env[I.id] = (icmp(I.x, a, b),)
        elif op == 'zext':
            v = self.ev(s, I.args[0], I.x)
            env[I.id] = v + (ZERO,) * (I.ty.bits - len(v))
        elif op == 'sext':
            v = self.ev(s, I.args[0], I.x)
            env[I.id] = v + (v[-1],) * (I.ty.bits - len(v))
        elif op == 'trunc':
            env[I.id] = truncv(self.ev(s, I.args[0], I.x), I.ty.bits)
        elif op == 'select':
            c, a, b = self.ev(s, I.args[0]), self.ev(s, I.args[1], I.ty), self.ev(s, I.args[2], I.ty)
            k = c[0]
            for d, x in s.conds:
                if d == k:
                    k = ONE if x else ZERO
            if k in (ONE, ZERO):
                env[I.id] = a if k == ONE else b
            elif isinstance(a, P) or isinstance(b, P):
                env[I.id] = a if a == b else P(('sel', k, repr(a), repr(b)))
            else:
                env[I.id] = tuple(mux(k, x, y) for x, y in zip(a, b))
        elif op in ('bitcast', 'freeze', 'addrspacecast'):
            env[I.id] = self.ev(s, I.args[0], I.ty)
        elif op == 'ptrtoint':
            v = self.ev(s, I.args[0])
            r = leaf(('addr', v.b), 64) if isinstance(v, P) else v
            if isinstance(v, P):
                r = addv(r, const(v.o & (1 << 64) - 1, 64))
                r = addv(r, v.v) if v.v is not None else r
            env[I.id] = truncv(r, I.ty.bits)
        else:
            env[I.id] = leaf((op, I.fn.name, I.id, s.nfork), I.ty.bits if I.ty.kind == 'int' else 64)

    def pcmp(self, p, a, b):
        if isinstance(a, P) and isinstance(b, P):
            if a == b:
                return (ONE if p in ('eq', 'ule', 'uge') else ZERO,)
            if a.b == b.b:
                x = addv(const(a.o & (1 << 64) - 1, 64), a.v) if a.v else const(a.o & (1 << 64) - 1, 64)
                y = addv(const(b.o & (1 << 64) - 1, 64), b.v) if b.v else const(b.o & (1 << 64) - 1, 64)
                if a.v == b.v:
                    x, y = const(a.o + (1 << 40), 64), const(b.o + (1 << 40), 64)
                return (icmp(p, x, y),)
        return leaf(('pcmp', p, repr(a), repr(b)), 1)
