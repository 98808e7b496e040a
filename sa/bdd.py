"""Ordered binary decision diagrams over the source bits of value graphs: equality and implication of words that
contain sums and comparisons, decided for all values at once."""
from . import graph as G

F, T = 0, 1


class Bdd:
    def __init__(self, order=None):
        """order: leaf description -> weight of its lowest bit (bits of equal weight are neighbours)"""
        self.order = order or (lambda d: 0)
        self.node = [None, None]         # (var, low, high)
        self.uniq = {}
        self.memo = {}
        self.bits, self.leaves = {}, {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        i = self.uniq.get(k)
        if i is None:
            i = self.uniq[k] = len(self.node)
            self.node.append(k)
        return i

    def var(self, v):
        return self.mk(v, F, T)

    def ite(self, c, a, b):
        if c == T:
            return a
        if c == F:
            return b
        if a == b:
            return a
        if a == T and b == F:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        N = self.node
        v = N[c][0]
        for x in (a, b):
            if x > 1 and N[x][0] < v:
                v = N[x][0]

        def co(x, h):
            return N[x][1 + h] if x > 1 and N[x][0] == v else x
        r = self.mk(v, self.ite(co(c, 0), co(a, 0), co(b, 0)), self.ite(co(c, 1), co(a, 1), co(b, 1)))
        self.memo[k] = r
        return r

    def neg(self, a):
        return self.ite(a, F, T)

    def band(self, a, b):
        return self.ite(a, b, F)

    def bor(self, a, b):
        return self.ite(a, T, b)

    def xor(self, a, b):
        return self.ite(a, self.neg(b), b)

    # -- words (lists of nodes, lowest bit first)
    def add(self, a, b, c=F):
        out = []
        for x, y in zip(a, b):
            s = self.xor(x, y)
            out.append(self.xor(s, c))
            c = self.ite(s, c, x)
        return out

    def sub(self, a, b):
        return self.add(a, [self.neg(x) for x in b], T)

    def num(self, n, w):
        return [T if n >> i & 1 else F for i in range(w)]

    def scale(self, a, c, w):
        a = (list(a) + [F] * w)[:w]
        r = self.num(0, w)
        for i in range(w):
            if c >> i & 1:
                r = self.add(r, ([F] * i + a)[:w])
        return r

    def less(self, a, b, r=F):
        for x, y in zip(a, b):
            r = self.ite(self.xor(x, y), y, r)
        return r

    def eq(self, a, b):
        r = T
        for x, y in zip(a, b):
            r = self.band(r, self.neg(self.xor(x, y)))
            if r == F:
                break
        return r

    # -- value graphs
    def leaf(self, l):
        r = self.leaves.get(l)
        if r is None:
            d, w = G._leaf_of[l]
            if d[0] == 'sum':
                r = self.num(d[2], w)
                for x, c in d[1]:
                    y = (self.word(G._val_of[x]) + [F] * w)[:w]
                    if c >> (w - 1):
                        r = self.sub(r, self.scale(y, (1 << w) - c, w))
                    else:
                        r = self.add(r, self.scale(y, c, w))
            elif d[0] in ('eq', 'lt', 'le'):
                x, y = self.word(G._val_of[d[1]]), self.word(G._val_of[d[2]])
                r = [self.eq(x, y) if d[0] == 'eq' else self.less(x, y, T if d[0] == 'le' else F)]
            elif d[0] == 'bit':
                x, y = self.bit(d[2]), self.bit(d[3])
                r = [{'and': self.band, 'or': self.bor, 'xor': self.xor}[d[1]](x, y)]
            else:
                o = self.order(d)
                r = [self.var((o + i, l)) for i in range(w)]
            self.leaves[l] = r
        return r

    def bit(self, b):
        r = self.bits.get(b)
        if r is None:
            srcs, t = G._bit_of[b]
            xs = [self.leaf(l)[i] for l, i in srcs]
            memo = {}

            def build(n, t):
                w = 1 << n
                if t == 0:
                    return F
                if t == (1 << w) - 1:
                    return T
                k = (n, t)
                if k not in memo:
                    h = w >> 1
                    memo[k] = self.ite(xs[n - 1], build(n - 1, t >> h), build(n - 1, t & (1 << h) - 1))
                return memo[k]
            r = self.bits[b] = build(len(srcs), t)
        return r

    def word(self, v):
        return [self.bit(b) for b in v]

    def conds(self, s):
        r = T
        for c, x in s.conds:
            b = self.bit(c)
            r = self.band(r, b if x else self.neg(b))
            if r == F:
                break
        return r

    def same(self, pc, a, b):
        """a = b wherever pc holds"""
        return all(self.band(pc, self.xor(x, y)) == F for x, y in zip(self.word(a), self.word(b)))

    def witness(self, f):
        """an assignment under which f holds: {leaf description: number}"""
        out = {}
        while f > 1:
            (o, l), lo, hi = self.node[f]
            d, w = G._leaf_of[l]
            i = o - self.order(d)
            if hi != F:
                out[d] = out.get(d, 0) | 1 << i
                f = hi
            else:
                out.setdefault(d, 0)
                f = lo
        return out
