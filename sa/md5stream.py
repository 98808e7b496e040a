"""K03: feeding a message in pieces and finishing it, as an induction over the calls.

Invariant of the context between calls: lo + 2**29 * hi is the number of bytes so far, the first (count mod 64) bytes of
the buffer are the last of them, and the state is that of the whole blocks before (K01 shows what a block does to it).
Every call is evaluated once per (count mod 64, size mod 64), with all other bits of the count and the size arbitrary."""
import os
import pickle
from . import graph as G
from .ir import AnalysisError
from .graph import P, leaf, const, addv
from .bdd import Bdd, F, T
from .md5chk import core, fields, covered

WEIGHT = {'size': 0, 'lo': 0, 'loup': 6, 'q': 6, 'hi': 29}


SHARES = 8


def shared(f, arg):
    """the shares of f, each computed by a process of its own"""
    kids = []
    for k in range(SHARES):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                out = f(arg, k)
            except AnalysisError as e:
                out = (0, set(), [], [str(e)])
            except BaseException as e:
                out = (0, set(), [], ['%s: %s' % (type(e).__name__, e)])
            with os.fdopen(w, 'wb') as p:
                pickle.dump(out, p)
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    outs = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as p:
            d = p.read()
        os.waitpid(pid, 0)
        outs.append(pickle.loads(d) if d else (0, set(), [], ['a share of the analysis was lost']))
    return outs


class Stream:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.core = core(self.prog)
        self.struct, self.off = fields(self.prog)
        for f in ('lo', 'hi', 'buffer'):
            self.off[f] = self.prog.off(self.struct, f)
        self.B = Bdd(lambda d: WEIGHT.get(d[0], 100))
        self.assume = T
        self.told = set()

    def bad(self, fn, rule, msg, key=None):
        if (fn.name, rule) not in self.told:
            self.told.add((fn.name, rule))
            self.ctx.violation(fn.blocks[0].insts[0], rule, msg, None, key or rule)

    def hook(self, g, s, I, name, args):
        if name != self.core.name or len(args) < 2:
            return None
        d = args[1]
        size = args[2] if len(args) > 2 else const(64, 64)
        got = None
        if isinstance(d, P) and d.b == 'ctx' and d.v is None:
            got = tuple(g.byte(s, 'ctx', d.o + i) for i in range(64))
        s.events += (('block', d, size, got),)
        for f in 'abcd':
            g.store(s, P('ctx', self.off[f]), leaf(('out', f, len(s.events)), 32))
        if I.ty.kind != 'ptr':
            return True
        if not isinstance(d, P):
            return P(('num',))
        k = G.isconst(size)
        if k is not None:
            return P(d.b, d.o + k, d.v)
        return P(d.b, d.o, size if d.v is None else addv(d.v, size))

    def decide(self, s, c):
        pc = self.B.band(self.assume, self.B.conds(s))
        x = self.B.bit(c)
        if self.B.band(pc, x) == F:
            return False
        if self.B.band(pc, self.B.neg(x)) == F:
            return True
        return None

    def graph(self):
        g = G.Graph(self.prog, self.hook)
        g.structs = {'ctx': self.struct}
        g.decide = self.decide
        return g

    # -- bytes of the message
    def offset(self, p):
        """a pointer into the data as a 64-bit word"""
        o = const(p.o & (1 << 64) - 1, 64)
        return o if p.v is None else addv(p.v, o)

    def isdata(self, pc, v, off):
        """v is the byte of the data at the offset"""
        if len(v) != 8:
            return False
        srcs, t = G._bit_of[v[0]]
        if len(srcs) != 1:
            return False
        l = srcs[0][0]
        d, w = G._leaf_of[l]
        if d[0] != 'mem' or v != leaf(d, 8):
            return False
        if d[1] == 'data':
            o = const(d[2] & (1 << 64) - 1, 64)
        elif isinstance(d[1], tuple) and d[1][:2] == ('at', 'data'):
            o = addv(G._val_of[d[1][2]], const(d[2] & (1 << 64) - 1, 64))
        else:
            return False
        return o == off or self.B.same(pc, o, off)

    def old(self, i):
        return leaf(('mem', 'ctx', self.off['buffer'] + i, 0), 8)

    def update(self, fn, u, r, q):
        B, ctx = self.B, self.ctx
        g = self.graph()
        size = const(r, 6) + (const(q, 58) if isinstance(q, int) else q)
        q = size[6:]
        self.assume = T
        if G.isconst(q) is None:
            self.assume = B.neg(B.less(B.word(q), B.num(2, 58)))
        s0 = g.begin(fn, [P('ctx'), P('data'), size])
        g.store(s0, P('ctx', self.off['lo']), const(u, 6) + leaf(('loup',), 23) + const(0, 3))
        g.store(s0, P('ctx', self.off['hi']), leaf(('hi',), 32))
        out = g.run(s0)
        if any(x[0] != 'ret' for x in out):
            return None
        nfull = addv(q, const((u + r) // 64, 58))
        end = addv(const(0, 6) + nfull, const((1 << 64) - u, 64))
        tail = (u + r) % 64
        for _, v, s in out:
            pc = B.band(self.assume, B.conds(s))
            if pc == F:
                continue
            off, started = const(0, 64), u == 0
            for kind, *ev in s.events:
                if kind != 'block':
                    continue
                d, n, got = ev
                if got is not None:
                    if d.o != self.off['buffer'] or not B.same(pc, n, const(64, len(n))):
                        self.bad(fn, 'blocks', 'something other than the buffer is processed as one block')
                        return False
                    for i in range(64):
                        if not started and i < u:
                            ok = got[i] == self.old(i)
                        elif not started:
                            ok = self.isdata(pc, got[i], const(i - u, 64))
                        else:
                            ok = self.isdata(pc, got[i], addv(off, const(i, 64)))
                        if not ok:
                            self.bad(fn, 'blocks', 'byte %d of a block is not the next byte of the message (%d bytes in the buffer, size %% 64 = %d)' % (i, u, r))
                            return False
                    off = addv(off, const(64, 64)) if started else const(64 - u, 64)
                    started = True
                else:
                    if not isinstance(d, P) or d.b != 'data' or not started or not B.same(pc, self.offset(d), off):
                        self.bad(fn, 'blocks', 'what is processed does not begin with the next byte of the message (%d bytes in the buffer, size %% 64 = %d)' % (u, r))
                        return False
                    if any(B.band(pc, B.bit(b)) != F for b in n[:6]):
                        self.bad(fn, 'blocks', 'what is processed is not a number of whole blocks')
                        return False
                    if B.band(pc, B.eq(B.word(n), B.num(0, len(n)))) != F:
                        self.bad(fn, 'blocks', 'no block at all is handed over to be processed (%d bytes in the buffer, size %% 64 = %d)' % (u, r))
                        return False
                    off = addv(off, n + (G.ZERO,) * (64 - len(n)))
            if not started or not s.events:
                if B.band(pc, B.neg(B.eq(B.word(nfull), B.num(0, 58)))) != F:
                    self.bad(fn, 'blocks', 'a whole block is not processed (%d bytes in the buffer, size %% 64 = %d)' % (u, r))
                    return False
            elif not B.same(pc, off, end):
                self.bad(fn, 'blocks', 'not all whole blocks are processed (%d bytes in the buffer, size %% 64 = %d)' % (u, r))
                return False
            for i in range(tail):
                v = g.byte(s, 'ctx', self.off['buffer'] + i)
                if not s.events:
                    ok = v == self.old(i) if i < u else self.isdata(pc, v, const(i - u, 64))
                else:
                    ok = self.isdata(pc, v, addv(off, const(i, 64)))
                if not ok:
                    self.bad(fn, 'rest', 'byte %d of the buffer is not the byte of the message that belongs there (%d bytes in the buffer, size %% 64 = %d)' % (i, u, r))
                    return False
        self.runs += 1
        return True

    def count(self, fn):
        """the number of bytes"""
        B = self.B
        g = self.graph()
        self.assume = T
        lo, hi, size = leaf(('lo',), 29), leaf(('hi',), 32), leaf(('size',), 64)
        s0 = g.begin(fn, [P('ctx'), P('data'), size])
        g.store(s0, P('ctx', self.off['lo']), lo + const(0, 3))
        g.store(s0, P('ctx', self.off['hi']), hi)
        out = g.run(s0)
        covered(self.ctx, fn, g, out)
        total = B.add(B.word(lo + hi), B.word(size[:61]))
        for kind, v, s in out:
            pc = B.conds(s)
            if pc == F:
                continue
            for f, w in (('lo', total[:29] + [F] * 3), ('hi', total[29:])):
                x = B.word(g.load(s, P('ctx', self.off[f]), 32))
                if any(B.band(pc, B.xor(a, b)) != F for a, b in zip(x, w)):
                    self.bad(fn, 'count', 'the number of bytes is not added up right (%s)' % f, f)
                else:
                    self.ctx.obligation('count', f)

    def final(self, fn, u):
        B = self.B
        g = self.graph()
        self.assume = T
        up, hi = leaf(('loup',), 23), leaf(('hi',), 32)
        s0 = g.begin(fn, [P('result'), P('ctx')])
        g.store(s0, P('ctx', self.off['lo']), const(u, 6) + up + const(0, 3))
        g.store(s0, P('ctx', self.off['hi']), hi)
        out = g.run(s0)
        bits = const(0, 3) + const(u, 6) + up + hi
        msg = [self.old(i) for i in range(u)] + [const(0x80, 8)]
        while len(msg) % 64 != 56:
            msg.append(const(0, 8))
        msg += [bits[i:i + 8] for i in range(0, 64, 8)]
        for kind, v, s in out:
            pc = B.conds(s)
            if kind != 'ret':
                self.ctx.errors.append('%s: a loop is not understood' % fn.name)
                return
            if pc == F:
                continue
            got = []
            for k, *ev in s.events:
                if k == 'block':
                    d, n, x = ev
                    if x is None or not B.same(pc, n, const(64, len(n))) or d.o != self.off['buffer']:
                        self.bad(fn, 'padding', 'something other than the buffer is processed at the end')
                        return
                    got += x
            if len(got) != len(msg):
                self.bad(fn, 'padding', '%d bytes are processed at the end of a message, not %d (%d bytes in the buffer)' % (len(got), len(msg), u))
                return
            for i, (x, y) in enumerate(zip(got, msg)):
                if x != y and not B.same(pc, x, y):
                    self.bad(fn, 'padding', 'byte %d of the last block%s is not what RFC 1321 says (%d bytes in the buffer)' % (
                        i, 's' if len(msg) > 64 else '', u))
                    return
            self.ctx.obligation('final', u)

    def fills(self, fn, k):
        """the combinations of one share"""
        self.runs, bounded, told = 0, set(), []
        self.bad = lambda f, rule, msg, key=None: told.append((rule, msg))
        for u in range(k, 64, SHARES):
            for r in range(64):
                for q in (0, 1, leaf(('q',), 58)):
                    ok = self.update(fn, u, r, q)
                    if ok is None and isinstance(q, int):
                        return self.runs, bounded, told, ['MD5_Update: a loop is not understood']
                    if ok is None:
                        bounded.add((u, r))
                        for n in (2, 3, 5):
                            ok = self.update(fn, u, r, n) if ok is not False else ok
                    if ok is False:
                        return self.runs, bounded, told, []
        return self.runs, bounded, told, []

    def run(self):
        ctx, prog = self.ctx, self.prog
        was, G.LOWBITS = G.LOWBITS, True
        try:
            ini, upd, fin = (prog.fn(x) for x in ('MD5_Init', 'MD5_Update', 'MD5_Final'))
            g = self.graph()
            for kind, v, s in g.run(g.begin(ini, [P('ctx')])):
                for f in ('lo', 'hi'):
                    if G.isconst(g.load(s, P('ctx', self.off[f]), 32)) != 0:
                        self.bad(ini, 'count', 'the number of bytes does not start at zero', f)
                    else:
                        ctx.obligation('start', f)
            self.count(upd)
            self.runs = 0
            for runs, bounded, told, errors in shared(self.fills, upd):
                self.runs += runs
                for u, r in bounded:
                    note = 'MD5_Update loops over whole blocks: sizes up to 5 blocks were evaluated, larger ones were not'
                    if note not in ctx.notes:
                        ctx.notes.append(note)
                for rule, msg in told:
                    self.bad(upd, rule, msg)
                ctx.errors += errors
                for u in range(64):
                    for r in range(64):
                        if not told and not errors:
                            ctx.obligation('update', (u, r))
            ctx.notes.append('MD5_Update: %d combinations of bytes in the buffer and size evaluated' % self.runs)
            for u in range(64):
                self.final(fin, u)
            ctx.analysed.setdefault(fin.name, {'file': ctx.rel(fin), 'states': 64, 'exits': 64, 'joins': 0})
            self.whole()
        finally:
            G.LOWBITS = was

    def whole(self):
        """the digest of a text takes all of it, in one context"""
        ctx, prog, B = self.ctx, self.prog, self.B
        fn = prog.fn('digest_get')

        def hook(g, s, I, name, args):
            if name in ('MD5_Init', 'MD5_Update', 'MD5_Final'):
                s.events += ((name,) + tuple(args),)
                return True
            return None
        g = G.Graph(prog, hook)
        n = leaf(('len',), 32)
        out = g.run(g.begin(fn, [P('data'), n, P('result')]))
        covered(ctx, fn, g, out)
        for kind, v, s in out:
            if kind != 'ret':
                ctx.errors.append('digest_get: a loop is not understood')
                return
            pc = B.conds(s)
            if pc == F:
                continue
            ev = [e for e in s.events if e[0].startswith('MD5_')]
            names = [e[0] for e in ev]
            if not names or names[0] != 'MD5_Init' or names[-1] != 'MD5_Final' or set(names[1:-1]) - {'MD5_Update'} or len(names) < 2:
                self.bad(fn, 'whole', 'the digest is not begun, fed and finished')
                return
            c = ev[0][1]
            if ev[-1][2] != c or any(e[1] != c for e in ev[1:-1]) or ev[-1][1] != P('result'):
                self.bad(fn, 'whole', 'the digest does not use one context, or does not end up in the result')
                return
            off = const(0, 64)
            for e in ev[1:-1]:
                if not isinstance(e[2], P) or e[2].b != 'data' or not B.same(pc, self.offset(e[2]), off):
                    self.bad(fn, 'whole', 'the digest is not that of the data')
                    return
                off = addv(off, e[3])
            if not B.same(pc, off, n + (G.ZERO,) * 32):
                self.bad(fn, 'whole', 'the digest does not take all of the data')
                return
            ctx.obligation('whole', len(ev))


def k03(ctx):
    s = Stream(ctx)
    s.run()
    if not ctx.viol:
        ctx.need('start', 2, 'counters')
        ctx.need('count', 2, 'words of the number of bytes')
        ctx.need('update', 4096, 'combinations of buffer fill and size')
        ctx.need('final', 64, 'buffer fills')
        ctx.need('whole', 1, 'ways to compute a digest')
