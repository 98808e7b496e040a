"""K01: the digest core compared with RFC 1321 as value graphs."""
import math
from . import graph as G
from .graph import P, leaf, const, binop, addv
from .bdd import Bdd, F, T
from .graph import sources
from .common import callees
from .ir import AnalysisError

K = [int(abs(math.sin(i + 1)) * (1 << 32)) & 0xffffffff for i in range(64)]
ROT = ((7, 12, 17, 22), (5, 9, 14, 20), (4, 11, 16, 23), (6, 10, 15, 21))
INIT = (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476)
FIELDS = ('a', 'b', 'c', 'd')


def rnd(i, x, y, z):
    n = tuple(G.bnot(b) for b in x)
    if i == 0:
        return binop('or', binop('and', x, y), binop('and', n, z))
    if i == 1:
        nz = tuple(G.bnot(b) for b in z)
        return binop('or', binop('and', x, z), binop('and', y, nz))
    if i == 2:
        return binop('xor', binop('xor', x, y), z)
    nz = tuple(G.bnot(b) for b in z)
    return binop('xor', y, binop('or', x, nz))


def md5block(st, X):
    """RFC 1321, section 3.4; also returns the state after every step"""
    a, b, c, d = st
    steps = []
    for i in range(64):
        r = i // 16
        k = (i, 5 * i + 1, 3 * i + 5, 7 * i)[r] % 16
        s = ROT[r][i % 4]
        t = addv(addv(addv(a, rnd(r, b, c, d)), X[k]), const(K[i], 32))
        t = t[32 - s:] + t[:32 - s]
        a, b, c, d = d, addv(b, t), b, c
        steps.append(b)
    return tuple(addv(x, y) for x, y in zip(st, (a, b, c, d))), steps


def words(g, s, p):
    return [g.load(s, P(p.b, p.o + 4 * i, p.v), 32) for i in range(16)]


def core(prog):
    """the block transformation: the internal function that MD5_Final hands the context"""
    fin = prog.fn('MD5_Final')
    c = []
    for x in callees(prog, fin):
        f = prog.funcs.get(x)
        if f is not None and f.file == fin.file and len(f.params) >= 2 and f.params[0][1].kind == 'ptr':
            c.append(f)
    c = [f for f in c if sum(len(b.insts) for b in f.blocks) > 200 or f.loops]
    if len(c) > 1:
        # a helper storing words has loops too: the transformation is by far the longest of those both operations use
        both = set(callees(prog, prog.fn('MD5_Update')))
        c = [f for f in c if f.name in both] or c
        c = sorted(c, key=lambda f: -sum(len(b.insts) for b in f.blocks))[:1]
    if len(c) != 1:
        raise AnalysisError('the block transformation of MD5 was not found')
    return c[0]


def fields(prog):
    st = [f for f in prog.structs if f.startswith('MD5') and all((f, x) in prog.fieldoff for x in FIELDS)]
    if not st:
        raise AnalysisError('the MD5 context was not found')
    return st[0], {x: prog.off(st[0], x) for x in FIELDS}


def state(g, s, off):
    return tuple(g.load(s, P('ctx', off[f]), 32) for f in FIELDS)


class Blocks:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.fn = core(self.prog)
        self.struct, self.off = fields(self.prog)
        self.I = self.fn.blocks[0].insts[0]

    def graph(self):
        g = G.Graph(self.prog)
        g.structs = {'ctx': self.struct}
        return g

    def bad(self, rule, msg):
        self.ctx.violation(self.I, rule, msg, None)

    def wrong(self, got, want, steps):
        """say where the computation deviates"""
        return 'the state after a block is not that of RFC 1321 (%s)' % ', '.join(
            f for f, x, y in zip(FIELDS, got, want) if x != y)

    def run(self):
        ctx, fn = self.ctx, self.fn
        g = self.graph()
        size, k = leaf(('size',), 64), leaf(('k',), 64)
        args = [P('ctx'), P('data')] + ([size] if len(fn.params) > 2 else [])
        s = g.begin(fn, args)
        st0 = state(g, s, self.off)
        want, steps = md5block(st0, words(g, s, P('data')))
        out = g.run(s)
        covered(ctx, fn, g, out)
        ctx.notes.append('%s: %d blocks evaluated, %d ways out of the first round' % (fn.name, g.nblocks, len(out)))
        backs = [x for x in out if x[0] == 'back']
        if not out:
            self.bad('block', 'a block is not processed at all')
            return
        self.ends = []
        ok = self.outcome(g, out, st0, want, P('data'), 'first', None, None)
        if not ok:
            return
        if not backs:
            if len(fn.params) > 2:
                self.bad('blocks', 'only one block is processed, however many there are')
            return
        hdr = backs[0][1]
        roles = None
        for _, b, s in backs:
            r = self.roles(s, b, want, P('data', 64), addv(size, const((1 << 64) - 64, 64)))
            if b is not hdr or r is None:
                self.bad('blocks', 'the state, the position and the remaining length are not carried on to the next block')
                return
            roles = r if roles is None else {x: y & r[x] for x, y in roles.items()}
        if any(not roles[x] for x in FIELDS) or not roles['ptr']:
            self.bad('blocks', 'the state or the position is not carried on to the next block')
            return
        # any later block
        g2 = self.graph()
        s = backs[0][2].copy()
        f, blk, i, env, ret, visits = s.fr[-1]
        new = {x: leaf(('state', x), 32) for x in FIELDS}
        new['ptr'] = P('data', 0, k)
        new['size'] = leaf(('rest',), 64)
        loc = {}
        for x, ls in roles.items():
            for l in ls:
                loc[l] = new[x]
        body = fn.loops[hdr]
        # counters: they move by a constant in every round
        self.inds = {}
        for ph in hdr.phis:
            v1 = env.get(ph.id)
            v0 = [g.ev(s, v, ph.ty) for b, v in ph.x if b not in body]
            if ph.ty.kind == 'int' and len(v0) == 1 and isinstance(v1, tuple) and isinstance(v0[0], tuple) and not any(
                    ('phi', ph.id) in r for r in roles.values()):
                d = G.isconst(addv(v1, v0[0], True))
                if d is not None:
                    n = (k[6:] + const(0, 6))[:ph.ty.bits]
                    self.inds[ph.id] = addv(v0[0], G.scalev(n, d, ph.ty.bits)), const(d, ph.ty.bits)
        for b in body:
            for I in b.insts:
                if I.op != 'phi':
                    env.pop(I.id, None)
        for ph in hdr.phis:
            v = loc.get(('phi', ph.id))
            if v is None and ph.id in self.inds:
                v = self.inds[ph.id][0]
            env[ph.id] = v if v is not None else (P(('any', ph.id)) if ph.ty.kind == 'ptr' else leaf(('any', ph.id), ph.ty.bits))
        s.mem = {q: v for q, v in s.mem.items() if q[0] != 'ctx' and not (isinstance(q[0], tuple) and q[0][0] == 'L')}
        s.ptr = {}
        s.epoch = {b: e + 1 for b, e in s.epoch.items()}
        s.epoch['ctx'] = s.epoch.get('ctx', 0) + 1
        for l, v in loc.items():
            if l[0] == 'mem':
                g2.store(s, P('ctx', l[1]), v)
            if l[0] == 'loc':
                g2.store(s, P(l[1], l[2]), v)
        s.conds, s.pc, s.nfork = (), G.ONE, s.nfork + 1
        visits.clear()
        visits[blk.idx] = s.nfork
        s.fr[-1] = (f, blk, i, env, ret, visits)
        st = tuple(new[x] for x in FIELDS)
        want2, steps = md5block(st, words(g2, s, new['ptr']))
        st0 = state(g2, s, self.off)
        out2 = g2.run(s)
        covered(ctx, fn, g2, out2)
        if self.outcome(g2, out2, st, want2, new['ptr'], 'next', roles, hdr):
            self.sizes()
        ctx.notes.append('%s: %d blocks evaluated, %d ways out of any later round' % (fn.name, g2.nblocks, len(out2)))

    def roles(self, s, hdr, want, ptr, rest):
        """where the loop keeps what"""
        env = s.fr[-1][3]
        r = {x: set() for x in FIELDS + ('ptr', 'size')}
        for ph in hdr.phis:
            v = env.get(ph.id)
            for x, w in zip(FIELDS, want):
                if v == w:
                    r[x].add(('phi', ph.id))
            if v == ptr:
                r['ptr'].add(('phi', ph.id))
            if v == rest:
                r['size'].add(('phi', ph.id))
        g = self.graph()
        for x, w in zip(FIELDS, want):
            for f in FIELDS:
                if g.load(s, P('ctx', self.off[f]), 32) == w:
                    r[x].add(('mem', self.off[f]))
        for (b, o) in list(s.mem):
            if isinstance(b, tuple) and b[0] == 'L' and len(b) == 4 and o % 4 == 0:
                v = g.load(s, P(b, o), 32)
                for x, w in zip(FIELDS, want):
                    if v == w:
                        r[x].add(('loc', b, o))
        return r

    def outcome(self, g, out, st, want, ptr, when, roles, hdr):
        ctx = self.ctx
        n = 0
        for kind, what, s in out:
            if kind == 'ret':
                got = state(g, s, self.off)
                done = 1 if got == want else 0 if got == st else None
                if done is None:
                    self.bad('block', self.wrong(got, want, None))
                    return False
                if what is not None and isinstance(what, P) and done == 1:
                    nxt = P(ptr.b, ptr.o + 64, ptr.v)
                    if what != nxt and what.b == ptr.b:
                        self.bad('blocks', 'the position that is returned is not behind the last block')
                        return False
            else:
                rest = None
                if roles is not None:
                    size = leaf(('rest',), 64)
                    r = self.roles(s, what, want, P(ptr.b, ptr.o + 64, ptr.v), addv(size, const((1 << 64) - 64, 64)))
                    lost = [x for x in FIELDS + ('ptr', 'size') if roles[x] - r[x]]
                    for x, (v, d) in self.inds.items():
                        if s.fr[-1][3].get(x) != addv(v, d):
                            ctx.errors.append('a counter of blocks is not understood')
                            return False
                    if lost or what is not hdr:
                        self.bad('block' if lost and lost[0] in FIELDS else 'blocks',
                                 'a later block is not processed as RFC 1321 says (%s)' % ', '.join(lost))
                        return False
                else:
                    r = self.roles(s, what, want, P('data', 64), addv(leaf(('size',), 64), const((1 << 64) - 64, 64)))
                    if any(not r[x] for x in FIELDS):
                        self.bad('block', 'the state after a block is not that of RFC 1321 (%s)' % ', '.join(
                            x for x in FIELDS if not r[x]))
                        return False
                done = 1
            self.ends.append((when, kind, done, s.conds))
            n += 1
            ctx.obligation('block', (when, kind, done))
        return n > 0

    def sizes(self):
        """every number of whole blocks is processed, no more and no fewer: decided over all sizes"""
        B = Bdd(lambda d: 0 if d[0] in ('size', 'rest', 'k') else 100)
        size, rest, k = (B.word(leaf((x,), 64)) for x in ('size', 'rest', 'k'))
        n64 = T
        for w in (size, k):
            for b in w[:6]:
                n64 = B.band(n64, B.neg(b))
        zero, one = B.num(0, 64), B.num(64, 64)
        known = {('size',), ('rest',), ('k',)}
        first = B.band(n64, B.neg(B.eq(size, zero)))
        later = B.band(n64, B.eq(B.add(rest, k), size))
        later = B.band(later, B.less(B.sub(k, one), size))              # something was there
        at = {}
        for e in self.ends:
            when, kind, done, conds = e
            pc = first if when == 'first' else later
            for c, x in conds:
                if sources((c,)) - known:
                    self.ctx.errors.append('the condition that ends the processing of blocks is not understood')
                    return
                b = B.bit(c)
                pc = B.band(pc, b if x else B.neg(b))
            at[e] = pc, size if when == 'first' else rest
        # does a round begin with nothing left
        goeson = any(e[1] == 'back' and B.band(pc, B.eq(w, one)) != F for e, (pc, w) in at.items())
        for e, (pc, w) in at.items():
            when, kind, done, conds = e
            none = B.eq(w, zero)
            if when == 'next' and not goeson:
                pc = B.band(pc, B.neg(none))
            if kind == 'ret' and B.band(pc, B.neg(B.eq(w, one if done else zero))) != F:
                self.bad('blocks', 'processing can end %s' % ('with whole blocks left' if done else 'before the last block'))
                return
            if kind == 'back' and B.band(pc, none) != F:
                self.bad('blocks', 'processing goes on behind the last block')
                return
            self.ctx.obligation('blocks', (when, kind, done))


def covered(ctx, fn, g, out):
    e = ctx.analysed.setdefault(fn.name, {'file': ctx.rel(fn), 'states': 0, 'exits': 0, 'joins': 0})
    e['states'] += g.nblocks
    e['exits'] += len(out)


def output(ctx, fin, g, rets):
    for kind, v, s in rets:
        k = len([e for e in s.events if e[0] == 'core'])
        last = [i for i, e in enumerate(s.events) if e[0] == 'core']
        for i in range(16):
            want = leaf(('out', FIELDS[i // 4], last[-1]), 32)[8 * (i % 4):8 * (i % 4) + 8] if last else None
            if g.byte(s, 'result', i) != want:
                ctx.violation(fin.blocks[0].insts[0], 'output', 'byte %d of the digest is not byte %d of %s' % (
                    i, i % 4, FIELDS[i // 4]), None, ('out', i))
            else:
                ctx.obligation('output', i)


def k01(ctx):
    P_ = ctx.prog
    b = Blocks(ctx)
    # initial state
    ini = P_.fn('MD5_Init')
    g = b.graph()
    out = g.run(g.begin(ini, [P('ctx')]))
    covered(ctx, ini, g, out)
    for kind, v, s in out:
        for f, w in zip(FIELDS, INIT):
            if G.isconst(g.load(s, P('ctx', b.off[f]), 32)) != w:
                ctx.violation(ini.blocks[0].insts[0], 'init', 'the initial value of %s is not 0x%08x' % (f, w), None, f)
            else:
                ctx.obligation('init', f)
    b.run()
    # output
    fin = P_.fn('MD5_Final')
    n = [0]

    def hook(gr, s, I, name, args):
        if name == b.fn.name:
            n[0] += 1
            for f in FIELDS:
                gr.store(s, P('ctx', b.off[f]), leaf(('out', f, len(s.events)), 32))
            s.events += (('core', f),)
            r = P(('core', len(s.events)))
            return r if I.ty.kind == 'ptr' else True
        return None
    def finish(u):
        g = G.Graph(P_, hook)
        g.structs = {'ctx': b.struct}
        s0 = g.begin(fin, [P('result'), P('ctx')])
        if u is not None:
            g.store(s0, P('ctx', P_.off(b.struct, 'lo')), G.const(u, 6) + leaf(('loup',), 23) + G.const(0, 3))
        out = g.run(s0)
        return g, out, [x for x in out if x[0] == 'ret']
    try:
        g, out, rets = finish(None)
    except AnalysisError:
        out, rets = [0], []
    todo = [(g, rets)] if rets and len(rets) == len(out) else []
    if todo:
        covered(ctx, fin, g, out)
    else:
        # padding in loops: one run for each number of bytes in the buffer
        was, G.LOWBITS = G.LOWBITS, True
        try:
            for u in range(64):
                g, out, rets = finish(u)
                if not rets or len(rets) != len(out):
                    ctx.errors.append('MD5_Final: paths not understood')
                    break
                todo.append((g, rets))
        finally:
            G.LOWBITS = was
        if todo:
            covered(ctx, fin, g, out)
    for g, rets in todo:
        output(ctx, fin, g, rets)
