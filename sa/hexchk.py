"""K02: hashing and hexadecimal conversions compared with what they stand for, as Boolean functions of their input."""
from . import graph as G
from .graph import P, leaf, const, icmp, bop, mux, sources
from .bdd import Bdd
from .md5chk import covered

LOW, UP = b'0123456789abcdef', b'0123456789ABCDEF'


def tochr(n, letters):
    r = const(0, 8)
    for v in range(16):
        c = icmp('eq', n, const(v, 4))
        r = tuple(mux(c, x, y) for x, y in zip(const(letters[v], 8), r))
    return r


def tonum(c):
    """(value, whether the character is a digit)"""
    r, ok = const(0, 4), G.ZERO
    for s in (LOW, UP):
        for v, x in enumerate(s):
            e = icmp('eq', c, const(x, 8))
            r = tuple(mux(e, x, y) for x, y in zip(const(v, 4), r))
            ok = bop('or', ok, e)
    return r, ok


def everyway(ctx, B, out, rule, fn, get, want, what, given=None):
    """on every way out, what was computed is what is wanted"""
    for kind, v, s in out:
        if kind != 'ret':
            ctx.errors.append('%s: the number of rounds is not understood' % fn.name)
            return
        pc = B.conds(s)
        for i, w in enumerate(want):
            g = get(s, v, i)
            at = pc if given is None else B.band(pc, B.bit(given[i]))
            if g is None or not B.same(at, g, w):
                ctx.violation(fn.blocks[0].insts[0], rule, what % i, None, i)
            else:
                ctx.obligation(rule, i)


def hexes(ctx):
    prog, B = ctx.prog, Bdd()
    # a number as text
    fn = prog.fn('digest_to_hex32')
    g = G.Graph(prog, merge=True)
    d = leaf(('number',), 32)
    out = g.run(g.begin(fn, [d, P('result')]))
    covered(ctx, fn, g, out)
    everyway(ctx, B, out, 'number to text', fn, lambda s, v, i: g.byte(s, 'result', i),
             [tochr(d[28 - 4 * i:32 - 4 * i], LOW) for i in range(8)],
             'character %d of the text of a number is not its digit')
    for kind, v, s in out:
        if any(b == 'result' and not 0 <= o < 8 for b, o in s.mem):
            ctx.violation(fn.blocks[0].insts[0], 'number to text', 'more than 8 characters are written', None, 'len')
    # a digest as text
    fn = prog.fn('digest_to_str')
    g = G.Graph(prog, merge=True)
    s0 = g.begin(fn, [P('md5'), P('result')])
    b = [g.byte(s0, 'md5', i) for i in range(16)]
    out = g.run(s0)
    covered(ctx, fn, g, out)
    everyway(ctx, B, out, 'digest to text', fn, lambda s, v, i: g.byte(s, 'result', i),
             [tochr(b[i // 2][0 if i % 2 else 4:][:4], UP) for i in range(32)],
             'character %d of the text of a digest is not its digit')
    # text as a number
    fn = prog.fn('hex32_to_digest')
    g = G.Graph(prog, merge=True)
    s0 = g.begin(fn, [P('text')])
    c = [g.byte(s0, 'text', i) for i in range(8)]
    out = g.run(s0)
    covered(ctx, fn, g, out)
    nums = [tonum(x) for x in c]
    want = [nums[7 - i][0] for i in range(8)]
    # a digit stands for its value whenever it and its neighbour in the byte are digits
    given = [bop('and', nums[7 - i][1], nums[7 - i ^ 1][1]) for i in range(8)]
    everyway(ctx, B, out, 'text to number', fn, lambda s, v, i: v[4 * i:4 * i + 4] if isinstance(v, tuple) else None, want,
             'hexadecimal digit %d (counted from the lowest) does not get the value of its character', given)


# --------------------------------------------------------------------------------------------------- the hash
def oneone(v, by):
    """v is one-to-one in the 8 bits of the word 'by', whatever its other sources are (at most 8 more bits)"""
    srcs = sorted(G.support(v))
    mine = [next(iter(G._bit_of[b][0])) for b in by]
    if len(srcs) > G.CAP or any(x not in srcs for x in mine):
        return False
    rest = [x for x in srcs if x not in mine]
    pos = {x: i for i, x in enumerate(srcs)}
    size = max(1, (1 << len(srcs)) // 8)
    tab = [G.expand(b, tuple(srcs)).to_bytes(size, 'little') for b in v]
    for r in range(1 << len(rest)):
        row0 = sum((r >> i & 1) << pos[x] for i, x in enumerate(rest))
        seen = set()
        for n in range(256):
            row = row0
            for i, x in enumerate(mine):
                row |= (n >> i & 1) << pos[x]
            seen.add(sum((t[row >> 3] >> (row & 7) & 1) << i for i, t in enumerate(tab)))
        if len(seen) != 256:
            return False
    return True


def text_of(d):
    return d[0] == 'mem' and (d[1] == 'data' or isinstance(d[1], tuple) and d[1][:2] == ('at', 'data'))


def hashing(ctx):
    prog = ctx.prog
    fn = prog.fn('pearson_get')
    I = fn.blocks[0].insts[0]
    size = leaf(('len',), 64)
    dat = P('data')

    def stray(v, s):
        ds = sources(v)
        for c, x in s.conds:
            ds |= sources((c,))
        return [d for d in ds if not (text_of(d) or d[0] in ('len', 'rest', 'state', 'any', 'k'))]

    def ends(g, out, by, st, when):
        """the outcomes of one round; by: the byte of this round, st: the hash so far"""
        n = 0
        for kind, v, s in out:
            if any(isinstance(b, tuple) and b[0] == 'G' or b == 'data' for b, o in s.mem) or s.epoch:
                ctx.violation(I, 'function of the text', 'the hash function has effects', None)
                return None
            if kind == 'ret':
                vals = [v]
            else:
                env = s.fr[-1][3]
                vals = [env[p.id] for p in v.phis if isinstance(env.get(p.id), tuple) and any(text_of(d) for d in sources(env[p.id]))]
                n += 1
            for w in vals:
                x = stray(w, s)
                if x:
                    ctx.violation(I, 'function of the text', 'the hash depends on something other than the text (%s)' % (x[0],), None, str(x[0]))
                    return None
                if not any(text_of(d) for d in sources(w)):
                    continue
                if len(w) > 8 and any(b != G.ZERO for b in w[8:]):
                    ctx.violation(I, 'range', 'the hash is not a byte', None)
                    return None
                if not oneone(w[:8], by):
                    ctx.violation(I, 'permutation', 'two values of a character of the text lead to the same hash (%s round)' % when, None, when)
                    return None
                if st is not None and not oneone(w[:8], st):
                    ctx.violation(I, 'permutation', 'two hashes of the text so far lead to the same hash', None, when)
                    return None
                ctx.obligation('permutation', (when, kind))
        return n

    g = G.Graph(prog)
    s0 = g.begin(fn, [dat, size])
    b0 = g.byte(s0, 'data', 0)
    out = g.run(s0)
    covered(ctx, fn, g, out)
    n = ends(g, out, b0, None, 'first')
    if n is None:
        return
    backs = [x for x in out if x[0] == 'back']
    if not backs:
        ctx.violation(I, 'function of the text', 'only the first character counts', None)
        return
    for _, hdr, s in backs:
        f, blk, i, env, ret, visits = s.fr[-1]
        carried = [p.id for p in hdr.phis if isinstance(env.get(p.id), tuple) and any(text_of(d) for d in sources(env[p.id]))]
        for b in fn.loops[hdr]:
            for x in b.insts:
                if x.op != 'phi':
                    env.pop(x.id, None)
        st = None
        k = leaf(('k',), 64)
        for p in hdr.phis:
            if p.id in carried:
                st = leaf(('state',), 8)
                env[p.id] = st + (G.ZERO,) * (p.ty.bits - 8)
            elif p.ty.kind == 'ptr':
                env[p.id] = P('data', 0, k)
            else:
                env[p.id] = leaf(('rest' if p.ty.bits == 64 else 'any', p.id), p.ty.bits)
        if st is None:
            # the loop starts before the first character: nothing is carried yet
            st0 = [p.id for p in hdr.phis if p.ty.kind == 'int' and p.ty.bits <= 32]
            if len(st0) != 1:
                ctx.errors.append('pearson_get: the hash so far was not found')
                return
        s.conds, s.pc, s.nfork = (), G.ONE, s.nfork + 1
        visits.clear()
        visits[blk.idx] = s.nfork
        s.fr[-1] = (f, blk, i, env, ret, visits)
        g2 = G.Graph(prog)
        out2 = g2.run(s)
        covered(ctx, fn, g2, out2)
        # the character of this round
        chars = set()
        for kind, v, x in out2:
            for w in ([v] if kind == 'ret' else [x.fr[-1][3].get(p.id) for p in v.phis]):
                if isinstance(w, tuple):
                    chars |= {d for d in sources(w) if text_of(d)}
        if len(chars) != 1:
            ctx.violation(I, 'function of the text', 'a round uses %d characters of the text' % len(chars), None)
            return
        by = leaf(list(chars)[0], 8)
        ends(g2, out2, by, st, 'later')


LENS = {'strlen', 'strnlen'}


def callers(ctx):
    """the length that goes with a text is found from the text"""
    prog = ctx.prog
    n = 0
    for fn in prog.allf:
        for b in fn.blocks:
            for I in b.insts:
                if I.op == 'call' and I.x and I.x[0] == 'f' and I.x[1] == 'pearson_get':
                    defs = {x.id: x for bb in fn.blocks for x in list(bb.phis) + bb.insts}
                    work, seen, found, open_ = [I.args[1]], set(), False, False
                    while work:
                        o = work.pop()
                        if o[0] != 'v' or o[1] in seen:
                            continue
                        seen.add(o[1])
                        d = defs.get(o[1])
                        if d is None:
                            open_ = True
                        elif d.op == 'call':
                            nm = d.x[1] if d.x and d.x[0] == 'f' else None
                            found = found or nm in LENS
                            open_ = open_ or nm not in LENS
                        elif d.op == 'phi':
                            work += [v for _, v in d.x]
                        else:
                            work += [a for a in d.args]
                    n += 1
                    if not found and not open_:
                        ctx.violation(I, 'whole text', 'the number of characters that are hashed is not found from the text', None)
                    else:
                        ctx.obligation('whole text', I.line)
    return n


def k02(ctx):
    hexes(ctx)
    hashing(ctx)
    callers(ctx)
    if not ctx.viol:
        ctx.need('number to text', 8, 'characters')
        ctx.need('digest to text', 32, 'characters')
        ctx.need('text to number', 8, 'digits')
        ctx.need('permutation', 2, 'rounds of the hash')
        ctx.need('whole text', 1, 'calls of the hash')
