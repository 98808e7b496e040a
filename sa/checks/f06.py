"""F06: exact transfers.  A ghost total counts the bytes the operating system took or delivered; every transfer
call must continue exactly there, and success is only possible when the total is the length asked for."""
from ..common import *
from .. import models as M

NOSIGNAL = 0x4000
SENDS, RECVS = {'send': (1, 2, 3), 'sendto': (1, 2, 3), 'write': (1, 2, None)}, {'recv': (1, 2, 3), 'recvfrom': (1, 2, 3), 'read': (1, 2, None)}


class Exact(DClient):
    def __init__(self, kind, calls):
        self.kind, self.calls = kind, calls

    def start(self, eng, st, fn):
        gset(eng, st, 'n', 0)
        ln = st.frames[0].args[2]
        eng.assume(st, 'sge', ln, 0)
        eng.assume(st, 'sle', ln, 0x7ffff000)
        return D(fail=False)

    def on_call(self, eng, st, I, name, args):
        other = RECVS if self.calls is SENDS else SENDS
        if name in other:
            self.bad(I, 'direction', '%s moves data in the other direction' % name, st)
            return None
        if name not in self.calls:
            return None
        pi, ni, fi = self.calls[name]
        a = st.frames[0].args
        n = gget(eng, st, 'n')
        p = eng.as_ptr(args[pi])
        left = add(a[2], n, -1)
        good = True
        if p.b != a[1].b or eng.decide(st, 'eq', p.o, add(a[1].o, n)) is not True:
            good = False
            self.bad(I, 'position', 'the transfer does not continue where the previous one ended', st)
        if self.kind == 'any':
            if eng.decide(st, 'sle', args[ni], left) is not True:
                good = False
                self.bad(I, 'length', 'more is asked for than the buffer holds', st)
        elif eng.decide(st, 'eq', args[ni], left) is not True and not (
                eng.decide(st, 'sle', args[ni], left) is True and eng.decide(st, 'sgt', args[ni], 0) is True):
            good = False
            self.bad(I, 'length', 'the transfer is not limited to the bytes still missing', st)
        fl = args[fi] if fi is not None else 0
        if self.calls is SENDS and not (isinstance(fl, int) and fl & NOSIGNAL):
            good = False
            self.bad(I, 'signal', 'a lost peer raises SIGPIPE instead of returning an error', st)
        elif isinstance(fl, int) and fl & ~(NOSIGNAL | 0x100):
            good = False
            self.bad(I, 'flags', 'flags %#x change what a transfer does' % fl, st)
        if good:
            self.ok(I, 'transfer', (I.fn.name, I.line))
        if st.cl.get('fail') == 'err':
            st.cl = st.cl.set(fail=False)      # a retry; position and length were checked above
        out = []
        for k in ('some', 'none', 'err'):
            s = st.copy()
            if k == 'some':
                if eng.decide(s, 'sge', args[ni], 1) is False:
                    continue
                eng.assume(s, 'sge', args[ni], 1)
                if self.calls is RECVS:
                    eng.havoc(s, p.b, eng.site(s, I))
                r = lin(eng.fresh(s, ('cnt',) + eng.site(s, I), 1, 0x7ffff000))
                eng.assume(s, 'sle', r, args[ni])
                gset(eng, s, 'n', add(gget(eng, s, 'n'), r))
                out.append((r, s))
            elif k == 'none':
                s.cl = s.cl.set(fail='end')
                out.append((0, s))
            else:
                M.set_errno(eng, s, I)
                s.cl = s.cl.set(fail=s.cl.get('fail') or 'err')
                out.append((-1, s))
        return out

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        fn = st.frames[0].fn.name
        neg = isneg(eng, st, v)
        n = gget(eng, st, 'n')
        if st.cl.get('fail'):
            if neg is not True:
                self.bad(I, 'failure', '%s reports success although a transfer failed or the stream ended' % fn, st)
            else:
                self.ok(I, 'failure', (fn, I.line))
        elif neg is not True:
            if self.kind == 'any':
                if eng.decide(st, 'eq', v, n) is not True or eng.decide(st, 'sgt', n, 0) is not True:
                    self.bad(I, 'count', '%s does not return the number of bytes received' % fn, st)
                else:
                    self.ok(I, 'count', (fn, I.line))
            elif eng.decide(st, 'eq', n, st.frames[0].args[2]) is not True:
                self.bad(I, 'complete', '%s reports success before the requested number of bytes was transferred' % fn, st)
            else:
                self.ok(I, 'complete', (fn, I.line))
        else:
            self.ok(I, 'refused', (fn, I.line))


def run(ctx):
    P = ctx.prog
    for f, kind, calls in (('conn_recv', 'exact', RECVS), ('conn_recv_any', 'any', RECVS), ('conn_send', 'exact', SENDS), ('conn_send_to', 'exact', SENDS)):
        ctx.run(Exact(kind, calls), P.fn(f))
    if not ctx.viol:
        ctx.need('transfer', 2, 'transfer calls')
        ctx.need('complete', 1, 'complete transfers')
