"""Length of printf-style output as a linear expression over strlen atoms."""
import re
from .engine import *

SPEC = re.compile(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diuxXcspn%])')
MAXDIG = {'d': {'hh': 4, 'h': 6, '': 11, 'l': 20, 'll': 20, 'z': 20, 'j': 20, 't': 20},
          'u': {'hh': 3, 'h': 5, '': 10, 'l': 20, 'll': 20, 'z': 20, 'j': 20, 't': 20},
          'x': {'hh': 2, 'h': 4, '': 8, 'l': 16, 'll': 16, 'z': 16, 'j': 16, 't': 16}}


def fmt_string(eng, v):
    if isinstance(v, Ptr) and adesc(v.b)[0] == 'G':
        g = eng.prog.globals.get(adesc(v.b)[1])
        if g is not None and g.sval is not None and isinstance(v.o, int):
            return g.sval[v.o:].split(b'\0')[0]
    return None


def parse(fs):
    """list of ('lit', bytes) | ('conv', flags, width, prec, lenmod, conv)"""
    out, i = [], 0
    while i < len(fs):
        if fs[i:i + 1] != b'%':
            j = fs.find(b'%', i)
            j = len(fs) if j < 0 else j
            out.append(('lit', fs[i:j]))
            i = j
            continue
        m = SPEC.match(fs, i)
        if not m:
            return None
        if m.group(5) == b'%':
            out.append(('lit', b'%'))
        else:
            out.append(('conv', m.group(1).decode(), m.group(2), m.group(3), (m.group(4) or b'').decode(),
                        m.group(5).decode()))
        i = m.end()
    return out


def length(eng, st, fmtv, args):
    """(lo, hi) of the number of characters written, without the NUL; None = unbounded"""
    from . import models
    fs = fmt_string(eng, fmtv)
    if fs is None:
        return 0, None
    ps = parse(fs)
    if ps is None:
        return 0, None
    lo = hi = 0
    n = 0
    for p in ps:
        if p[0] == 'lit':
            lo, hi = add(lo, len(p[1])), (None if hi is None else add(hi, len(p[1])))
            continue
        _, fl, w, pr, lm, c = p
        if w == b'*' or pr == b'*' or n >= len(args):
            return lo, None
        a = args[n]
        n += 1
        wmin = int(w) if w else 0
        if c == 's':
            if isinstance(a, Ptr):
                ln = models.m_strlen(eng, st, None, [a]) if False else strlen_of(eng, st, a)
            else:
                return lo, None
            l1 = h1 = ln
            if pr is not None:
                pn = int(pr)
                r = eng.rng(st, ln)
                h1 = ln if r[1] <= pn else pn
                l1 = ln if r[1] <= pn else 0
            if wmin:
                r = eng.rng(st, h1)
                if r[0] < wmin:
                    if r[1] <= wmin:
                        l1 = h1 = wmin
                    else:
                        return lo, None
        elif c == 'c':
            l1 = h1 = max(1, wmin)
        else:
            k = 'd' if c in 'di' else ('u' if c == 'u' else 'x')
            if c == 'p':
                m = 20
            else:
                m = MAXDIG[k].get(lm, 20)
            l1 = max(1, wmin)
            h1 = max(m, wmin)
            if is_num(a) and c in 'diu':
                r = eng.rng(st, a)
                if r[0] >= 0:
                    bits = {'hh': 8, 'h': 16, '': 32, None: 32}.get(lm, 64)
                    top = (1 << (bits - (c != 'u'))) - 1
                    h1 = max(wmin, len(str(int(min(r[1], top)))))
                    l1 = max(wmin, len(str(int(r[0]))))
            if pr is not None:
                h1 = max(h1, int(pr) + 1)
        lo, hi = add(lo, l1), (None if hi is None else add(hi, h1))
    return lo, hi


def strlen_of(eng, st, p):
    from . import models
    k = models.strkey(eng, st, p)
    if isinstance(k, bytes):
        return len(k)
    b = eng.client.string_bound(eng, st, p)
    a = lin(atom(('strlen', k), 0, (1 << 31) - 1))
    if b is not None:
        eng.assume(st, 'sle', a, b)
    return a
