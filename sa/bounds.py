"""Write bounds and string termination (R05).

Every store and every modelled write is an obligation: the written interval must lie inside the object (locals, globals, heap
blocks) and inside the struct member it was addressed through.  Writes through a pointer parameter of a module interface
become a requirement on every call of it; callees are analysed before their callers."""
import re
from math import gcd
from .common import *
from .engine import INF
from . import engine as E
from . import models as M
from . import heap
from . import ir

STR = {'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'strcpy': (1,), 'strdup': (0,), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1),
       'strcat': (0, 1), 'strpbrk': (0, 1), '__isoc99_sscanf': (0, 1), 'sscanf': (0, 1), 'fopen': (0, 1), 'getaddrinfo': (0, 1), 'atoi': (0,),
       'strtol': (0,), 'strtoul': (0,), 'inet_pton': (1,), 'openlog': (0,), 'access': (0,), 'fputs': (0,), 'puts': (0,), 'strspn': (0, 1),
       'strcspn': (0, 1), 'inet_addr': (0,), 'strncat': (0,)}
FMT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'syslog': 1, 'log_printf': 2, 'proxy_log': 2, '__printf_chk': 1, '__fprintf_chk': 2}
SCAN = {'__isoc99_sscanf': 2, 'sscanf': 2, '__isoc99_fscanf': 2, 'fscanf': 2}
CONV = re.compile(rb'%(\*?)(\d*)(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])')
SZ = {None: 4, b'h': 2, b'hh': 1, b'l': 8, b'll': 8, b'z': 8, b'j': 8, b't': 8}
STRFT = {'b': 3, 'a': 3, 'd': 2, 'e': 2, 'H': 2, 'M': 2, 'S': 2, 'm': 2, 'y': 2, 'j': 3, 'I': 2, 'p': 2, 'Y': 11, '%': 1, 'T': 8, 'F': 17, 'D': 8,
         'R': 5, 'n': 1, 't': 1}
INET = {2: 15, 10: 45}


def header_strings(prog):
    """(function, parameter) pairs the module interfaces declare as const char * (strings)"""
    import os
    out = {}
    for root, _, files in os.walk(os.path.join(prog.repo, 'include')):
        for f in files:
            if not f.endswith('.h'):
                continue
            t = re.sub(r'/\*.*?\*/', ' ', open(os.path.join(root, f), errors='replace').read(), flags=re.S)
            for m in re.finditer(r'(\w+)\s*\(([^()]*)\)\s*(?:__attribute__[^;]*)?;', t):
                for i, a in enumerate(m.group(2).split(',')):
                    if re.match(r'^\s*const\s+char\s*\*\s*\w*\s*$', a):
                        out.setdefault(m.group(1), set()).add(i)
    return out


def strftime_max(f):
    n, i = 0, 0
    while i < len(f):
        if f[i] == '%' and i + 1 < len(f):
            k = STRFT.get(f[i + 1])
            if k is None:
                return None
            n += k
            i += 2
        else:
            n += 1
            i += 1
    return n


class Bounds(DClient):
    """ghost cells per written buffer: tlo/thi, where a NUL is known to be (-1: written and nothing known)"""
    count_calls = False
    relational = True

    def __init__(self, sh, divisions=0):
        self.sh = sh
        self.divisions = divisions

    def peel(self, eng, st, hdr):
        """a loop dividing its way down to nothing ends after a number of rounds its first value bounds"""
        if not self.divisions:
            return 0
        body = st.frames[-1].fn.loops[hdr]
        insts = [I for b in body for I in b.insts]
        if len(insts) < 40 and any(I.op in ('udiv', 'sdiv', 'lshr') for I in insts) and \
                not any(I.op == 'call' and isinstance(I.x[1], str) and not I.x[1].startswith('llvm.') for I in insts):
            return self.divisions
        return 0

    # ---------------------------------------------------------------- extents
    def on_gep(self, eng, st, I, p, r):
        off, var, path = I.x
        if not path:
            return
        s, fo, rel = path[-1]
        if not s or r.tag is None:
            return
        root = path[0][0]
        if p.b in self.rawh:
            self.sh.raw.setdefault(root, I)
        if adesc(p.b)[0] == 'H' and root:
            sz = eng.prog.sizes.get(root)
            hs = self.size(eng, st, p.b)
            if sz and hs is not None and p.tag is None:
                base = p.o if not var else None
                if base is not None:
                    d = eng.decide(st, 'sge', add(hs, p.o, -1), sz)
                    self.note(eng, st, I, 'object', d is not False if not isinstance(p.o, int) else d,
                              'an object of type %s (%d bytes) is placed in an allocation of %s bytes' % (root, sz, hs), (root,))
        if var:
            return
        f = eng.prog.structs.get(s, {}).get(fo)
        if not f:
            return
        lo = add(p.o, rel + fo)
        if not isinstance(lo, int):
            return
        if f[1]:
            self.fld.setdefault((p.b, r.tag), {})[(lo, lo + f[1])] = 1
        elif p.tag:
            # flexible member of a view: bounded by the buffer that is viewed
            for e in self.fld.get((p.b, p.tag), {}):
                self.fld.setdefault((p.b, r.tag), {})[e] = 1

    def start(self, eng, st, fn):
        self.fn = fn
        self.rawh = set()
        self.fld = {}         # where members of objects lie, as addressed anywhere in the run
        return D()

    def initial(self, eng, st, p, ty, desc):
        if ty.kind == 'int' and getattr(ty, 'bits', ty.size * 8) == 64 and p.tag:
            return lin(atom(desc, 0, (1 << 31) - 1))
        return eng.opaque(desc, ty.kind == 'ptr', ty)

    def trunc_ok(self, eng, st, I, v):
        # lengths are below 2 GiB and counters do not wrap
        return I.ty.bits in (16, 32) and eng.rng(st, v)[0] >= 0

    def size(self, eng, st, b):
        s = self.size_(eng, st, b)
        if isinstance(s, int) and s > 1 and s - 1 not in eng.thresholds:
            eng.thresholds = sorted(set(eng.thresholds) | {s - 1})
        return s

    def size_(self, eng, st, b):
        d = adesc(b)
        if d[0] == 'L':
            return eng.sizes.get(b)
        if d[0] == 'H':
            g = gptr(('hsize', b)).b
            if g in st.mem:
                return eng.load(st, gptr(('hsize', b)), ity(64))
            return eng.heapsize.get(b)
        if d[0] == 'G':
            g = eng.prog.globals.get(d[1])
            return g.ty.size if g is not None and not g.is_func else None
        return None

    def extents(self, eng, st, p):
        """intervals the write must lie in; [] when nothing is known"""
        out = []
        s = self.size(eng, st, p.b)
        if s is not None:
            out.append((0, s))
        if p.tag:
            e = list(self.fld.get((p.b, p.tag), {}))
            S = eng.prog.sizes.get(p.tag[0]) or 1
            if e and not (isinstance(p.o, Lin) and S > 1 and all(c % S == 0 for _, c in p.o.t)):
                g = 0
                if isinstance(p.o, Lin):
                    for _, c in p.o.t:
                        g = gcd(g, abs(c))
                if g >= max(S, 2):
                    # element of an array of structures: any element will do
                    for lo, hi in e:
                        r = (p.o.k - lo) % g
                        if r < hi - lo:
                            out.append((add(p.o, -r), add(p.o, hi - lo - r)))
                            break
                    return out
                out.append(e[0] if len(e) == 1 else next((x for x in e if eng.decide(st, 'sge', p.o, x[0]) is True and
                                                          eng.decide(st, 'slt', p.o, x[1]) is not False), e[0]))
            else:
                s, f = p.tag
                for fo, (n, z) in eng.prog.structs.get(s, {}).items():
                    if n == f and z and isinstance(p.o, Lin):
                        S = eng.prog.sizes.get(s)
                        if all(c % S == 0 for _, c in p.o.t):
                            k = p.o.k - p.o.k % S
                            v = Lin(p.o.t, k)
                            out.append((add(v, fo), add(v, fo + z)))
                            # element of an array: within the allocated number of elements
        return out

    def note(self, eng, st, I, rule, ok, msg, key=()):
        if ok:
            self.ok(I, rule, (I.fn.name, I.line) + key)
        else:
            self.bad(I, rule, msg, st, (I.fn.name, I.line) + key)

    def check(self, eng, st, I, p, n, what):
        d = adesc(p.b)
        if d[0] == 'NULL' or d[:2] == ('O', 'ghost') or d[:2] == ('O', 'errno'):
            return
        if n is None:
            self.note(eng, st, I, 'bound', False, '%s: the number of bytes it writes is not bounded' % what)
            return
        if isinstance(n, int) and n == 0:
            return
        if eng.decide(st, 'sge', n, 0) is not True:
            self.note(eng, st, I, 'bound', False, '%s: the number of bytes it writes, %s, may be negative' % (what, n))
            return
        ex = self.extents(eng, st, p)
        end = add(p.o, n)
        for lo, hi in ex:
            a = eng.decide(st, 'sge', p.o, lo)
            b = eng.decide(st, 'sle', end, hi) is True or is_num(end) and is_num(hi) and eng.rng2(st, add(end, hi, -1))[1] <= 0
            if a is not True or b is not True:
                z = eng.decide(st, 'sle', n, 0)
                if z is True and not isinstance(n, int):
                    continue
                self.note(eng, st, I, 'bound', False, '%s writes %s of a buffer whose valid range is [%s, %s)' % (
                    what, show(eng, st, p.o, end), lo, hi))
                return
        if ex:
            self.note(eng, st, I, 'bound', True, '')
            return
        if d[0] == 'arg':
            self.need(eng, st, I, p, end, what)
            return
        self.sh.unknown.add((I.fn.name, I.line, what, d[0], p.tag))

    def need(self, eng, st, I, p, end, what):
        """a write through a parameter: becomes a requirement on the callers"""
        f = self.fn
        try:
            k = next(i for i, a in enumerate(st.frames[0].args) if isinstance(a, Ptr) and a.b == p.b)
        except StopIteration:
            return
        lo = eng.decide(st, 'sge', p.o, 0)
        if lo is not True:
            self.note(eng, st, I, 'bound', False, '%s may write before the buffer handed to %s' % (what, f.name))
            return
        hi = eng.rng(st, end)[1]
        cur = self.sh.needs.setdefault((f.name, k), set())
        if hi != INF and hi < 1 << 20:
            cur.add(int(hi))
            self.note(eng, st, I, 'bound', True, '')
            return
        for j, a in enumerate(st.frames[0].args):
            if is_num(a) and not isinstance(a, int) and eng.decide(st, 'sle', end, a) is True:
                cur.add(('arg', j))
                self.note(eng, st, I, 'bound', True, '')
                return
        self.note(eng, st, I, 'bound', False, '%s writes an unbounded number of bytes into a buffer handed to %s' % (what, f.name))

    # ---------------------------------------------------------------- termination
    def tk(self, p):
        return (p.b, p.tag if adesc(p.b)[0] != 'L' and adesc(p.b)[0] != 'H' else None)

    def term(self, eng, st, p):
        g = gptr(('tlo',) + self.tk(p)).b
        if g not in st.mem:
            return None
        lo = eng.load(st, gptr(('tlo',) + self.tk(p)), ity(64))
        hi = eng.load(st, gptr(('thi',) + self.tk(p)), ity(64))
        return lo, hi

    def setterm(self, eng, st, p, lo, hi):
        gset(eng, st, ('tlo',) + self.tk(p), lo)
        gset(eng, st, ('thi',) + self.tk(p), hi)

    def dirty(self, eng, st, p, n):
        """bytes were overwritten: what is known about a terminator there is lost"""
        t = self.term(eng, st, p)
        if t is not None and t[0] != -1:
            if n is not None and eng.decide(st, 'sle', add(p.o, n), t[0]) is True or eng.decide(st, 'sgt', p.o, t[1]) is True:
                return
        self.setterm(eng, st, p, -1, -1)

    def on_store(self, eng, st, I, p, v, size):
        self.check(eng, st, I, p, size, 'store')
        if size != 1:
            if adesc(p.b)[0] == 'L' and eng.sizes.get(p.b) == size:
                return
            t = self.term(eng, st, p)
            if t is not None:
                self.dirty(eng, st, p, size)
            return
        if isinstance(v, int) and v == 0:
            t = self.term(eng, st, p)
            if t is not None and t[0] != -1 and isinstance(t[1], int) and t[0] == t[1] and isinstance(p.o, int) and p.o < t[1]:
                pass
            self.setterm(eng, st, p, p.o, p.o)
            return
        if eng.rng(st, v)[0] > 0 or eng.rng(st, v)[1] < 0 or True:
            t = self.term(eng, st, p)
            old = None
            if t is None or t[0] != -1:
                # changing a character that is not the terminator keeps the string terminated
                old = eng.load(st, p, ity(8))
                if eng.decide(st, 'ne', old, 0) is True and adesc(p.b)[0] != 'L':
                    return
            self.dirty(eng, st, p, 1)

    def on_write(self, eng, st, I, p, n, what):
        self.check(eng, st, I, p, n, what)
        z = self.pending
        self.pending = None
        if what == 'memset':
            v = self.fill
            if v == 0:
                self.rawh.discard(p.b)
                self.setterm(eng, st, p, p.o, p.o)
                return
        if z is not None:
            self.setterm(eng, st, p, p.o, add(p.o, z))
            return
        if what in ('strcpy', 'strcat') and n is not None:
            self.setterm(eng, st, p, add(add(p.o, n), -1), add(add(p.o, n), -1))
            return
        if what in ('strcpy', 'sprintf', 'strcat'):
            self.setterm(eng, st, p, p.o, add(add(p.o, n), -1) if n is not None else -1)
            return
        if what == 'snprintf':
            if isinstance(n, int) and n > 0 or eng.decide(st, 'sgt', n, 0) is True:
                self.setterm(eng, st, p, p.o, add(add(p.o, n), -1))
                return
        if what == 'strncpy':
            # the terminator stays where it was as long as the copy does not reach it
            ex = self.extents(eng, st, p)
            if p.tag and ex and self.term(eng, st, p) is None and eng.decide(st, 'slt', add(p.o, n), ex[-1][1]) is True:
                self.sh.lastbyte.setdefault(p.tag, (I, ex[-1][1]))
                self.setterm(eng, st, p, p.o, add(ex[-1][1], -1))
                return
            last = ex and isinstance(ex[0][1], int) and M.known_end(eng, st, Ptr(p.b, ex[0][1] - 1))
            if ex and last == 0 and eng.decide(st, 'slt', add(p.o, n), ex[0][1]) is True:
                self.setterm(eng, st, p, ex[0][1] - 1, ex[0][1] - 1)
                return
        if what == 'memcpy' and self.copied is not None:
            lo, hi = self.copied
            self.setterm(eng, st, p, lo, hi)
            return
        if p.tag or adesc(p.b)[0] in ('L', 'H', 'arg'):
            self.dirty(eng, st, p, n)

    pending = fill = copied = None

    def key(self, eng, st):
        out = []
        for g, m in st.mem.items():
            d = adesc(g)
            if d[:2] == ('O', 'ghost') and isinstance(d[2], tuple) and d[2][0] == 'tlo' and adesc(d[2][1])[0] == 'H' and \
                    m.cells and m.cells[0][1] == -1 and d[2][1] in st.mem:
                out.append(d[2][1])
        return tuple(sorted(out))

    def on_fact(self, eng, st, a, lo, hi):
        """a character that is not the terminator lies before the end of its string"""
        if lo > 0 or hi < 0 or 0 in eng.rng(st, lin(a))[2]:
            d = adesc(a)
            if d[0] in ('init', 'ld') and d[3] == 1:
                k = (Ptr(d[1], 0), d[4] if d[0] == 'ld' or d[4] else 0)
                m = st.mem.get(d[1])
                k = (Ptr(d[1], 0), m.key() if m is not None else 0)
                s = E._atoms.get(("strlen", k))
                if s is not None and eng.decide(st, 'sle', d[2], lin(s)) is True:
                    return eng.assume(st, 'slt', d[2], lin(s))
        return True

    def drop(self, eng, st, b):
        st.mem.pop(b, None)
        for g in list(st.mem):
            d = adesc(g)
            if d[:2] == ('O', 'ghost') and isinstance(d[2], tuple) and d[2][1] == b:
                del st.mem[g]

    def prune(self, eng, st, live):
        named = set(live)
        for fr in st.frames:
            for v in list(fr.env.values()) + list(fr.args):
                vatoms(v, named)
        for b, m in st.mem.items():
            d = adesc(b)
            if d[:2] != ('O', 'ghost'):
                for c in m.cells.values():
                    vatoms(c[1], named)
                for bl in m.blobs:
                    if bl[0] == 'sym':
                        vatoms(bl[3], named)
        for a in list(named):
            named.update(eng.subatoms(a))
        for b in list(st.mem):
            if adesc(b)[0] == 'H' and b not in named:
                self.drop(eng, st, b)
        for g in list(st.mem):
            d = adesc(g)
            if d[:2] == ('O', 'ghost') and isinstance(d[2], tuple) and adesc(d[2][1])[0] in ('H', 'L') and d[2][1] not in st.mem \
                    and d[2][1] not in named:
                del st.mem[g]

    def string_bound(self, eng, st, p):
        d = adesc(p.b)
        if d[0] == 'init' and adesc(d[1])[0] == 'G' and p.o == 0:
            g = eng.prog.globals.get(adesc(d[1])[1])
            if g is not None and g.const and g.cells:
                n = [M.strkey(eng, st, v) for v in (eng.load(st, Ptr(d[1], c[0]), pty()) for c in g.cells) if isinstance(v, Ptr)]
                if n and all(isinstance(x, bytes) for x in n):
                    return max(len(x) for x in n)
        t = self.term(eng, st, p)
        if t is not None and t[0] != -1 and eng.decide(st, 'sge', t[0], p.o) is True:
            return add(t[1], p.o, -1)
        if t is None:
            ex = self.extents(eng, st, p)
            if ex and isinstance(ex[-1][1], int):
                return add(ex[-1][1] - 1, p.o, -1)
        return None

    def exact_end(self, eng, st, p):
        t = self.term(eng, st, p) if isinstance(p, Ptr) else None
        if t is not None and t[0] != -1 and t[0] == t[1] and eng.decide(st, 'sge', t[0], p.o) is True and \
                eng.rng(st, add(t[0], p.o, -1))[1] < 1 << 40:
            return add(t[0], p.o, -1)
        return None

    def terminated(self, eng, st, p):
        d = adesc(p.b)
        if d[0] == 'NULL':
            return True
        if p.tag and d[0] not in ('L', 'H'):
            self.sh.strfields.add(p.tag)
        t = self.term(eng, st, p)
        if t is not None:
            if t[0] == -1:
                return M.known_end(eng, st, p) is not None
            return eng.decide(st, 'sge', t[0], p.o) is True or M.known_end(eng, st, p) is not None
        if d[0] == 'G':
            g = eng.prog.globals.get(d[1])
            if g is None or g.ty.size is None:
                return True
            if g.const and g.sval is not None and isinstance(p.o, int):
                return b'\0' in g.sval[p.o:]
            return True
        if d[0] == 'L':
            sz = eng.sizes.get(p.b)
            m = st.mem.get(p.b)
            if m is None:
                return False
            return M.known_end(eng, st, p) is not None or any(bl[0] == 'zero' for bl in m.blobs)
        if d[0] == 'H':
            m = st.mem.get(p.b)
            return m is not None and any(bl[0] == 'zero' for bl in m.blobs)
        return True                       # handed in, or stored earlier: the callers and the storing function are checked

    # ---------------------------------------------------------------- calls
    def on_call(self, eng, st, I, name, args):
        P = eng.prog
        self.pending = self.fill = self.copied = None
        g = eng.resolve(st, I)
        f = P.funcs.get(g) if g else None
        own = f is not None and eng.should_inline(st, f) and not heap.modelled(f)
        if own:
            return None
        for k in STR.get(name, ()) + tuple(self.sh.strings.get(name, ())):
            if k < len(args) and isinstance(args[k], Ptr):
                self.note(eng, st, I, 'string', self.terminated(eng, st, args[k]),
                          '%s is handed text that need not be terminated within its buffer' % name, (name, k))
        if name in FMT and FMT[name] < len(args):
            s = M.strkey(eng, st, args[FMT[name]])
            if isinstance(s, bytes):
                rest = args[FMT[name] + 1:]
                i = 0
                for m in re.finditer(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z)?([a-zA-Z%])', s):
                    if m.group(5) == b'%':
                        continue
                    if m.group(2) == b'*':
                        i += 1
                    if m.group(3) == b'*':
                        i += 1
                    if m.group(5) == b's' and i < len(rest) and isinstance(rest[i], Ptr) and m.group(3) is None:
                        self.note(eng, st, I, 'string', self.terminated(eng, st, rest[i]),
                                  '%s prints text that need not be terminated within its buffer' % name, (name, i))
                    i += 1
        if f is not None and heap.modelled(f) and eng.should_inline(st, f):
            for n, a in enumerate(args):
                if isinstance(a, Ptr):
                    self.need_call(eng, st, I, f.name, n, a, args)
            for a in args:
                if isinstance(a, Ptr) and adesc(a.b)[0] == 'L':
                    eng.havoc(st, a.b, eng.site(st, I))
            return eng.result(st, I)
        for n, a in enumerate(args):
            if isinstance(a, Ptr):
                self.need_call(eng, st, I, name, n, a, args)
        if name in SCAN:
            self.scan(eng, st, I, name, args)
            return None
        if name == 'memset' or name and name.startswith('llvm.memset'):
            self.fill = args[1]
            return None
        if name in ('memcpy', 'memmove'):
            return self.memcpy(eng, st, I, name, args)
        if name == 'free':
            if isinstance(args[0], Ptr) and adesc(args[0].b)[0] == 'H':
                self.drop(eng, st, args[0].b)
            return 0
        if name in ('malloc', 'calloc'):
            r = eng.models[name](eng, st, I, args)
            for v, s in r:
                if isinstance(v, Ptr):
                    if name == 'malloc':
                        self.rawh.add(v.b)
                    gset(eng, s, ('hsize', v.b), eng.heapsize[v.b])
                    self.size(eng, s, v.b)
            return r
        if name == 'realloc':
            return self.realloc(eng, st, I, args)
        if name == 'inet_ntop':
            d = eng.as_ptr(args[2])
            n = to_num(args[3])
            m = INET.get(args[0], 45)
            self.check(eng, st, I, d, n, name)
            b = m if eng.decide(st, 'sgt', n, m) is not False else add(n, -1)
            eng.blob(st, d, n, 'data', eng.fresh(st, ('ntop',) + eng.site(st, I)))
            if eng.decide(st, 'sgt', n, m) is True:
                self.setterm(eng, st, d, d.o, add(d.o, m))
            else:
                self.dirty(eng, st, d, n)       # it may fail and leave the text as it was
            return [(d, st)]
        if name == 'strlen':
            p = eng.as_ptr(args[0])
            b = self.string_bound(eng, st, p)
            v = M.m_strlen(eng, st, I, args)
            if b is not None and not isinstance(v, int):
                eng.assume(st, 'sle', v, b)
            return v
        if name in ('strspn', 'strcspn'):           # stays within the text
            b = self.string_bound(eng, st, eng.as_ptr(args[0]))
            v = eng.result(st, I)
            eng.assume(st, 'sge', v, 0)
            eng.assume(st, 'sle', v, b if b is not None else M.m_strlen(eng, st, I, args[:1]))
            return v
        if name == 'strftime':
            s = M.strkey(eng, st, args[2])
            n = strftime_max(s.decode('latin1')) if isinstance(s, bytes) else None
            if n is not None and eng.decide(st, 'sgt', to_num(args[1]), n) is True:
                self.pending = n
            return None
        if name in ('vsnprintf', 'snprintf'):
            return None
        if name in ('vsprintf',):
            self.note(eng, st, I, 'bound', False, 'vsprintf writes an unbounded number of bytes')
            return None
        if name in ('gets', 'strtok_r') and name == 'gets':
            self.note(eng, st, I, 'bound', False, 'gets writes an unbounded number of bytes')
        if name == 'fgets':
            p, n = eng.as_ptr(args[0]), to_num(args[1])
            self.check(eng, st, I, p, n, name)
            s2 = st.copy()
            eng.blob(st, p, n, 'data', eng.fresh(st, ('fgets',) + eng.site(st, I)))
            self.setterm(eng, st, p, p.o, add(add(p.o, n), -1))
            return [(args[0], st), (0, s2)]
        if name in ('recvfrom', 'accept', 'getsockname', 'getpeername'):
            a, l = args[-2], args[-1]
            if isinstance(a, Ptr) and isinstance(l, Ptr):
                n = eng.load(st, eng.as_ptr(l), ity(32))
                self.check(eng, st, I, a, n, name)
            return None
        t = self.sh.terms.get(name)
        if t:
            # analysed interfaces which leave a terminated text in their argument
            r = eng.models[name](eng, st, I, args) if name in eng.models else None
            if r is not None:
                outs = r if isinstance(r, list) else [(r, st)]
                for v, s in outs:
                    for k, hi in t.items():
                        if isinstance(args[k], Ptr):
                            self.setterm(eng, s, args[k], args[k].o, add(args[k].o, hi))
                return outs
        return None

    def need_call(self, eng, st, I, name, k, a, args):
        for e in self.sh.needs.get((name, k), ()):
            if isinstance(e, tuple):
                v = args[e[1]]
                if not is_num(v):
                    continue
                n = v
            else:
                n = e
            self.check(eng, st, I, a, n, name)

    def scan(self, eng, st, I, name, args):
        s = M.strkey(eng, st, args[1])
        if not isinstance(s, bytes):
            return
        i = SCAN[name]
        for m in CONV.finditer(s):
            c = m.group(4)
            if c == b'%' or m.group(1):
                continue
            if i >= len(args):
                break
            w = int(m.group(2)) if m.group(2) else None
            if c[:1] in (b's', b'['):
                n = None if w is None else w + 1
            elif c == b'c':
                n = w or 1
            elif c in (b'd', b'i', b'u', b'x', b'o', b'X', b'n'):
                n = SZ.get(m.group(3), 4)
            else:
                n = 8
            self.check(eng, st, I, eng.as_ptr(args[i]), n, name)
            i += 1

    def memcpy(self, eng, st, I, name, args):
        d, s, n = eng.as_ptr(args[0]), eng.as_ptr(args[1]), to_num(args[2])
        z = M.known_end(eng, st, s)
        t = self.term(eng, st, s)
        if z is not None and isinstance(n, int) and z < n:
            self.copied = (add(d.o, z), add(d.o, z))
        elif t is not None and t[0] != -1 and eng.decide(st, 'sge', t[0], s.o) is True and \
                eng.decide(st, 'slt', add(t[1], s.o, -1), n) is True:
            self.copied = (d.o, add(d.o, add(t[1], s.o, -1)))
        else:
            # strlen(s) + 1 bytes
            v = None
            if isinstance(n, Lin) and n.k == 1 and len(n.t) == 1 and n.t[0][1] == 1 and adesc(n.t[0][0])[0] == 'strlen':
                k = adesc(n.t[0][0])[1]
                if k == M.strkey(eng, st, args[1]):
                    self.copied = (d.o, add(d.o, add(n, -1)))
        return None

    def realloc(self, eng, st, I, args):
        """one name for all blocks a buffer grows through; its current size is a variable of the analysis"""
        n = to_num(args[1])
        old = eng.as_ptr(args[0])
        s2 = st.copy()
        M.set_errno(eng, s2, I)
        b = old.b
        if adesc(b)[0] != 'H':
            b = eng.fresh(st, ('H',) + eng.site(st, I))
            st.mem[b] = M.BM({}, (), atom(('raw', b)))
        else:
            m = st.mem.get(b)
        gset(eng, st, ('hsize', b), n)
        return [(Ptr(b, 0), st), (0, s2)]

    # ---------------------------------------------------------------- the end
    def on_return(self, eng, st, I, v):
        f = self.fn
        args = st.frames[0].args
        if isinstance(v, tuple):
            return
        # text in memory that outlives the operation
        for b in list(st.mem):
            d = adesc(b)
            if d[0] in ('L', 'NULL') or d[:2] == ('O', 'ghost'):
                continue
            for o, (sz, val, tag) in st.mem[b].cells.items():
                if sz == 8 and isinstance(val, Ptr) and adesc(val.b)[0] == 'H' and val.tag is None:
                    t = self.term(eng, st, val)
                    if t is not None:
                        ok = t[0] != -1
                        self.note(eng, st, I, 'kept', ok, 'text kept in %s is not terminated within its buffer' % (
                            '.'.join(tag) if tag else 'memory'), (str(tag),))
        # fields
        for g in list(st.mem):
            d = adesc(g)
            if d[:2] == ('O', 'ghost') and isinstance(d[2], tuple) and d[2][0] == 'tlo' and len(d[2]) == 3 and d[2][2] is not None:
                t = eng.load(st, Ptr(g, 0), ity(64))
                self.sh.fields.setdefault(d[2][2], []).append((I, st if t == -1 else None))
        # arguments left terminated
        for k, a in enumerate(args):
            if not isinstance(a, Ptr):
                continue
            t = self.term(eng, st, a)
            key = (f.name, k)
            if t is None or t[0] == -1 or eng.decide(st, 'sge', t[0], 0) is not True:
                self.sh.noterm.add(key)
                continue
            hi = eng.rng(st, t[1])[1]
            if hi == INF:
                self.sh.noterm.add(key)
            else:
                c = self.sh.cand.get(key, 0)
                self.sh.cand[key] = max(c, int(hi))


def show(eng, st, a, b):
    return 'bytes [%s, %s)' % (a, b)


class Shared:
    def __init__(self, prog):
        self.needs, self.terms, self.cand, self.noterm = {}, {}, {}, set()
        self.unknown = set()
        self.lastbyte, self.fields = {}, {}
        self.strfields, self.raw = set(), {}
        self.strings = header_strings(prog)


def order(prog, T):
    """callees first"""
    names = {f.name: f for f in T}
    out, seen = [], set()

    def go(f):
        if f in seen:
            return
        seen.add(f)
        r = reach(prog, f)
        for n in sorted(r[1] if isinstance(r, tuple) else r):
            if n in names:
                go(names[n])
        out.append(f)
    for f in T:
        go(f)
    return out


def analyse(ctx, sh, f):
    """widening early first; where that is too coarse, with counted loops followed to their end"""
    def setup(eng, st):
        for a in st.frames[0].args:
            if isinstance(a, Lin) and eng.rng(st, a)[0] < 0:
                t = next(ty for (i, ty), v in zip(f.params, st.frames[0].args) if v is a)
                if t.size == 8:
                    eng.assume(st, 'sge', a, 0)
    import copy
    keep = copy.copy(ctx.viol), {k: dict(v) for k, v in ctx.obl.items()}
    saved = copy.deepcopy((sh.needs, sh.cand, sh.noterm))
    n = len(ctx.viol)
    ctx.run(Bounds(sh), f, unroll=3, limit=64, setup=setup)
    if len(ctx.viol) == n:
        return
    first = ctx.viol, ctx.obl, (sh.needs, sh.cand, sh.noterm)
    ctx.viol, ctx.obl = keep
    sh.needs, sh.cand, sh.noterm = saved
    try:
        ctx.run(Bounds(sh, 20), f, limit=64, setup=setup, max_steps=15000)
    except ir.AnalysisError:
        ctx.viol, ctx.obl, (sh.needs, sh.cand, sh.noterm) = first


def run(ctx):
    P = ctx.prog
    sh = Shared(P)
    for f in order(P, heap.targets(P)):
        analyse(ctx, sh, f)
        for (n, k), hi in list(sh.cand.items()):
            if n == f.name and (n, k) not in sh.noterm:
                sh.terms.setdefault(n, {})[k] = hi
    for tag, l in sh.fields.items():
        if tag in sh.strfields:
            for I, st in l:
                ctx.obligation('field', (I.fn.name,) + tag, st is None)
                if st is not None:
                    ctx.violation(I, 'field', 'the text in %s.%s need not be terminated within the member' % tag, st)
    for tag, (I, size) in sh.lastbyte.items():
        a = sh.raw.get(tag[0])
        ctx.obligation('zeroed', tag, a is None)
        if a is not None:
            ctx.violation(a, 'zeroed', '%s.%s relies on its last byte being zero, but the object is not cleared when it is allocated' % tag)
    ctx.notes.append('writes through parameters: ' + ', '.join('%s(%d)' % k for k in sorted(sh.needs) if sh.needs[k]))
    if sh.unknown:
        ctx.notes.append('stores through pointers whose target object is not known: ' + ', '.join(
            sorted({'%s:%d' % (a, b) for a, b, *_ in sh.unknown})))
    return sh
