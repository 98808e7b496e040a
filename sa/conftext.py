"""G01/G02: what loading a configuration text does to the settings.

conf_parse_file is analysed for abstract texts: sequences of characters each of which is a constant or
stands for a whole class (letters, digits, ...), so one run covers every text of that shape.  The state of
every setting on return is compared with the documented meaning of the text."""
from .common import *
from .models import byte_ty, set_errno, copy_bytes, m_alloc

TEXT, PASS, NUM, LIST = 'text', 'password', 'number', 'list'
# documented name -> (field, kind); doc/ELProxy.conf
DOC = {
    'Port': ('port', NUM), 'Password': ('password', PASS), 'BindAddress': ('bind_addr', TEXT),
    'PublicAddress': ('public_addr', TEXT), 'CallsignsDenied': ('calls_denied', TEXT),
    'CallsignsAllowed': ('calls_allowed', TEXT), 'RegistrationName': ('reg_name', TEXT),
    'RegistrationComment': ('reg_comment', TEXT), 'ConnectionTimeout': ('connection_timeout', NUM),
    'ExternalBindAddress': ('bind_addr_ext', TEXT),
    'AdditionalExternalBindAddresses': ('bind_addr_ext_add', LIST),
}
LISTLEN = 'bind_addr_ext_add_len'

# character classes: inclusive ranges
ANY = (33, 126)            # visible
KEYC = (62, 126)           # visible after '='
ELEM = (45, 126)           # visible after ','
DIG = (48, 57)
JUNK = (58, 126)           # visible, neither digit nor sign nor blank


def lit(s):
    return [ord(c) for c in s]


class Text(DClient):
    """items: the characters of the file.  expect(client, eng, st, I, ret) judges the state on return"""
    relational = False

    def __init__(self, items, expect, what, oldlist=2):
        self.items, self.expect, self.what, self.oldlist = items, expect, what, oldlist
        self.nret = 0

    def start(self, eng, st, fn):
        return D(pos=0)

    def key(self, eng, st):
        return st.cl

    def peel(self, eng, st, hdr):
        return 2000

    # -------------------------------------------------- input
    def item(self, eng, st, i):
        c = self.items[i]
        if isinstance(c, int):
            return c
        return lin(atom(('cfg', 'ch', self.what, i), c[0], c[1]))

    def next(self, eng, st):
        p = st.cl.get('pos')
        if p >= len(self.items):
            return None
        st.cl = st.cl.set(pos=p + 1)
        return self.item(eng, st, p)

    def byte(self, eng, st, p, i=0):
        return eng.load(st, Ptr(p.b, add(p.o, i)), byte_ty())

    def cstr(self, eng, st, p, limit=700):
        """bytes up to the terminator, or None"""
        out = []
        for i in range(limit):
            v = self.byte(eng, st, p, i)
            z = eng.decide(st, 'eq', v, 0)
            if z is True:
                return out
            if z is None:
                return None
            out.append(v)
        return None

    # -------------------------------------------------- library
    def on_call(self, eng, st, I, name, args):
        if name in ('fgetc', 'getc', '_IO_getc', 'getc_unlocked', 'fgetc_unlocked'):
            v = self.next(eng, st)
            return -1 if v is None else v
        if name == 'fgets':
            n = args[1]
            if not isinstance(n, int):
                return None
            d, i = eng.as_ptr(args[0]), 0
            while i < n - 1:
                v = self.next(eng, st)
                if v is None:
                    break
                eng.store(st, Ptr(d.b, add(d.o, i)), 1, v)
                i += 1
                if v == 10:
                    break
            if i == 0:
                return 0
            eng.store(st, Ptr(d.b, add(d.o, i)), 1, 0)
            return args[0]
        if name in ('getline', '__getdelim', 'getdelim'):
            if name != 'getline' and args[2] != 10:
                return None
            vs = []
            while True:
                v = self.next(eng, st)
                if v is None:
                    break
                vs.append(v)
                if v == 10:
                    break
            if not vs:
                return -1
            s2 = st.copy()
            set_errno(eng, s2, I)
            s2.cl = s2.cl.set(failed=True)
            b = eng.fresh(st, ('H',) + eng.site(st, I))
            st.mem[b] = BM({}, (), atom(('raw', b)))
            eng.heapsize[b] = len(vs) + 1
            for i, v in enumerate(vs + [0]):
                eng.store(st, Ptr(b, i), 1, v)
            eng.store(st, eng.as_ptr(args[0]), 8, Ptr(b, 0))
            eng.store(st, eng.as_ptr(args[1]), 8, len(vs) + 1)
            return [(len(vs), st), (-1, s2)]
        if name == 'ungetc':
            p = st.cl.get('pos')
            if args[0] != -1 and p > 0:
                st.cl = st.cl.set(pos=p - 1)
            return args[0]
        if name in ('ferror', 'feof'):
            return 0 if name == 'ferror' else int(st.cl.get('pos') >= len(self.items))
        if name in ('fopen', 'fopen64', 'open', 'fdopen'):
            r = eng.models['fopen'](eng, st, I, args)
            r[1][1].cl = r[1][1].cl.set(failed=True)
            return r
        if name in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup'):
            return self.alloc(eng, st, I, name, args)
        if name in ('strcmp', 'strncmp', 'memcmp', 'bcmp', 'strcasecmp', 'strncasecmp'):
            return self.compare(eng, st, I, name, args)
        if name == 'strlen':
            s = self.cstr(eng, st, eng.as_ptr(args[0]))
            return None if s is None else len(s)
        if name in ('strchr', 'strrchr', 'index', 'memchr', 'strchrnul'):
            return self.find(eng, st, I, name, args)
        if name in ('strspn', 'strcspn', 'strpbrk'):
            return self.span(eng, st, I, name, args)
        if name in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'):
            return self.sscanf(eng, st, I, args)
        if name in ('strtoul', 'strtol', 'strtoull', 'strtoll', '__isoc23_strtoul', '__isoc23_strtol',
                    '__isoc23_strtoull', '__isoc23_strtoll'):
            return self.strto(eng, st, I, args)
        if name in ('atoi', 'atol', 'atoll'):
            s = self.cstr(eng, st, eng.as_ptr(args[0]))
            if s is None:
                return None
            r = self.number(eng, st, s, 0)
            return None if r is None else (r[0] if r[1] else 0)
        if name in ('memcpy', 'memmove', '__memcpy_chk') and isinstance(args[2], int):
            d, s = eng.as_ptr(args[0]), eng.as_ptr(args[1])
            vs = [self.byte(eng, st, s, i) for i in range(args[2])]
            for i, v in enumerate(vs):
                eng.store(st, Ptr(d.b, add(d.o, i)), 1, v)
            return args[0]
        if name in ('strcpy', 'stpcpy', 'strncpy', 'strcat', 'strncat'):
            return self.strcpy(eng, st, I, name, args)
        if name in ('isspace', 'isblank', 'isdigit', 'isalpha', 'isalnum', 'isprint'):
            return self.ctype(eng, st, I, name, args)
        if name == '__ctype_b_loc':
            return None
        return None

    def alloc(self, eng, st, I, name, args):
        s2 = st.copy()
        set_errno(eng, s2, I)
        s2.cl = s2.cl.set(failed=True)
        b = eng.fresh(st, ('H',) + eng.site(st, I))
        zero = name == 'calloc'
        cells, n = {}, None
        if name in ('strdup', 'strndup'):
            s = self.cstr(eng, st, eng.as_ptr(args[0]))
            if s is None:
                return None
            if name == 'strndup':
                if not isinstance(args[1], int):
                    return None
                s = s[:args[1]]
            n = len(s) + 1
            st.mem[b] = BM({}, (), atom(('raw', b)))
            eng.heapsize[b] = n
            for i, v in enumerate(s + [0]):
                eng.store(st, Ptr(b, i), 1, v)
            return [(Ptr(b, 0), st), (0, s2)]
        if name == 'realloc':
            n = args[1]
            old = st.mem.get(eng.as_ptr(args[0]).b) if args[0] != 0 else None
            if old is not None:
                cells = dict(old.cells)
        elif name == 'malloc':
            n = args[0]
        else:
            n = eng.mulv(args[0], args[1])
        st.mem[b] = BM(cells, ((('zero', 0, n, 0),) if zero else ()), atom(('raw', b)) if not zero else 0)
        eng.heapsize[b] = n
        return [(Ptr(b, 0), st), (0, s2)]

    def lower(self, eng, st, v):
        r = eng.rng(st, v)
        if r[0] == r[1]:
            return r[0] + 32 if 65 <= r[0] <= 90 else r[0]
        return v

    def compare(self, eng, st, I, name, args):
        a, b = eng.as_ptr(args[0]), eng.as_ptr(args[1])
        n = args[2] if len(args) > 2 else 700
        if not isinstance(n, int):
            return None
        mem = name in ('memcmp', 'bcmp')
        fold = 'case' in name
        eqs, diff, maybe = [], False, False
        for i in range(n):
            x, y = self.byte(eng, st, a, i), self.byte(eng, st, b, i)
            if fold:
                x, y = self.lower(eng, st, x), self.lower(eng, st, y)
            d = eng.decide(st, 'eq', x, y)
            if d is False and not (fold and (not isinstance(x, int) or not isinstance(y, int))):
                diff = True
                break
            if d is not True:
                maybe = True
                if not fold:
                    eqs.append((x, y))
            elif not mem and eng.decide(st, 'eq', x, 0) is True:
                break
        if diff and not eqs and not maybe:
            x, y = eng.rng(st, x), eng.rng(st, y)
            return -1 if x[1] < y[0] else 1
        if not diff and not maybe:
            return 0
        out = []
        s2 = st.copy()
        if not diff and all(eng.assume(st, 'eq', x, y) for x, y in eqs):
            out.append((0, st))
        nz = eng.fresh(s2, ('cmpnz',) + eng.site(s2, I))
        eng.assume(s2, 'ne', lin(nz), 0)
        if diff or len(eqs) != 1 or eng.assume(s2, 'ne', *eqs[0]):
            out.append((lin(nz), s2))
        return out

    def find(self, eng, st, I, name, args):
        p = eng.as_ptr(args[0])
        s = self.cstr(eng, st, p) if name != 'memchr' else (
            [self.byte(eng, st, p, i) for i in range(args[2])] if isinstance(args[2], int) else None)
        if s is None or args[1] is None:
            return None
        c = args[1]
        if not isinstance(c, int):
            if name != 'strchr' or not all(isinstance(x, int) for x in s):
                return None
            s = s + [0]
        order = range(len(s)) if name != 'strrchr' else range(len(s) - 1, -1, -1)
        if isinstance(c, int) and c == 0 and name != 'memchr':
            return Ptr(p.b, add(p.o, len(s)))
        out = []
        for i in order:
            d = eng.decide(st, 'eq', s[i], c)
            if d is True:
                return out + [(Ptr(p.b, add(p.o, i)), st)] if out else Ptr(p.b, add(p.o, i))
            if d is None:
                s2 = st.copy()
                if eng.assume(s2, 'eq', s[i], c):
                    out.append((Ptr(p.b, add(p.o, i)), s2))
                if not eng.assume(st, 'ne', s[i], c):
                    return out
        r = Ptr(p.b, add(p.o, len(s))) if name == 'strchrnul' else 0
        return out + [(r, st)] if out else r

    def span(self, eng, st, I, name, args):
        p = eng.as_ptr(args[0])
        s, acc = self.cstr(eng, st, p), self.cstr(eng, st, eng.as_ptr(args[1]))
        if s is None or acc is None or not all(isinstance(x, int) for x in acc):
            return None
        out = []
        for i, v in enumerate(s):
            here = Ptr(p.b, add(p.o, i)) if name == 'strpbrk' else i
            for c in dict.fromkeys(acc):
                d = eng.decide(st, 'eq', v, c)
                if d is None:
                    s2 = st.copy()
                    if eng.assume(s2, 'eq', v, c):
                        out += self.span_rest(eng, s2, I, name, args, i) if name == 'strspn' else [(here, s2)]
                    if not eng.assume(st, 'ne', v, c):
                        return out
                elif d:
                    break
            else:
                d = False
            if bool(d) != (name == 'strspn'):
                return out + [(here, st)]
        return out + [(0 if name == 'strpbrk' else len(s), st)]

    def span_rest(self, eng, st, I, name, args, i):
        return self.span(eng, st, I, name, args)

    def strcpy(self, eng, st, I, name, args):
        d, s = eng.as_ptr(args[0]), self.cstr(eng, st, eng.as_ptr(args[1]))
        if s is None:
            return None
        o = 0
        if name in ('strcat', 'strncat'):
            e = self.cstr(eng, st, d)
            if e is None:
                return None
            o = len(e)
        if name in ('strncpy', 'strncat'):
            if not isinstance(args[2], int):
                return None
            if name == 'strncat':
                s = s[:args[2]] + [0]
            else:
                s = (s + [0] * args[2])[:args[2]]
        else:
            s = s + [0]
        for i, v in enumerate(s):
            eng.store(st, Ptr(d.b, add(d.o, o + i)), 1, v)
        return args[0]

    def among(self, eng, st, v, rs):
        """is v in the union of the ranges?"""
        lo, hi = eng.rng(st, v)[:2]
        if any(a <= lo and hi <= b for a, b in rs):
            return True
        if all(hi < a or b < lo for a, b in rs):
            return False
        return None

    CT = {'isspace': [(9, 13), (32, 32)], 'isblank': [(9, 9), (32, 32)], 'isdigit': [(48, 57)],
          'isalpha': [(65, 90), (97, 122)], 'isalnum': [(48, 57), (65, 90), (97, 122)], 'isprint': [(32, 126)]}

    def ctype(self, eng, st, I, name, args):
        d = self.among(eng, st, args[0], self.CT[name])
        if d is None:
            s2 = st.copy()
            return [(1, st), (0, s2)]
        return int(d)

    def number(self, eng, st, s, i, width=None, base=10, sign=True):
        """(value, end) of a decimal number at s[i:], end 0 when there is none; None when undetermined"""
        sp = self.CT['isspace']
        while i < len(s):
            d = self.among(eng, st, s[i], sp)
            if d is None:
                return None
            if not d:
                break
            i += 1
        neg = False
        k = i
        if i < len(s):
            d = self.among(eng, st, s[i], [(43, 43), (45, 45)])
            if d is None:
                return None
            if d:
                neg = eng.rng(st, s[i])[0] == 45
                i += 1
        v, n = 0, 0
        first = None
        while i < len(s) and (width is None or i - k < width):
            d = self.among(eng, st, s[i], [(48, 57)])
            if d is None:
                return None
            if not d:
                break
            if first is None:
                first = s[i]
            v = add(eng.mulv(v, 10), add(s[i], -48))
            i += 1
            n += 1
        if n == 0:
            return (0, 0)
        if base != 10 and eng.rng(st, first)[0] <= 48:
            v = lin(eng.fresh(st, ('octal',), -INF, INF))
        if neg:
            v = eng.mulv(v, -1)
        return (v, i)

    def strto(self, eng, st, I, args):
        p = eng.as_ptr(args[0])
        s = self.cstr(eng, st, p)
        if s is None:
            return None
        r = self.number(eng, st, s, 0, base=args[2] if isinstance(args[2], int) else 0)
        if r is None:
            return None
        if args[1] != 0:
            eng.store(st, eng.as_ptr(args[1]), 8, Ptr(p.b, add(p.o, r[1])))
        return r[0]

    def sscanf(self, eng, st, I, args):
        s, f = self.cstr(eng, st, eng.as_ptr(args[0])), self.cstr(eng, st, eng.as_ptr(args[1]))
        if s is None or f is None or not all(isinstance(x, int) for x in f):
            return None
        f = ''.join(map(chr, f))
        i = j = 0
        done = 0
        n = 2
        sp = self.CT['isspace']

        def skip(i):
            while i < len(s):
                d = self.among(eng, st, s[i], sp)
                if d is None:
                    return None
                if not d:
                    break
                i += 1
            return i
        while j < len(f):
            c = f[j]
            if c.isspace():
                i = skip(i)
                j += 1
                if i is None:
                    return None
                continue
            if c != '%':
                if i >= len(s):
                    return done if done else -1
                d = eng.decide(st, 'eq', s[i], ord(c))
                if d is None:
                    return None
                if not d:
                    return done
                i += 1
                j += 1
                continue
            j += 1
            star = f[j] == '*'
            if star:
                j += 1
            w = ''
            while f[j].isdigit():
                w += f[j]
                j += 1
            size = 4
            while f[j] in 'hlzjt':
                size = {'h': {4: 2, 2: 1}.get(size, 1), 'l': 8, 'z': 8, 'j': 8, 't': 8}[f[j]]
                j += 1
            c = f[j]
            j += 1
            if c == 'n':
                eng.store(st, eng.as_ptr(args[n]), size, i)
                n += 1
                continue
            if c in 'dui':
                k = skip(i)
                if k is None:
                    return None
                if k >= len(s):
                    return done if done else -1
                r = self.number(eng, st, s, k, int(w) if w else None, 0 if c == 'i' else 10)
                if r is None:
                    return None
                if r[1] == 0:
                    return done
                i = r[1]
                if not star:
                    v = r[0]
                    if size < 8 and not isinstance(v, int) or isinstance(v, int):
                        lo, hi = eng.rng(st, v)[:2]
                        if lo < -(1 << (8 * size - 1)) or hi >= 1 << (8 * size):
                            v = lin(eng.fresh(st, ('wrapped',) + eng.site(st, I), 0, (1 << (8 * size)) - 1))
                    eng.store(st, eng.as_ptr(args[n]), size, v)
                    n += 1
                    done += 1
                continue
            if c in 'sc':
                if c == 's':
                    i = skip(i)
                    if i is None:
                        return None
                if i >= len(s):
                    return done if done else -1
                k = i
                lim = int(w) if w else (1 if c == 'c' else len(s))
                while k < len(s) and k - i < lim:
                    if c == 's':
                        d = self.among(eng, st, s[k], sp)
                        if d is None:
                            return None
                        if d:
                            break
                    k += 1
                if not star:
                    p = eng.as_ptr(args[n])
                    for m in range(i, k):
                        eng.store(st, Ptr(p.b, add(p.o, m - i)), 1, s[m])
                    if c == 's':
                        eng.store(st, Ptr(p.b, add(p.o, k - i)), 1, 0)
                    n += 1
                    done += 1
                i = k
                continue
            return None
        return done

    # -------------------------------------------------- settings
    def setup(self, eng, st):
        p = st.frames[0].args[1]
        if self.oldlist:
            o = Ptr(atom(('O', 'oldlist')), 0)
            for i in range(self.oldlist):
                eng.store(st, Ptr(o.b, 8 * i), 8, Ptr(atom(('O', 'oldelem', i)), 0))
            eng.store(st, lv(eng, p, 'proxy_conf.bind_addr_ext_add'), 8, o)
        else:
            eng.store(st, lv(eng, p, 'proxy_conf.bind_addr_ext_add'), 8, 0)
        eng.store(st, lv(eng, p, 'proxy_conf.' + LISTLEN), 2, self.oldlist)
        self.before = {}
        self.fields = {}
        for off, (f, size) in eng.prog.structs['proxy_conf'].items():
            self.fields[f] = (off, size)
        for f, (off, size) in self.fields.items():
            self.before[f] = self.field(eng, st, f)

    def field(self, eng, st, f):
        off, size = self.fields[f]
        p = st.frames[0].args[1]
        isptr = DOC_FIELD.get(f, (None, TEXT))[1] != NUM and f != LISTLEN
        return eng.load(st, Ptr(p.b, add(p.o, off)), pty() if isptr else ity(8 * size))

    def changed(self, eng, st):
        out = []
        for f in self.fields:
            v = self.field(eng, st, f)
            if v != self.before[f]:
                a, b = v, self.before[f]
                if eng.decide(st, 'eq', a, b) is True:
                    continue
                out.append(f)
        return out

    def text_is(self, eng, st, v, want):
        """is v a text holding exactly these characters? None or a reason"""
        if v == 0:
            return 'is unset'
        if not isinstance(v, Ptr):
            return 'is not a text'
        if adesc(v.b)[0] != 'H':
            return 'is not a text of its own'
        for i, w in enumerate(want):
            if eng.decide(st, 'eq', self.byte(eng, st, v, i), w) is not True:
                return 'differs from the value at character %d' % (i + 1)
        if eng.decide(st, 'eq', self.byte(eng, st, v, len(want)), 0) is not True:
            return 'does not end where the value ends'
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        self.nret += 1
        s = isneg(eng, st, v)
        if st.cl.get('failed'):
            if s is not True:
                self.bad(I, 'failure', 'loading a configuration reports success although a setting or the file '
                         'could not be stored or opened', st, (self.what,))
            else:
                self.ok(I, 'failure', (self.what,))
            return
        self.expect(self, eng, st, I, s)


DOC_FIELD = {f: (n, k) for n, (f, k) in DOC.items()}


def say(c, I, st, rule, msg):
    c.bad(I, rule, msg, st, (c.what,))


def unchanged(c, eng, st, I, s, but=(), name='the text'):
    """nothing outside but has changed and loading succeeded"""
    if s is not False:
        say(c, I, st, 'result', 'loading fails on %s although it is acceptable' % c.what)
        return False
    ch = [f for f in c.changed(eng, st) if f not in but]
    if ch:
        say(c, I, st, 'only', '%s changes %s' % (c.what, ', '.join(sorted(ch))))
        return False
    return True


def want_nothing(c, eng, st, I, s):
    if unchanged(c, eng, st, I, s):
        c.ok(I, 'ignored', (c.what,))


def want_fail(c, eng, st, I, s):
    if s is not True:
        say(c, I, st, 'refused', '%s is not a plain number but loading succeeds' % c.what)
    else:
        c.ok(I, 'refused', (c.what,))


def want_text(field, idx):
    def f(c, eng, st, I, s):
        if not unchanged(c, eng, st, I, s, (field,)):
            return
        v = c.field(eng, st, field)
        if idx is None:
            if v != 0:
                say(c, I, st, 'value', '%s leaves %s set although the value is empty' % (c.what, field))
                return
        else:
            r = c.text_is(eng, st, v, [c.item(eng, st, i) for i in idx])
            if r:
                say(c, I, st, 'value', '%s: %s %s' % (c.what, field, r))
                return
        c.ok(I, 'value', (c.what,))
    return f


def want_number(field, idx):
    def f(c, eng, st, I, s):
        if not unchanged(c, eng, st, I, s, (field,)):
            return
        w = 0
        for i in idx:
            w = add(eng.mulv(w, 10), add(c.item(eng, st, i), -48))
        if eng.decide(st, 'eq', c.field(eng, st, field), w) is not True:
            say(c, I, st, 'value', '%s: %s does not become the number given' % (c.what, field))
            return
        c.ok(I, 'value', (c.what,))
    return f


def want_list(elems):
    """elems: lists of item positions"""
    def f(c, eng, st, I, s):
        if not unchanged(c, eng, st, I, s, ('bind_addr_ext_add', LISTLEN)):
            return
        n = c.field(eng, st, LISTLEN)
        p = c.field(eng, st, 'bind_addr_ext_add')
        if eng.decide(st, 'eq', n, len(elems)) is not True:
            say(c, I, st, 'list', '%s: the list does not get exactly %d elements' % (c.what, len(elems)))
            return
        if not elems:
            if p != 0:
                say(c, I, st, 'list', '%s: an empty list is left allocated' % c.what)
                return
        else:
            if not isinstance(p, Ptr) or adesc(p.b)[0] != 'H':
                say(c, I, st, 'list', '%s: the list is not replaced' % c.what)
                return
            seen = set()
            for k, e in enumerate(elems):
                v = eng.load(st, Ptr(p.b, add(p.o, 8 * k)), pty())
                r = c.text_is(eng, st, v, [c.item(eng, st, i) for i in e])
                if not r and v.b in seen:
                    r = 'is shared with another element'
                if r:
                    say(c, I, st, 'list', '%s: element %d %s' % (c.what, k + 1, r))
                    return
                seen.add(v.b)
        c.ok(I, 'list', (c.what,))
    return f


def want_key(lo, hi):
    """a line with an unknown name at positions lo..hi-1 and the value after it"""
    def f(c, eng, st, I, s):
        if s is not False:
            # a recognised number setting refuses the value
            name = pinned(c, eng, st, lo, hi)
            if name in DOC and DOC[name][1] == NUM:
                c.ok(I, 'name', (c.what,))
            else:
                say(c, I, st, 'result', 'loading fails for a setting whose name is not recognised (%s)' % c.what)
            return
        ch = c.changed(eng, st)
        if not ch:
            c.ok(I, 'name', (c.what,))
            return
        name = pinned(c, eng, st, lo, hi)
        if name is None:
            say(c, I, st, 'name', '%s changes %s without the whole name having been compared' % (
                c.what, ', '.join(sorted(ch))))
            return
        fl = DOC.get(name)
        allowed = () if fl is None else ((fl[0], LISTLEN) if fl[1] == LIST else (fl[0],))
        wrong = [x for x in ch if x not in allowed]
        if wrong:
            say(c, I, st, 'name', 'the setting %s changes %s' % (name, ', '.join(sorted(wrong))))
            return
        c.ok(I, 'name', (c.what,))
    return f


def pinned(c, eng, st, lo, hi):
    out = ''
    for i in range(lo, hi):
        r = eng.rng(st, c.item(eng, st, i))
        if r[0] != r[1]:
            return None
        out += chr(r[0])
    return out


def shapes_name():
    for n in range(1, 41):
        yield ('a line with a name of %d characters' % n, [KEYC] * n + lit('=') + [DIG, DIG] + lit('\n'), want_key(0, n))
    for n in range(2, 41):
        yield ('a line with a name of %d characters among digits and signs' % n,
               [(65, 122)] + [(36, 60)] * (n - 1) + lit('=') + [DIG, DIG] + lit('\n'), want_key(0, n))


def seq(*parts):
    """parts: str (constant), (class, n) or list; returns items and the positions of every non-str part"""
    items, pos = [], []
    for p in parts:
        if isinstance(p, str):
            items += lit(p)
        else:
            q = list(range(len(items), len(items) + len(p)))
            pos.append(q)
            items += p
    return items, pos


def shapes_text(key, field, kind):
    A = [ANY]
    empty = None if kind == TEXT else []
    yield from mk('%s given a word' % key, want_text, field, key + '=', A * 3, '\n')
    yield from mk('%s given one character' % key, want_text, field, key + '=', A, '\n')
    yield from mk('%s with blanks around name and value' % key, want_text, field,
                  ' \t' + key + ' \t= \t', A * 2 + lit(' ') + A * 2, ' \t\r\n')
    yield from mk('%s with a tab inside the value' % key, want_text, field, key + '=', A + lit('\t ') + A, '\r\n')
    yield from mk('%s at the end of the file' % key, want_text, field, key + '=', A * 2)
    yield from mk('%s with "=" in the value' % key, want_text, field, key + '=', A + lit('=#') + A, '\n')
    yield from mk('%s after other lines' % key, want_text, field, '\n# a\nNo=1\n ' + key + ' x\n=5\n', key + '=', A * 2, '\n',
                  )
    yield from mk('%s followed by other lines' % key, want_text, field, key + '=', A * 2, '\nNo=1\n\n#' + key + '=x\n')
    yield from mk('%s given a long value' % key, want_text, field, key + '=', A + [KEYC] * 300 + A, '\n')
    it, pos = seq(key + '=', A * 3, '\n' + key + '=', A * 2, '\n')
    yield ('%s given twice' % key, it, want_text(field, pos[1]))
    for e in ('', '\n', ' \t\r\n'):
        it, pos = seq(key + '=', A * 3, '\n' + key + '=' + e)
        yield ('%s emptied (%r)' % (key, e), it, want_text(field, empty))
    it, pos = seq(key + '=\n')
    yield ('%s empty' % key, it, want_text(field, empty))


def mk(what, want, field, *parts):
    it, pos = seq(*parts)
    yield (what, it, want(field, pos[-1]))


def shapes_number(key, field, small):
    Dg = [DIG]
    for n in (1, 2, 4) if small else (1, 2, 4, 7):
        yield from mk('%s given %d digits' % (key, n), want_number, field, key + '=', Dg * n, '\n')
    yield from mk('%s with blanks' % key, want_number, field, ' ' + key + ' = \t', Dg * 3, ' \t\r\n')
    yield from mk('%s at the end of the file' % key, want_number, field, key + '=', Dg * 3)
    it, pos = seq(key + '=', Dg * 3, '\n' + key + '=', Dg * 2, '\n')
    yield ('%s given twice' % key, it, want_number(field, pos[1]))
    for what, parts in (
            ('nothing', ('\n',)), ('nothing at the end of the file', ()), ('blanks', (' \t\r\n',)),
            ('a word', ([JUNK] * 3, '\n')), ('one other character', ([JUNK], '\n')),
            ('one other character below the digits', ([(33, 42)], '\n')),
            ('digits followed by another character', (Dg * 2 + [JUNK], '\n')),
            ('digits followed by another character at the end of the file', (Dg * 2 + [JUNK],)),
            ('digits followed by a character below the digits', (Dg * 2 + [(33, 47)], '\n')),
            ('digits, a blank and more digits', (Dg, ' ', Dg, '\n')),
            ('digits, blanks and another character', (Dg * 2, ' \t', [JUNK], '\n')),
            ('digits followed by a word', (Dg, [JUNK] * 3, '\r\n')),
            ('digits followed by a long word', (Dg * 2, [JUNK] * 150, '\r\n')),
            ('a character before the digits', ([JUNK] + Dg * 2, '\n'))):
        it, pos = seq(key + '=', *parts)
        yield ('%s given %s' % (key, what), it, want_fail)
    it, pos = seq(key + '=', [JUNK], '\n' + key + '=', Dg * 2, '\n')
    yield ('%s given a word and then a number' % key, it, want_fail)
    it, pos = seq(key + '=', Dg * 2, '\n' + key + '=', Dg, [JUNK], '\n')
    yield ('%s given a number and then a word' % key, it, want_fail)


def shapes_list(key):
    for lens in ((1,), (4,), (2, 1), (1, 0, 2), (0, 1), (2, 0), (0, 0), (3, 2, 1), (1, 1, 1, 1, 1)):
        parts = []
        for k, n in enumerate(lens):
            if k:
                parts.append(',')
            parts.append([ELEM] * n)
        it, pos = seq(key + '=', *parts, '\n')
        yield ('%s with elements of %s characters' % (key, list(lens)), it, want_list(pos))
    it, pos = seq(' ' + key + ' = ', [ELEM] * 2, ',', [ELEM] * 3, ' \r\n')
    yield ('%s with blanks around' % key, it, want_list(pos))
    it, pos = seq(key + '=', [ELEM] * 2, ',', [ELEM] * 3)
    yield ('%s at the end of the file' % key, it, want_list(pos))
    it, pos = seq(key + '=', [ELEM] * 2, ',', [ELEM] * 120, ',', [ELEM] * 90, ',', [ELEM], '\n')
    yield ('%s given a long value' % key, it, want_list(pos))
    it, pos = seq(key + '=', [ELEM] * 2, ',', [ELEM] * 3, '\n' + key + '=', [ELEM], '\n')
    yield ('%s given twice, shorter' % key, it, want_list(pos[2:]))
    it, pos = seq(key + '=', [ELEM], '\n' + key + '=', [ELEM] * 2, ',', [ELEM] * 2, '\n')
    yield ('%s given twice, longer' % key, it, want_list(pos[1:]))
    for e in ('', '\n', ' \t\r\n'):
        it, pos = seq(key + '=', [ELEM], ',', [ELEM], '\n' + key + '=' + e)
        yield ('%s emptied (%r)' % (key, e), it, want_list([]))
    it, pos = seq(key + '=\n')
    yield ('%s empty' % key, it, want_list([]))


def shapes_ignored():
    for key in DOC:
        for what, t in (('commented out', '#%s=12\n'), ('commented out after blanks', ' \t# %s=12\n'),
                        ('without a value', '%s\n'), ('without a value at the end of the file', '%s'),
                        ('after "="', '=%s=12\n')):
            yield ('%s %s' % (key, what), lit(t % key), want_nothing)
    yield ('an empty file', [], want_nothing)
    yield ('blank lines', lit('\n \t\r\n\n'), want_nothing)


def run_shapes(ctx, shapes, olds=(2,)):
    fn = ctx.prog.fn('conf_parse_file')
    n = 0
    for what, items, expect in shapes:
        for old in olds:
            c = Text(items, expect, what, old)
            ctx.run(c, fn, unroll=2000, limit=100000, max_steps=400000, setup=c.setup)
            if not c.nret:
                ctx.errors.append('no return reached for %s' % what)
            n += 1
    return n


def g01(ctx):
    n = run_shapes(ctx, shapes_name())
    for key, (field, kind) in DOC.items():
        if kind in (TEXT, PASS):
            n += run_shapes(ctx, shapes_text(key, field, kind))
        elif kind == NUM:
            n += run_shapes(ctx, shapes_number(key, field, key == 'Port'))
        else:
            n += run_shapes(ctx, shapes_list(key), (0, 2))
    n += run_shapes(ctx, shapes_ignored())
    ctx.notes.append('%d shapes of configuration text analysed' % n)
