"""Ownership typestate of memory and of library objects (R01, R02, R04).

Every allocation forks into an object and none; the state records what is live, what was released, and which sub-objects
(locks, workers, connections, ...) were set up.  At the end of an operation whatever is live must be reachable from memory
that outlives it."""
from .common import *
from . import models as M
from . import ir

ALLOC = {'malloc': 'heap', 'calloc': 'heap', 'strdup': 'heap', 'strndup': 'heap', 'realloc': 'heap', 'fopen': 'file',
         'fdopen': 'file', 'pcre2_compile_8': 'code', 'pcre2_match_data_create_from_pattern_8': 'match',
         'pcre2_match_data_create_8': 'match', 'opendir': 'dir'}
RELEASE = {'free': 'heap', 'fclose': 'file', 'pcre2_code_free_8': 'code', 'pcre2_match_data_free_8': 'match',
           'freeaddrinfo': 'addrinfo', 'closedir': 'dir'}
SUBS = {'conn_init': 'conn', 'mutex_init': 'mutex', 'condvar_init': 'condvar', 'worker_init': 'worker', 'thread_init': 'thread',
        'proxy_conn_init': 'proxy_conn', 'registration_service_init': 'registration', 'regex_init': 'regex', 'rand_init': 'rand',
        'conf_init': 'conf', 'log_init': 'log', 'proxy_init': 'proxy', 'proxy_client_init': 'proxy_client',
        'pthread_attr_init': 'attr', 'pthread_mutex_init': 'pmutex', 'pthread_cond_init': 'pcond',
        'pthread_mutexattr_init': 'mattr', 'pthread_condattr_init': 'cattr'}
ENDS = {'conn_free': 'conn', 'mutex_free': 'mutex', 'condvar_free': 'condvar', 'worker_free': 'worker', 'thread_free': 'thread',
        'proxy_conn_free': 'proxy_conn', 'registration_service_free': 'registration', 'regex_free': 'regex', 'rand_free': 'rand',
        'conf_free': 'conf', 'log_free': 'log', 'proxy_free': 'proxy', 'proxy_client_free': 'proxy_client',
        'pthread_attr_destroy': 'attr', 'pthread_mutex_destroy': 'pmutex', 'pthread_cond_destroy': 'pcond',
        'pthread_mutexattr_destroy': 'mattr', 'pthread_condattr_destroy': 'cattr'}
NOOP = {'log', 'conf', 'proxy', 'proxy_client'}        # kinds whose initialisation acquires nothing by itself: see run
THREADS = {'worker', 'thread'}
MAYNULL = {'strchr', 'strrchr', 'strstr', 'getenv', 'localtime', 'localtime_r', 'inet_ntop', 'memchr', 'strpbrk', 'setlocale'}
# settings and fields that may legitimately be absent
ABSENT_STRUCT = 'proxy_conf'
ABSENT = {('conn_handle', 'source_addr'), ('conn_handle', 'source_port'), ('proxy_conn_handle', 'source_addr'),
          ('proxy_priv', 're_calls_allowed'), ('proxy_priv', 're_calls_denied'),
          ('worker_handle', 'priv'), ('thread_handle', 'priv')}
ABSENT = {x for x in ABSENT if x[1] != 'priv'}
# external functions' parameters which must be objects, where the models do not read or write through them
PTRARGS = {'fgetc': (0,), 'ferror': (0,), 'fprintf': (0,), 'vfprintf': (0,), 'fopen': (0, 1), 'access': (0,), 'fputs': (0, 1), 'fputc': (1,),
           'fgets': (0, 2), 'getline': (0, 1, 2), 'fread': (0, 3), 'fwrite': (0, 3), 'feof': (0,), 'fileno': (0,), 'getc': (0,),
           'pcre2_match_8': (0, 1, 5), 'pcre2_match_data_create_from_pattern_8': (0,), 'pthread_mutex_lock': (0,), 'pthread_mutex_unlock': (0,),
           'pthread_cond_wait': (0, 1), 'pthread_cond_signal': (0,), 'pthread_cond_broadcast': (0,), 'pthread_cond_timedwait': (0, 1, 2),
           'pthread_mutex_init': (0,), 'pthread_cond_init': (0,), 'pthread_create': (0, 2), 'pthread_attr_init': (0,),
           'pthread_attr_setstacksize': (0,), 'localtime_r': (0, 1), 'strftime': (0, 2, 3), 'memcpy': (0, 1), 'memset': (0,), 'memmove': (0, 1),
           'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strdup': (0,), 'strtol': (0,),
           'strtoul': (0,), 'sprintf': (0, 1), 'snprintf': (2,), '__isoc99_sscanf': (0, 1), 'atoi': (0,), 'memcmp': (0, 1)}


def modelled(fn):
    """large internal parsers are analysed on their own"""
    return fn.internal and not fn.addr_taken and fn.name != 'main' and \
        (sum(len(b.insts) for b in fn.blocks) >= 100 and bool(fn.loops) and len(fn.params) >= 3 or
         sum(len(b.insts) for b in fn.blocks) >= 400)


def cfgname(b):
    d = adesc(b)
    return (d[3], d[1]) if d[0] == 'cfg' else None


def tolerant(prog, f):
    """does f look whether the object it is given has its private part?"""
    for b in f.blocks:
        loaded = set()
        for bb in f.blocks:
            geps = {i.id for i in bb.insts if i.op == 'gep' and i.x[2] and (prog.structs.get(i.x[2][-1][0], {}).get(i.x[2][-1][1]) or ('',))[0] == 'priv'}
            loaded |= {i.id for i in bb.insts if i.op == 'load' and i.args[0][0] == 'v' and (i.args[0][1] in geps or i.args[0][1] in {x[0] for x in f.params})}
        if any(i.op == 'icmp' and i.x in ('eq', 'ne') and i.args[0][0] == 'v' and i.args[0][1] in loaded and (i.args[1][0] == 'z' or i.args[1] == ('i', 0)) for i in b.insts):
            return True
    return False


class Heap(DClient):
    record = False
    count_calls = False

    def __init__(self, want, mode=None):
        self.want = want
        self.mode = mode
        self.attach = {}
        self.lost = {}
        self.relfields = set()
        self.inner = {}
        self.relin = {}

    def bad(self, I, rule, msg, st=None, inst=None):
        if rule in self.want:
            DClient.bad(self, I, rule, msg, st, inst)

    def ok(self, I, rule, inst=None):
        if rule in self.want:
            DClient.ok(self, I, rule, inst)

    def start(self, eng, st, fn):
        self.fn = fn
        return D(live=(), freed=(), subs=(), rel=(), ended=(), kept=())

    # ------------------------------------------------------------------ state helpers
    def kind(self, st, b):
        for x, k, w in st.cl.get('live'):
            if x == b:
                return k
        return None

    def gain(self, st, b, k, where):
        c = st.cl
        st.cl = c.set(live=tuple(sorted([x for x in c.get('live') if x[0] != b] + [(b, k, where)])),
                      freed=tuple(x for x in c.get('freed') if x != b))

    def lose(self, st, b):
        c = st.cl
        st.cl = c.set(live=tuple(x for x in c.get('live') if x[0] != b), kept=tuple(x for x in c.get('kept') if x != b),
                      freed=tuple(sorted(set(c.get('freed')) | {b})))

    def tracked(self, eng, b):
        """can the base name only one object during the run?"""
        d = adesc(b)
        if d[0] == 'H' or d[0] == 'O':
            return True
        if d[0] in ('arg', 'G'):
            return True
        if d[0] == 'cfg':
            return self.tracked(eng, d[2][0])
        if d[0] == 'init':
            return isinstance(d[2], int) and (d[2] == 0 or b in self.names) and self.tracked(eng, d[1])
        return False

    # ------------------------------------------------------------------ calls
    def on_call(self, eng, st, I, name, args):
        c = st.cl
        g = eng.resolve(st, I)
        f = eng.prog.funcs.get(g) if g else None
        own = f is not None and eng.should_inline(st, f) and not modelled(f)
        if not own and name not in RELEASE:
            for n, a in enumerate(args):
                self.passed(eng, st, I, name, n, a, f)
        if f is not None and not own and name not in SUBS and name not in ENDS and args and isinstance(args[0], Ptr):
            self.unset(eng, st, I, name, args[0], f)
        if f is not None and modelled(f) and eng.should_inline(st, f):
            s2 = st.copy()
            for s in (st, s2):
                for a in args:
                    if isinstance(a, Ptr):
                        self.forget(eng, s, a, eng.site(s, I))
            if f.ret is None or f.ret.kind != 'int':
                return eng.result(st, I)
            e = eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)
            z = eng.fresh(st, ('cnt',) + eng.site(st, I), 0, (1 << 31) - 1)
            return [(lin(z), st), (lin(e), s2)]
        if name in ('strdup', 'strndup'):
            return self.alloc(eng, st, I, name, args)
        if name == 'realloc':
            return self.realloc(eng, st, I, args)
        if name in ALLOC:
            return self.alloc(eng, st, I, name, args)
        if name == 'getaddrinfo':
            r = eng.models[name](eng, st, I, args)
            v, s = r[0]
            p = eng.load(s, eng.as_ptr(args[3]), pty())
            self.gain(s, p.b, 'addrinfo', (I.fn.name, I.line))
            return r
        if name in RELEASE:
            self.release(eng, st, I, name, args[0])
            return 0
        if name in SUBS:
            return self.sub(eng, st, I, name, args)
        if name in ENDS:
            self.end(eng, st, I, name, args)
            return 0
        if name in ('worker_join', 'thread_join'):
            if self.single(eng, eng.as_ptr(args[0])):
                st.cl = st.cl.set(ended=tuple(sorted(set(st.cl.get('ended')) | {self.pk(eng, args[0])}, key=repr)))
            return None
        if name in MAYNULL:
            s2 = st.copy()
            a = eng.result(st, I)
            if isinstance(a, Ptr):
                eng.assume(st, 'ne', a, 0)
            return [(a, st), (0, s2)]
        return None

    def forget(self, eng, st, a, why):
        if adesc(a.b)[0] == 'L':
            eng.havoc(st, a.b, why)
            return
        m = st.mem.get(a.b)
        if m is not None:
            st.mem[a.b] = M.BM({}, (), atom(('hv', a.b, why)))

    def alloc(self, eng, st, I, name, args):
        named = {x[0] for x in st.cl.get('live') if self.reach(eng, st, x[0])}
        if name in ('strdup', 'strndup'):
            b = eng.fresh(st, ('H',) + eng.site(st, I))
            s2 = st.copy()
            M.set_errno(eng, s2, I)
            st.mem[b] = M.BM({}, (), atom(('raw', b)))
            r = [(Ptr(b, 0), st), (0, s2)]
        else:
            r = eng.models[name](eng, st, I, args)
        for v, s in r:
            if isinstance(v, Ptr):
                if self.kind(s, v.b) and v.b not in named:
                    self.bad(I, 'leak', 'what %s created before is lost' % name, s)
                self.gain(s, v.b, ALLOC[name], (I.fn.name, I.line))
                self.ok(I, 'alloc', (self.fn.name, I.fn.name, I.line))
        return r

    def realloc(self, eng, st, I, args):
        s2 = st.copy()
        M.set_errno(eng, s2, I)
        self.release(eng, st, I, 'free', args[0])
        b = eng.fresh(st, ('H',) + eng.site(st, I))
        st.mem[b] = M.BM({}, (), atom(('raw', b)))
        eng.heapsize[b] = to_num(args[1])
        self.gain(st, b, 'heap', (I.fn.name, I.line))
        return [(Ptr(b, 0), st), (0, s2)]

    def release(self, eng, st, I, name, v):
        if v == 0 or null(eng, st, v) is True:
            if name in ('fclose', 'freeaddrinfo'):
                self.bad(I, 'null', '%s is given nothing' % name, st)
            return
        p = eng.as_ptr(v)
        k = self.kind(st, p.b)
        if p.b in st.cl.get('freed'):
            self.bad(I, 'once', '%s: released a second time' % name, st)
            return
        if k not in (None, '?', RELEASE[name]):
            self.bad(I, 'once', '%s is given something created by another interface' % name, st)
        if adesc(p.b)[0] in ('L', 'G'):
            self.bad(I, 'once', '%s is given memory that was not allocated' % name, st)
            return
        if p.o != 0:
            self.bad(I, 'once', '%s is given the middle of an object' % name, st)
        left = [x for x in st.cl.get('subs') if x[0] == p.b]
        if left:
            self.bad(I, 'subs', 'memory is released whose %s was not torn down' % ', '.join(sorted({x[2] for x in left})), st)
            st.cl = st.cl.set(subs=tuple(x for x in st.cl.get('subs') if x[0] != p.b))
        self.order(eng, st, I, 'heap', p)
        self.ok(I, 'once', (self.fn.name, I.fn.name, I.line))
        t = self.names.get(p.b) or cfgname(p.b)
        if t:
            self.relfields.add(t)
            if p.o == 0 and t[1] != 'priv':
                e = frozenset(x[2] for x in st.cl.get('ended') if x[0] == p.b and x[1] == 0)
                self.relin.setdefault((t, id(I), e), (I, st.copy()))
        if self.record:
            st.cl = st.cl.set(rel=tuple(sorted(set(st.cl.get('rel')) | {(self.fieldof(eng, st, p), 'heap')}, key=repr)))
        self.others(eng, st, I, p)
        if self.tracked(eng, p.b) or k is not None:
            self.lose(st, p.b)

    def others(self, eng, st, I, p):
        pass

    def fieldof(self, eng, st, p):
        """which field of a longer-lived object p is the content of"""
        d = adesc(p.b)
        if d[0] == 'cfg':
            return (d[3], d[1])
        if d[0] == 'init' and isinstance(d[2], int):
            return self.names.get(p.b)
        return None

    def pk(self, eng, v):
        p = eng.as_ptr(v)
        return (p.b, p.o)

    def sub(self, eng, st, I, name, args):
        if not args:
            return eng.models[name](eng, st, I, args) if name in eng.models else 0
        p = eng.as_ptr(args[0])
        k = SUBS[name]
        r = eng.models[name](eng, st, I, args) if name in eng.models else [(0, st)]
        if not isinstance(r, list):
            r = [(r, st)]
        if not self.single(eng, p):
            return r
        if not name.startswith('pthread_') and adesc(p.b)[0] in ('L', 'H') and (k + '_handle', 'priv') in eng.prog.fieldoff:
            if not self.zeroed(eng, st, p, k):
                self.bad(I, 'fresh', '%s is given a handle in memory that was not cleared' % name, st)
            else:
                self.ok(I, 'fresh', (I.fn.name, I.line))
        for v, s in r:
            if name.startswith('pthread_') and eng.decide(s, 'eq', v, 0) is True or not name.startswith('pthread_') and isneg(eng, s, v) is not True:
                x = (p.b, p.o, k, p.tag)
                if any(y[:3] == x[:3] for y in s.cl.get('subs')):
                    if isinstance(p.o, int) and self.tracked(eng, p.b):
                        self.bad(I, 'subs', 'a %s is set up twice' % k, s)
                s.cl = s.cl.set(subs=tuple(sorted(set(s.cl.get('subs')) | {x}, key=repr)))
                if p.o == 0 and adesc(p.b)[0] == 'H':
                    for b2, m in s.mem.items():
                        for cc in m.cells.values():
                            if adesc(b2)[0] != 'L' and cc[2] and isinstance(cc[1], Ptr) and cc[1].b == p.b and cc[1].o == 0:
                                self.inner.setdefault(cc[2], set()).add(k)
        return r

    def end(self, eng, st, I, name, args):
        if not args:
            return
        p = eng.as_ptr(args[0])
        k = ENDS[name]
        c = st.cl
        x = [y for y in c.get('subs') if y[0] == p.b and y[1] == p.o and y[2] == k]
        key = (p.b, p.o, k)
        if not x and (adesc(p.b)[0] == 'L' or adesc(p.b)[0] == 'H' and self.kind(st, p.b)) and self.single(eng, p) and not self.zeroed(eng, st, p, k):
            self.bad(I, 'subs', 'a %s is torn down that was not set up' % k, st)
        if key in c.get('ended') and not x:
            self.bad(I, 'subs', 'a %s is torn down twice' % k, st)
        self.order(eng, st, I, k, p)
        if not self.single(eng, p):
            return
        st.cl = c.set(subs=tuple(y for y in c.get('subs') if y not in x), ended=tuple(sorted(set(c.get('ended')) | {key}, key=repr)),
                      rel=tuple(sorted(set(c.get('rel')) | {(p.tag, k)}, key=repr)) if self.record else ())

    def order(self, eng, st, I, k, p):
        pass

    def zeroed(self, eng, st, p, k):
        o = next((eng.prog.fieldoff[x] for x in ((k + '_handle', 'priv'), (k + '_service_handle', 'priv')) if x in eng.prog.fieldoff), None)
        if o is None:
            return False
        return null(eng, st, eng.load(st, Ptr(p.b, add(p.o, o)), pty())) is True

    def single(self, eng, p):
        if not isinstance(p.o, int):
            return False
        if adesc(p.b)[0] == 'H':
            return isinstance(eng.heapsize.get(p.b), int)          # not an array of unknown length
        if adesc(p.b)[0] in ('L', 'G', 'O'):
            return True
        return self.tracked(eng, p.b) and p.o == (eng.prog.off(*p.tag) if p.tag else 0)

    def prune(self, eng, st, live):
        c = st.cl
        if c is DEAD:
            return
        for k, v in st.facts.items():          # a field whose content is known to be nothing holds nothing
            if isinstance(v, tuple) and v[0] == 0 and v[1] == 0 and len(k) == 1 and isinstance(k[0], tuple) and k[0][1] == 1:
                w = self.where(k[0][0])
                m = st.mem.get(w[0]) if w else None
                if m is not None:
                    cc = m.cells.get(w[1])
                    if cc is not None and isinstance(cc[1], Ptr) and cc[1].b == k[0][0] and cc[1].o == 0:
                        nc = dict(m.cells)
                        nc[w[1]] = (cc[0], 0, cc[2])
                        st.mem[w[0]] = M.BM(nc, m.blobs, m.epoch)
        if not c.get('freed') and not c.get('kept') and not c.get('ended') and not c.get('live'):
            return
        fr = set(c.get('freed'))
        for b in fr:
            if b in st.mem:
                del st.mem[b]
        named = set()
        for f in st.frames:
            for v in list(f.env.values()) + list(f.args):
                vatoms(v, named)
        for b, m in st.mem.items():
            if adesc(b)[0] != 'L':
                named.add(b)
            for cc in m.cells.values():
                vatoms(cc[1], named)
            for bl in m.blobs:
                if bl[0] == 'sym':
                    vatoms(bl[3], named)
        fr2 = tuple(b for b in c.get('freed') if b in named or self.there(st, b))
        live2 = tuple(x for x in c.get('live') if x[1] != '?' or null(eng, st, Ptr(x[0], 0)) is not True)
        lv = {x[0] for x in live2}
        st.cl = c.set(freed=fr2, live=live2, kept=tuple(b for b in c.get('kept') if b in lv),
                      ended=tuple(x for x in c.get('ended') if adesc(x[0])[0] not in ('H', 'L') or x[0] in named or x[0] in lv))

    def where(self, b):
        d = adesc(b)
        if d[0] == 'cfg':
            return d[2]
        if d[0] == 'init' and isinstance(d[2], int):
            return d[1], d[2]
        return None

    def there(self, st, b):
        """does the place the content came from still hold it?"""
        w = self.where(b)
        if w is None or w[0] in st.cl.get('freed') or adesc(w[0])[0] == 'L':
            return False
        m = st.mem.get(w[0], M.EMPTY)
        cc = m.cells.get(w[1])
        if cc is not None:
            return isinstance(cc[1], Ptr) and cc[1].b == b
        return not m.epoch and not any(isinstance(bl[1], int) and isinstance(bl[2], int) and bl[1] <= w[1] < bl[1] + bl[2] for bl in m.blobs)

    def atoms(self, eng, st, live):
        c = st.cl
        if c is not DEAD:
            live.update(x[0] for x in c.get('live') if x[1] == '?')

    # ------------------------------------------------------------------ uses
    def unset(self, eng, st, I, name, p, f):
        """an operation on an object that was certainly never set up"""
        k = next((x for x in sorted(set(SUBS.values()), key=len, reverse=True) if name.startswith(x + '_')), None)
        if k is None or not self.single(eng, p) or adesc(p.b)[0] not in ('L', 'H') or tolerant(eng.prog, f):
            return
        if self.zeroed(eng, st, p, k) and not any(y[:3] == (p.b, p.o, k) for y in st.cl.get('subs')):
            self.bad(I, 'null', '%s is given an object that was never set up' % name, st)
        else:
            self.ok(I, 'null', (I.fn.name, I.line, 'unset'))

    def passed(self, eng, st, I, name, n, a, f):
        if isinstance(a, Ptr) and a.b in st.cl.get('freed'):
            self.bad(I, 'use', '%s is given released memory' % name, st)
            return
        if f is not None and n == 0 and f.params and f.params[0][1].kind == 'ptr' or f is None and n in PTRARGS.get(name, ()):
            self.deref(eng, st, I, a, '%s is given' % name)

    def deref(self, eng, st, I, p, what):
        if p == 0:
            self.bad(I, 'null', '%s a null pointer' % what, st)
            return
        if not isinstance(p, Ptr):
            return
        d = adesc(p.b)
        if p.b in st.cl.get('freed'):
            self.bad(I, 'use', '%s released memory' % what, st)
        elif d[0] == 'NULL':
            self.bad(I, 'null', '%s a null pointer' % what, st)
        elif d[0] == 'cfg':
            if null(eng, st, Ptr(p.b, 0)) is not False and not self.counted(eng, st, d):
                self.bad(I, 'null', '%s %s.%s, which may be absent' % (what, d[3], d[1]), st)
            else:
                self.ok(I, 'null', (I.fn.name, I.line, d[1]))
        elif d[0] == 'H':
            self.ok(I, 'null', (I.fn.name, I.line))

    def counted(self, eng, st, d):
        if (d[3], d[1]) == ('proxy_conf', 'password'):             # proxy_open refuses to open without one (rule 'password')
            return not self.fn.name.startswith('conf_') and self.fn.name not in (
                'proxy_open', 'proxy_init', 'proxy_free', 'proxy_load_conf', 'main')
        """the list of additional addresses exists where its count is not zero (G02)"""
        P = eng.prog
        if (d[3], d[1]) != ('proxy_conf', 'bind_addr_ext_add'):
            return False
        b, o = d[2]
        n = eng.load(st, Ptr(b, o - P.off('proxy_conf', 'bind_addr_ext_add') + P.off('proxy_conf', 'bind_addr_ext_add_len')), ity(16))
        return eng.decide(st, 'sgt', eng.zx(st, n, 16), 0) is True

    names = {}

    def on_load(self, eng, st, I, p):
        self.deref(eng, st, I, p, 'reads through')
        if p.tag and I.ty.kind == 'ptr' and isinstance(p.o, int):
            m = st.mem.get(p.b, M.EMPTY)
            if p.o in m.cells:
                return None
            if (p.tag[0] == ABSENT_STRUCT or p.tag in ABSENT) and not (
                    adesc(p.b)[0] in ('L', 'H') or any(
                        not isinstance(bl[1], int) or not isinstance(bl[2], int) or bl[1] <= p.o < bl[1] + bl[2] for bl in m.blobs)):
                v = Ptr(atom(('cfg', p.tag[1], (p.b, p.o), p.tag[0], m.epoch)), 0)
                nc = dict(m.cells)
                nc[p.o] = (I.ty.size, v, p.tag)
                st.mem[p.b] = M.BM(nc, m.blobs, m.epoch)
                return v
            v = eng.load(st, p, I.ty)
            if isinstance(v, Ptr) and adesc(v.b)[0] == 'init':
                self.names[v.b] = p.tag
        return None

    def on_store(self, eng, st, I, p, v, size):
        self.deref(eng, st, I, p, 'writes through')
        if isinstance(v, Ptr) and self.kind(st, v.b) and (
                not isinstance(p.o, int) or adesc(p.b)[0] == 'H' and not isinstance(eng.heapsize.get(p.b), int)):
            st.cl = st.cl.set(kept=tuple(sorted(set(st.cl.get('kept')) | {v.b})))
        if isinstance(v, Ptr) and p.tag and adesc(p.b)[0] != 'L' and self.kind(st, v.b):
            self.attach.setdefault((p.tag, self.kind(st, v.b)), I)
            for x in st.cl.get('subs'):
                if x[0] == v.b and x[1] == 0:
                    self.inner.setdefault(p.tag, set()).add(x[2])
        if p.tag and size == 8 and isinstance(p.o, int) and adesc(p.b)[0] != 'L' and self.tracked(eng, p.b) and self.overwrites(I):
            old = eng.load(st, p, pty())
            if isinstance(old, Ptr) and old.o == 0 and old != v and adesc(old.b)[0] in ('init', 'cfg') and self.tracked(eng, old.b) \
                    and old.b not in st.cl.get('freed') and not self.kind(st, old.b) and null(eng, st, old) is not True:
                self.names[old.b] = p.tag
                self.gain(st, old.b, '?', (I.fn.name, I.line))

    def overwrites(self, I):
        # an object which is being initialised, or opened, holds nothing yet
        return not self.fn.name.endswith('_init') and self.fn.name != 'proxy_open'

    def on_write(self, eng, st, I, p, n, what):
        self.deref(eng, st, I, p, '%s writes through' % what)

    def on_read(self, eng, st, I, p, n, what):
        self.deref(eng, st, I, p, '%s reads through' % what)

    # ------------------------------------------------------------------ end of the operation
    def roots(self, eng, st, v):
        live = {x[0] for x in st.cl.get('live') if x[1] != '?'}
        work, seen = [], set()

        def vals(b):
            m = st.mem.get(b)
            out = set()
            if m is not None:
                for c in m.cells.values():
                    vatoms(c[1], out)
                for bl in m.blobs:
                    if bl[0] == 'sym':
                        vatoms(bl[3], out)
            return out
        for b in st.mem:
            if adesc(b)[0] != 'L' and b not in live:
                work.append(b)
        if isinstance(v, Ptr):
            work.append(v.b)
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            work.extend(vals(b))
        return seen

    def named(self, st, v):
        s = set()
        vatoms(v, s)
        for b, m in st.mem.items():
            if adesc(b)[0] != 'L':
                for cc in m.cells.values():
                    vatoms(cc[1], s)
                for bl in m.blobs:
                    if bl[0] == 'sym':
                        vatoms(bl[3], s)
        return s

    def reach(self, eng, st, b):
        """is the object named by any value of the current state other than dead ones? (memory or registers)"""
        for fr in st.frames:
            for v in list(fr.env.values()) + list(fr.args):
                if isinstance(v, Ptr) and v.b == b:
                    return True
        for x, m in st.mem.items():
            s = set()
            for cc in m.cells.values():
                vatoms(cc[1], s)
            for bl in m.blobs:
                if bl[0] == 'sym':
                    vatoms(bl[3], s)
            if b in s:
                return True
        return b in st.cl.get('kept')

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        c = st.cl
        seen = self.roots(eng, st, v)
        kept = set(c.get('kept'))
        for b, k, w in c.get('live'):
            if k == '?':
                if b not in self.named(st, v) and b not in kept and null(eng, st, Ptr(b, 0)) is not True:
                    t = self.names.get(b) or (adesc(b)[3], adesc(b)[1])
                    self.lost.setdefault((t, w), (I, st.copy(), '%s: what %s.%s named before %s:%d is neither released nor kept' % (
                        (self.fn.name,) + tuple(t) + w)))
                continue
            if b not in seen and b not in kept:
                self.bad(I, 'leak', '%s: what was created at %s:%d is neither released nor kept' % (self.fn.name, w[0], w[1]), st)
            else:
                self.ok(I, 'leak', (self.fn.name, w, I.line))
        for b, o, k, tag in c.get('subs'):
            if adesc(b)[0] == 'L' or self.kind(st, b) and b not in seen and b not in kept:
                self.bad(I, 'leak', '%s: a %s set up here is never torn down' % (self.fn.name, k), st)
        freed = set(c.get('freed'))
        if freed:
            for b, m in st.mem.items():
                if adesc(b)[0] == 'L' or b in freed:
                    continue
                for o, cc in m.cells.items():
                    if isinstance(cc[1], Ptr) and cc[1].b in freed:
                        self.bad(I, 'dangling', '%s leaves %s naming released memory' % (
                            self.fn.name, '%s.%s' % cc[2] if cc[2] else 'an object'), st)
            for x in freed:          # contents that were released and never overwritten
                w = self.where(x)
                if w and w[1] not in st.mem.get(w[0], M.EMPTY).cells and self.there(st, x):
                    t = self.names.get(x) or cfgname(x)
                    self.bad(I, 'dangling', '%s leaves %s naming released memory' % (self.fn.name, '%s.%s' % t if t else 'an object'), st)
            self.ok(I, 'dangling', (self.fn.name, I.line))
        self.finish(eng, st, I, v)

    def finish(self, eng, st, I, v):
        if self.fn.name == 'proxy_open' and isneg(eng, st, v) is False:
            pw = fld(eng, st, st.frames[0].args[0], 'proxy_handle.conf.proxy_conf.password')
            if null(eng, st, pw) is not False:
                self.bad(I, 'password', 'the proxy opens without a password', st)
            else:
                self.ok(I, 'password', (I.fn.name, I.line))


def targets(P):
    return [f for f in P.allf if f.boundary or f.addr_taken or f.name == 'main' or modelled(f)]


class List(Heap):
    """conf_free with a list of n additional addresses: each element is an allocation of its own"""
    def __init__(self, n):
        Heap.__init__(self, ['once', 'use', 'leak'])
        self.n = n
        self.names = {}

    def peel(self, eng, st, hdr):
        return self.n + 1

    def setup(self, eng, st):
        p = eng.as_ptr(st.frames[0].args[0])
        where = ('conf_parse_pair', 0)
        arr = atom(('H', 'list', self.n))
        eng.store(st, lv(eng, p, 'proxy_conf.bind_addr_ext_add'), 8, Ptr(arr, 0))
        eng.store(st, lv(eng, p, 'proxy_conf.bind_addr_ext_add_len'), 2, self.n)
        self.gain(st, arr, 'heap', where)
        eng.heapsize[arr] = 8 * self.n
        for i in range(self.n):
            e = atom(('H', 'element', i))
            self.gain(st, e, 'heap', where)
            eng.store(st, Ptr(arr, 8 * i), 8, Ptr(e, 0))

    def on_return(self, eng, st, I, v):
        for b, k, w in st.cl.get('live'):
            self.bad(I, 'leak', '%s does not release %s' % (self.fn.name, 'an additional address' if adesc(b)[1] == 'element' else 'the list of additional addresses'), st)
        self.ok(I, 'leak', (self.fn.name, 'list', self.n))


def lists(ctx):
    f = ctx.prog.fn('conf_free')
    for n in (1, 2, 3, 5):
        h = List(n)
        ctx.run(h, f, setup=lambda e, s: h.setup(e, s))


def run(ctx, want):
    attach, lost, rel, inner, relin = {}, [], set(), {}, {}
    for f in targets(ctx.prog):
        h = Heap(want)
        h.names = {}
        ctx.run(h, f, unroll=3, limit=64)
        attach.update(h.attach)
        lost += list(h.lost.items())
        rel |= h.relfields
        for k, v in h.inner.items():
            inner.setdefault(k, set()).update(v)
        relin.update(h.relin)
    # a field owns what is created and attached to it somewhere and released through it somewhere; whether a log file is
    # open depends on the selected medium, which L01 decides
    owned = {t for t, k in attach if t in rel and not t[0].startswith('log_')}
    if 'leak' in want:
        ctx.notes.append('fields that own an object: ' + ', '.join(sorted('%s.%s' % t for t in owned)))
        for (t, w), (I, st, msg) in lost:
            if t in owned:
                ctx.violation(I, 'leak', msg, st)
    if 'inner' in want:
        for (t, _, e), (I, st) in relin.items():
            for k in inner.get(t, ()):
                if k not in e:
                    ctx.violation(I, 'inner', '%s.%s is released although its %s was not torn down' % (t[0], t[1], k), st)
                else:
                    ctx.obligation('inner', (I.fn.name, I.line, k))
    return owned, inner
