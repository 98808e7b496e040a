"""D01, D02: the daemon's start sequence, its command line, its signal handling and its service loop."""
import signal
from .common import *
from . import models as M

SIGS = (int(signal.SIGINT), int(signal.SIGTERM))
EINTR, ECONNABORTED = 4, 103
ERR = (-133, -1)
BLOCK = {'usleep', 'sleep', 'nanosleep', 'clock_nanosleep', 'select', 'pselect', 'poll', 'ppoll', 'pause', 'sigsuspend',
         'sched_yield'}
SPAWN = {'pthread_create', 'thrd_create', 'thread_start'}


def err(eng, st, I, tag, lo=ERR[0], hi=ERR[1]):
    return lin(eng.fresh(st, (tag,) + eng.site(st, I), lo, hi))


def outcomes(eng, st, I, name, **ok):
    """success and failure of a step"""
    s2 = st.copy()
    M.set_errno(eng, s2, I)
    return [(0, st), (err(eng, s2, I, 'err-' + name), s2)]


class Main(DClient):
    """main, with the option parser (the functions given argv) replaced by unknown options"""
    keep_dead = False
    handler = None           # {signal: {global: value}}

    def start(self, eng, st, fn):
        return D(init=None, load=None, open=None, det=None, sid=None, dir=None, start=None, fail=None, freed=False,
                 sig=(), opts=None, served=None, quiet=True, idle=0, term=False)

    def parser(self, eng, st, args):
        argv = st.frames[0].args[1] if len(st.frames[0].args) > 1 else None
        return isinstance(argv, Ptr) and any(isinstance(a, Ptr) and a.b == argv.b for a in args)

    def opt(self, eng, st, f, bits=None):
        o = st.cl.get('opts')
        d = {n: sz for n, sz in eng.prog.structs.get('proxy_opts', {}).values()}
        if o is None or f not in d:
            return None
        if bits:
            bits = 8 * d[f]
        return fld(eng, st, o, 'proxy_opts.' + f, bits)

    def on_call(self, eng, st, I, name, args):
        fn = eng.prog.funcs.get(eng.resolve(st, I)) if name else None
        if fn is not None and not fn.boundary and self.parser(eng, st, args):
            for a in args:
                if isinstance(a, Ptr) and a.b != st.frames[0].args[1].b:
                    eng.havoc(st, a.b, eng.site(st, I))
                    st.cl = st.cl.set(opts=a)
            return eng.result(st, I) if I.ty.kind != 'void' else 0
        r = self.step(eng, st, I, name, args)
        if r is not None:
            return r
        if name in BLOCK:
            return self.wait(eng, st, I, eng.result(st, I) if I.ty.kind != 'void' else 0)
        return None

    def pend(self, eng, st, I, what):
        f = st.cl.get('fail')
        if f is not None and f[0] != what:
            self.bad(I, 'after', 'the daemon goes on to %s although it failed to %s' % (what, f[0]), st, what)
        elif st.cl.get('det') == 'parent':
            self.bad(I, 'after', 'the process that was left behind goes on to %s' % what, st, what)
        else:
            self.ok(I, 'after', what)

    def two(self, eng, st, I, name, what, key):
        out = outcomes(eng, st, I, name)
        for v, s in out:
            good = v == 0
            upd = {key: good, 'fail': None if good else (what, I.line)}
            s.cl = s.cl.set(**upd)
        return out

    def step(self, eng, st, I, name, args):
        g = st.cl.get
        if name in ('sigaction', 'signal'):
            return self.handler_set(eng, st, I, name, args)
        if name == 'proxy_init':
            self.pend(eng, st, I, 'initialise')
            return self.two(eng, st, I, name, 'initialise', 'init')
        if name == 'proxy_load_conf':
            self.pend(eng, st, I, 'load the configuration')
            c = self.opt(eng, st, 'config_path')
            if c is not None and null(eng, st, c) is not True and eng.decide(st, 'eq', c, args[1]) is not True:
                self.bad(I, 'config', 'the configuration that is loaded is not the one that was named', st)
            return self.two(eng, st, I, name, 'load the configuration', 'load')
        if name == 'proxy_open':
            self.pend(eng, st, I, 'open the proxy')
            if not g('load'):
                self.bad(I, 'order', 'the proxy is opened before its configuration is loaded', st, 'open')
            else:
                self.ok(I, 'order', 'open')
            return self.two(eng, st, I, name, 'open the proxy', 'open')
        if name in ('fork', 'vfork', 'daemon'):
            self.pend(eng, st, I, 'detach')
            self.opened(st, I, 'detached')
            if g('start') is not None:
                self.bad(I, 'order', 'the daemon detaches after threads were started', st, 'fork')
            else:
                self.ok(I, 'order', 'fork')
            fg = self.opt(eng, st, 'foreground', 8)
            if fg is not None and eng.decide(st, 'eq', fg, 0) is not True:
                self.bad(I, 'detach', 'the daemon detaches although it was not asked to', st, 'fg')
            else:
                self.ok(I, 'detach', 'fg')
            s2, s3 = st.copy(), st.copy()
            M.set_errno(eng, s3, I)
            st.cl = st.cl.set(det='child', sid=True if name == 'daemon' else g('sid'))
            s2.cl = s2.cl.set(det='parent')
            s3.cl = s3.cl.set(fail=('detach', I.line))
            out = [(0, st), (-1, s3)]
            if name != 'daemon':
                out.append((err(eng, s2, I, 'pid', 1, 1 << 22), s2))
            return out
        if name in ('setsid', 'chdir'):
            what = {'setsid': 'detach', 'chdir': 'change the directory'}[name]
            self.pend(eng, st, I, what)
            s2 = st.copy()
            M.set_errno(eng, s2, I)
            s2.cl = s2.cl.set(fail=(what, I.line))
            st.cl = st.cl.set(fail=None, sid=True if name == 'setsid' else g('sid'))
            return [(err(eng, st, I, 'sid', 1, 1 << 22) if name == 'setsid' else 0, st), (-1, s2)]
        if name == 'proxy_start':
            self.pend(eng, st, I, 'start the proxy')
            self.opened(st, I, 'started')
            fg = self.opt(eng, st, 'foreground', 8)
            if g('det') is None and fg is not None and eng.decide(st, 'eq', fg, 0) is not False:
                self.bad(I, 'detach', 'the proxy is started without detaching although that was asked for', st, 'det')
            elif g('det') == 'child' and not g('sid'):
                self.bad(I, 'detach', 'the daemon does not leave the session it was started from', st, 'det')
            else:
                self.ok(I, 'detach', 'det')
            return self.two(eng, st, I, name, 'start the proxy', 'start')
        if name == 'proxy_process':
            self.pend(eng, st, I, 'serve')
            if not g('start'):
                self.bad(I, 'serve', 'clients are served before the proxy was started', st)
            else:
                self.ok(I, 'serve')
            return self.process(eng, st, I)
        if name in ('proxy_free', 'proxy_close'):
            if name == 'proxy_free':
                self.left(eng, st, I)
            st.cl = st.cl.set(freed=True)
            return None
        return None

    def opened(self, st, I, what):
        if not st.cl.get('open'):
            self.bad(I, 'order', 'the daemon %s before the proxy is open' % (
                'detaches' if what == 'detached' else 'starts the proxy'), st, what)
        else:
            self.ok(I, 'order', what)

    def process(self, eng, st, I):
        s2 = st.copy()
        st.cl = st.cl.set(served=True)
        s2.cl = s2.cl.set(served=True)
        return [(0, st), (err(eng, s2, I, 'proc'), s2)]

    def wait(self, eng, st, I, v):
        return None

    def left(self, eng, st, I):
        pass

    def handler_set(self, eng, st, I, name, args):
        return None

    def on_return(self, eng, st, I, v):
        g = st.cl.get
        code = v[1] if isinstance(v, tuple) else v
        if g('det') == 'parent':
            return
        inst = g('fail')[0] if g('fail') else 'end'
        if g('init') and not g('freed'):
            self.bad(I, 'release', 'the daemon ends without releasing the proxy%s' % (
                ' after failing to ' + g('fail')[0] if g('fail') else ''), st, inst)
        else:
            self.ok(I, 'release', inst)
        if g('fail') or not g('start'):
            if code is None or eng.decide(st, 'eq', code, 0) is not False:
                self.bad(I, 'status', 'the daemon ends with success although it %s' % (
                    'failed to ' + g('fail')[0] if g('fail') else 'never started'), st, inst)
            else:
                self.ok(I, 'status', inst)


# ------------------------------------------------------------------------------------------- the command line
LETTERS = {'d': 'debug', 'F': 'foreground', 'q': 'quiet', 'S': 'syslog', 'E': 'eventlog'}
LONG = {b'debug': 'debug', b'quiet': 'quiet'}


class Unknown(Exception):
    pass


def spec(args, event=False):
    """what the documentation says about a command line: (outcome, options)"""
    o = {}
    i = 0

    def mech(m):
        return any(x in o for x in ('syslog', 'eventlog', 'log_path') if x != m)

    def known(b):
        if not isinstance(b, int):
            raise Unknown()
        return b
    while i < len(args):
        a = args[i]
        first = a[0] if a else 0
        if isinstance(first, int) and first == 45 and len(a) > 1:
            if known(a[1]) == 45:
                w = bytes(known(b) for b in a[2:])
                if w in (b'help', b'version'):
                    return 'exit0', o
                if w not in LONG:
                    return 'bad', 'an unknown option'
                o[LONG[w]] = True
            else:
                j = 1
                while j < len(a):
                    c = chr(known(a[j]))
                    if c in 'hV':
                        return 'exit0', o
                    if c == 'L':
                        if mech('log_path'):
                            return 'bad', 'two logging mechanisms'
                        if j + 1 < len(a):
                            o['log_path'] = (i, j + 1)
                            j = len(a)
                        elif i + 1 < len(args):
                            i += 1
                            o['log_path'] = (i, 0)
                        else:
                            return 'bad', 'a log file that is not named'
                    elif c in LETTERS and (event or c != 'E'):
                        if c in 'SE' and mech(LETTERS[c]):
                            return 'bad', 'two logging mechanisms'
                        o[LETTERS[c]] = True
                    else:
                        return 'bad', 'an unknown option'
                    j += 1
        else:
            if 'config_path' in o:
                return 'bad', 'two configuration files'
            o['config_path'] = (i, 0)
        i += 1
    return 'ok', o


class Args(Main):
    def __init__(self, shape, event=False):
        self.shape, self.event = shape, event
        self.text = []

    def setup(self, eng, st):
        av = atom(('O', 'argv'))
        n = len(self.shape)
        st.mem[av] = BM({}, (), atom(('raw', av)))
        prog = atom(('O', 'argv', 'prog'))
        self.blobs = []
        eng.store(st, Ptr(av, 0), 8, Ptr(prog, 0))
        for i, a in enumerate(self.shape):
            b = atom(('O', 'argv', i))
            self.blobs.append(b)
            st.mem[b] = BM({}, (), atom(('raw', b)))
            eng.store(st, Ptr(av, 8 * (i + 1)), 8, Ptr(b, 0))
            for j, c in enumerate(a):
                if c in ('?', '.'):
                    x = eng.fresh(st, ('ch', i, j), 1, 255)
                    v = lin(x)
                    if c == '.':
                        eng.assume(st, 'ne', v, 45)
                else:
                    v = ord(c)
                eng.store(st, Ptr(b, j), 1, v)
            eng.store(st, Ptr(b, len(a)), 1, 0)
        eng.store(st, Ptr(av, 8 * (n + 1)), 8, 0)
        self.av = av

    def key(self, eng, st):
        # command lines that are told apart stay apart
        return st.cl, tuple(tuple(x if isinstance(x, int) else None for x in a) for a in self.args(eng, st))

    def args(self, eng, st):
        out = []
        for i, a in enumerate(self.shape):
            r = []
            for j in range(len(a)):
                v = eng.load(st, Ptr(self.blobs[i], j), ity(8))
                lo, hi = eng.rng(st, v)[:2] if not isinstance(v, int) else (v, v)
                r.append(lo & 255 if lo == hi else v if j or self.shape[i][0] != '.' else None)
            out.append(r)
        return out

    def bytes_at(self, eng, st, p):
        """list of byte values up to (not including) the end of the text, or None"""
        if not isinstance(p, Ptr) or not isinstance(p.o, int):
            return None
        if p.b in self.blobs:
            i = self.blobs.index(p.b)
            n = len(self.shape[i])
            return [eng.load(st, Ptr(p.b, j), ity(8)) for j in range(p.o, n)]
        k = strkey(eng, st, p) if False else M.strkey(eng, st, p)
        return list(k) if isinstance(k, bytes) else None

    def on_call(self, eng, st, I, name, args):
        fn = eng.prog.funcs.get(eng.resolve(st, I)) if name else None
        if fn is not None and not fn.boundary and self.parser(eng, st, args):
            for a in args:
                if isinstance(a, Ptr) and a.b != self.av and adesc(a.b)[0] in 'LG' and st.cl.get('opts') is None:
                    st.cl = st.cl.set(opts=Ptr(a.b, 0))
            return None
        if name in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp'):
            a, b = self.bytes_at(eng, st, args[0]), self.bytes_at(eng, st, args[1])
            if a is not None and b is not None:
                return self.compare(eng, st, I, name, a, b, args[2] if len(args) > 2 else None)
        if name == 'strlen':
            a = self.bytes_at(eng, st, args[0])
            if a is not None:
                return len(a)
        if name == 'strchr' and isinstance(args[1], int):
            a = self.bytes_at(eng, st, args[0])
            if a is not None and all(isinstance(x, int) for x in a):
                k = [i for i, x in enumerate(a + [0]) if x & 255 == args[1] & 255]
                return Ptr(args[0].b, args[0].o + k[0]) if k else 0
        if name in ('proxy_load_conf', 'proxy_open'):
            self.accepted(eng, st, I)
            return []
        if name in ('proxy_init', 'proxy_log_select_medium', 'sigaction'):
            return 0
        if name in ('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'fwrite', 'putc', 'fflush', 'perror'):
            return 0
        return None

    def compare(self, eng, st, I, name, a, b, n):
        if 'case' in name:
            return None
        if n is not None:
            if not isinstance(n, int):
                return None
            a, b = a[:n] if len(a) >= n else a + [0], b[:n] if len(b) >= n else b + [0]
        if len(a) != len(b) and n is None:
            return self.differ(eng, st, I)
        if len(a) != len(b):
            m = min(len(a), len(b))
            if all(x != 0 for x in (a + b)[:0]):
                pass
            a, b = a[:m], b[:m]
        eq = st.copy()
        for x, y in zip(a, b):
            if not eng.assume(eq, 'eq', x, y):
                return self.differ(eng, st, I)
        if all(isinstance(x, int) and isinstance(y, int) for x, y in zip(a, b)):
            return 0
        return [(0, eq), (self.differ(eng, st, I), st)]

    def differ(self, eng, st, I):
        return err(eng, st, I, 'cmp', 1, 255)

    def on_return(self, eng, st, I, v):
        """ended before anything was opened"""
        code = v[1] if isinstance(v, tuple) else v
        zero = eng.decide(st, 'eq', code, 0)
        try:
            r, why = spec(self.args(eng, st), self.event)
        except Unknown:
            if zero is not False:
                self.bad(I, 'reject', 'an unknown option ends the daemon with success', st)
            else:
                self.ok(I, 'reject', self.shape)
            return
        if r == 'exit0':
            return
        if r == 'bad':
            if zero is not False:
                self.bad(I, 'reject', '%s ends the daemon with success' % why, st, why)
            else:
                self.ok(I, 'reject', why)
            return
        self.bad(I, 'refuse', 'a valid command line is refused', st, 'refuse')

    def accepted(self, eng, st, I):
        try:
            r, o = spec(self.args(eng, st), self.event)
        except Unknown:
            self.bad(I, 'accept', 'an unknown option is accepted', st)
            return
        if r == 'bad':
            self.bad(I, 'accept', '%s: accepted' % o, st, o)
            return
        if r == 'exit0':
            return
        self.ok(I, 'accept', self.shape)
        for f, bits in (('foreground', 8), ('debug', 8), ('syslog', 8), ('eventlog', 8)):
            v = self.opt(eng, st, f, bits)
            if v is None:
                continue
            on = eng.decide(st, 'eq', v, 0)
            if on is not (f not in o):
                self.bad(I, 'effect', 'the option for %s %s' % (f, 'has no effect' if f in o else 'is in effect without being given'),
                         st, f)
            else:
                self.ok(I, 'effect', f)
        for f in ('log_path', 'config_path'):
            v = self.opt(eng, st, f)
            if v is None:
                continue
            if f in o:
                w = Ptr(self.blobs[o[f][0]], o[f][1])
                good = eng.decide(st, 'eq', v, w) is True
            else:
                good = f == 'config_path' or null(eng, st, v) is True
            if not good:
                self.bad(I, 'effect', 'the %s that is used is not the one given' % f.replace('_', ' '), st, f)
            else:
                self.ok(I, 'effect', f)


def shapes(tier):
    one = ['-?', '.?', '--?????', '--????', '--???????', '--']
    out = [(a,) for a in one] + [('-??',), ('--??????',), ('--?',), ('-???',)]
    small = ['-?', '.?', '--?????']
    out += [(a, b) for a in small for b in small]
    out += [('-??', '-?'), ('-?', '-??'), ('-?', '-?', '-?'), ('-?', '.?', '-?'), ('-?', '.?', '.?'), ('.?', '-?', '.?')]
    if tier == 'thorough':
        out += [('-??', '-??'), ('-?', '-?', '-??'), ('-??', '.?', '-?')]
    return out


def main_fn(ctx):
    return ctx.prog.fn('main') if any(f.name == 'main' for f in ctx.prog.allf) else None


def d01(ctx):
    P = ctx.prog
    fn = [f for f in P.allf if f.name == 'main' and f.file.endswith('proxyd.c')][0]
    ctx.run(Main(), fn, unroll=3, limit=2000)
    for sh in [()] + shapes(ctx.tier):
        c = Args(sh)
        ctx.run(c, fn, args={0: len(sh) + 1, 1: Ptr(atom(('O', 'argv')), 0)}, setup=c.setup, limit=5000)
    # threads before detaching
    for name in ('proxy_init', 'proxy_load_conf', 'proxy_open', 'proxy_log_select_medium', 'proxy_log', 'proxy_log_level'):
        f = P.fn(name) if any(x.name == name for x in P.allf) else None
        if f is None:
            continue
        for g in [f] + list(reach(P, f)[0]):
            for b in g.blocks:
                for I in b.insts:
                    if I.op == 'call' and I.x and I.x[0] == 'f':
                        n = I.x[1] if isinstance(I.x[1], str) else I.x[1][1]
                        if n in ('pthread_create', 'thrd_create'):
                            ctx.violation(I, 'threads', '%s, which the daemon uses before it detaches, starts a thread' % name,
                                          None, (name, g.name))
        ctx.obligation('threads', name)


# ------------------------------------------------------------------------------------------- signals and the loop
class Reg(Main):
    """which handlers are in place when serving begins"""
    def __init__(self):
        self.handlers = {}       # signal: set of functions (or a constant)
        self.sites = {}
        self.phs = set()

    def process(self, eng, st, I):
        h = dict(st.cl.get('sig'))
        for s in SIGS:
            v = h.get(s)
            self.handlers.setdefault(s, set()).add(v.g if isinstance(v, Fn) else v)
        self.sites.setdefault('serve', I)
        return []

    def step(self, eng, st, I, name, args):
        if name == 'proxy_process':
            self.phs.add(args[0] if isinstance(args[0], Ptr) else None)
            return self.process(eng, st, I)
        if name in ('sigaction', 'signal'):
            return self.handler_set(eng, st, I, name, args)
        return None

    def handler_set(self, eng, st, I, name, args):
        if not isinstance(args[0], int):
            return None
        if name == 'signal':
            f = args[1]
        else:
            if null(eng, st, args[1]) is True:
                return 0
            f = eng.load(st, eng.as_ptr(args[1]), pty())
        h = dict(st.cl.get('sig'))
        h[args[0]] = f
        st.cl = st.cl.set(sig=tuple(sorted(h.items(), key=lambda x: x[0])))
        return 0

    def on_return(self, eng, st, I, v):
        pass


class Handler(DClient):
    def __init__(self, sig, phs):
        self.sig, self.phs = sig, phs
        self.flags = None

    def start(self, eng, st, fn):
        return D(shut=False, flags=())

    def on_load(self, eng, st, I, p):
        if (p.b, p.o) in {(q.b, add(q.o, eng.prog.off('proxy_handle', 'priv'))) for q in self.phs if q}:
            return Ptr(atom(('O', 'proxy-priv')), 0)       # serving: initialised
        return None

    def on_store(self, eng, st, I, p, v, size):
        if adesc(p.b)[0] == 'G' and isinstance(p.o, int) and (p.b, p.o) not in {(q.b, q.o) for q in self.phs if q}:
            f = dict(st.cl.get('flags'))
            f[(p.b, p.o, size)] = v
            st.cl = st.cl.set(flags=tuple(sorted(f.items(), key=repr)))

    def on_call(self, eng, st, I, name, args):
        if name == 'proxy_shutdown':
            p = eng.as_ptr(args[0])
            if p in self.phs:
                st.cl = st.cl.set(shut=True)
            return 0
        if name in ('exit', '_exit', 'quick_exit', 'abort'):
            self.bad(I, 'handler', 'the signal ends the process at once, without releasing the proxy', st, self.sig)
            return []
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        if not st.cl.get('shut'):
            self.bad(I, 'handler', 'a %s does not make the proxy stop accepting' % signal.Signals(self.sig).name, st, self.sig)
        else:
            self.ok(I, 'handler', self.sig)
        f = {k: v for k, v in dict(st.cl.get('flags')).items()}
        good = {k: v for k, v in f.items() if isinstance(v, int)}
        if self.flags is None:
            self.flags = good
        else:
            self.flags = {k: v for k, v in self.flags.items() if good.get(k) == v}


class Loop(Main):
    """the service loop with a signal arriving at any wait"""
    def __init__(self, flags):
        self.flags = flags       # [{(block, offset, size): value}] per signal

    def setup(self, eng, st):
        for f in self.flags:
            for (b, o, size) in f:
                g = eng.prog.globals.get(adesc(b)[1])
                v = [c[2] for c in g.cells if c[0] == o] if g is not None else []
                eng.store(st, Ptr(b, o), size, v[0] if v and isinstance(v[0], int) else 0)

    def pend(self, eng, st, I, what):
        pass

    def opened(self, st, I, what):
        pass

    def step(self, eng, st, I, name, args):
        if name in ('fork', 'vfork'):
            st.cl = st.cl.set(det='child')
            return 0
        if name in ('setsid', 'chdir', 'proxy_init', 'proxy_load_conf', 'proxy_open', 'proxy_log_select_medium'):
            return 0
        if name == 'proxy_start':
            st.cl = st.cl.set(start=True)
            return 0
        if name in ('sigaction', 'signal'):
            return 0
        if name in ('exit', '_exit'):
            self.left(eng, st, I)
        return Main.step(self, eng, st, I, name, args)

    def arrive(self, eng, st):
        out = [st]
        for k, f in enumerate(self.flags):
            s = st.copy()
            for (b, o, size), v in f.items():
                eng.store(s, Ptr(b, o), size, v)
            s.cl = s.cl.set(term=True)
            out.append(s)
        return out

    def wait(self, eng, st, I, v):
        if st.cl.get('term'):
            n = st.cl.get('idle')
            if n >= 2:
                self.bad(I, 'leave', 'the daemon keeps waiting after a termination request', st, 'wait')
                return []
            st.cl = st.cl.set(idle=n + 1)
            return None
        return [(v, s) for s in self.arrive(eng, st)]

    def process(self, eng, st, I):
        if st.cl.get('term'):
            self.bad(I, 'leave', 'the daemon goes on to serve after a termination request', st, 'serve')
            return []
        self.ok(I, 'leave', 'serve')
        out = []
        for v, k in ((0, 'ok'), (-EINTR, 'intr'), ('e', 'err')):
            s = st.copy()
            if v == 'e':
                v = err(eng, s, I, 'proc')
                eng.assume(s, 'ne', v, -EINTR)
            for x in self.arrive(eng, s):
                x.cl = x.cl.set(served=k)
                out.append((v, x))
        return out

    def left(self, eng, st, I):
        k = st.cl.get('served')
        if k is None:
            return
        if not st.cl.get('term') and k != 'err':
            self.bad(I, 'stay', 'the daemon leaves its service loop %s' % (
                'after an interrupted wait' if k == 'intr' else 'although nothing failed'), st, k)
        else:
            self.ok(I, 'stay', (k, st.cl.get('term')))

    def on_return(self, eng, st, I, v):
        if st.cl.get('det') == 'parent' or st.cl.get('served') is None:
            return
        k = (st.cl.get('served'), st.cl.get('term'))
        if not st.cl.get('freed'):
            self.left(eng, st, I)
            self.bad(I, 'release', 'the daemon ends without releasing the proxy', st, k)
        else:
            self.ok(I, 'release', k)


class Shut(DClient):
    """proxy_shutdown"""
    def start(self, eng, st, fn):
        return D(shut=False)

    def on_call(self, eng, st, I, name, args):
        if name == 'conn_shutdown' or name == 'conn_close':
            p = eng.as_ptr(args[0])
            if p.tag == ('proxy_priv', 'conn_listen'):
                st.cl = st.cl.set(shut=True)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        pv = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv'))
        if not st.cl.get('shut'):
            self.bad(I, 'shutdown', 'shutting down leaves the listener open', st, 'listen')
        else:
            self.ok(I, 'shutdown', 'listen')


class Listen(DClient):
    """conn_shutdown ends the wait of conn_accept"""
    INV = -1

    def start(self, eng, st, fn):
        return D(shut=(), excl=False)

    def on_call(self, eng, st, I, name, args):
        if name in ('shutdown', 'close'):
            st.cl = st.cl.set(shut=st.cl.get('shut') + (args[0],))
            return eng.result(st, I, -1, 0)
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        pv = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'conn_handle.priv'))
        fd = eng.load(st, lv(eng, pv, 'conn_priv.sock_fd'), ity(32))
        good = eng.decide(st, 'eq', fd, -1) is True or any(eng.decide(st, 'eq', fd, x) is True for x in st.cl.get('shut'))
        if not good:
            self.bad(I, 'listener', 'shutting a listener down leaves its socket open', st)
        else:
            self.ok(I, 'listener')


class Accept(DClient):
    def start(self, eng, st, fn):
        return D(fail=None, excl=())

    def on_call(self, eng, st, I, name, args):
        if name in LOCK or name in UNLOCK:
            p = eng.as_ptr(args[0])
            e = tuple(x for x in st.cl.get('excl') if x != (p.b, p.o))
            if name == 'mutex_lock':
                e += ((p.b, p.o),)
            st.cl = st.cl.set(excl=e)
            return 0
        if name in ('accept', 'accept4'):
            pv = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'conn_handle.priv'))
            fd = eng.load(st, lv(eng, pv, 'conn_priv.sock_fd'), ity(32))
            if eng.decide(st, 'eq', fd, args[0]) is not True:
                self.bad(I, 'listener', 'a client is awaited on a socket other than the one that is shut down', st, 'accept')
            else:
                self.ok(I, 'listener', 'accept')
            m = lv(eng, pv, 'conn_priv.mutex')
            if (m.b, m.o) in st.cl.get('excl'):
                self.bad(I, 'listener', 'a client is awaited with the listener locked, so that it cannot be shut down', st, 'lock')
            else:
                self.ok(I, 'listener', 'lock')
            out = []
            s1 = st.copy()
            out.append((lin(eng.fresh(s1, ('fd',) + eng.site(s1, I), 0, 1 << 20)), s1))
            for e in (EINTR, ECONNABORTED):
                s = st.copy()
                s.mem[M.ERRNO] = BM({0: (4, e, None)}, (), 0)
                s.cl = s.cl.set(fail=e)
                out.append((-1, s))
            return out
        return None

    def on_return(self, eng, st, I, v):
        f = st.cl.get('fail')
        if f is None or isinstance(v, tuple):
            return
        if eng.decide(st, 'eq', v, -f) is not True:
            self.bad(I, 'reason', '%s is not reported as such' % (
                'an interrupted wait' if f == EINTR else 'a client lost before it was accepted'), st, f)
        else:
            self.ok(I, 'reason', f)


class Proc(DClient):
    """proxy_process"""
    def start(self, eng, st, fn):
        return D(acc=None, work=None)

    def on_call(self, eng, st, I, name, args):
        if name == 'conn_accept':
            out = []
            for v, k in ((0, 'ok'), (-EINTR, 'intr'), (-ECONNABORTED, 'lost'), ('e', 'err')):
                s = st.copy()
                if v == 'e':
                    v = err(eng, s, I, 'acc')
                    eng.assume(s, 'ne', v, -EINTR)
                    eng.assume(s, 'ne', v, -ECONNABORTED)
                s.cl = s.cl.set(acc=k)
                out.append((v, s))
            return out
        if name == 'proxy_worker_accept':
            s2 = st.copy()
            st.cl = st.cl.set(work='ok')
            s2.cl = s2.cl.set(work='err')
            return [(0, st), (err(eng, s2, I, 'work'), s2)]
        return None

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        a, w = st.cl.get('acc'), st.cl.get('work')
        zero = eng.decide(st, 'eq', v, 0)
        what = {'ok': 'a client that was refused', 'lost': 'a client that was lost before it could be accepted',
                'intr': 'an interrupted wait'}.get(a)
        if a is None or a == 'err' or w == 'err':
            return
        good = zero is True or (a == 'intr' and eng.decide(st, 'eq', v, -EINTR) is True)
        if not good:
            self.bad(I, 'serve', '%s ends the service' % (what if w is None else 'a client that was accepted'), st, (a, w))
        else:
            self.ok(I, 'serve', (a, w))


def d02(ctx):
    P = ctx.prog
    fn = [f for f in P.allf if f.name == 'main' and f.file.endswith('proxyd.c')][0]
    reg = Reg()
    ctx.run(reg, fn, unroll=3, limit=2000)
    flags = []
    I = reg.sites.get('serve')
    for s in SIGS:
        hs = reg.handlers.get(s, {None})
        for h in hs:
            f = P.funcs.get(h) if h is not None and not isinstance(h, int) else None
            if f is None:
                ctx.violation(I, 'handler', 'when the service begins, %s is not handled' % signal.Signals(s).name, None, s)
                continue
            c = Handler(s, reg.phs)
            ctx.run(c, f, args={0: s})
            flags.append(c.flags or {})
    if len(flags) >= 2:
        c = Loop(flags)
        ctx.run(c, fn, unroll=3, limit=2000, setup=c.setup)
    ctx.run(Shut(), P.fn('proxy_shutdown'))
    ctx.run(Listen(), P.fn('conn_shutdown'))
    ctx.run(Accept(), P.fn('conn_accept'))
    ctx.run(Proc(), P.fn('proxy_process'))
