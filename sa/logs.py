"""L01: logging.  Every combination of selected medium, configured level, severity and newly selected medium is
analysed (all are small enumerations); opening and registration calls fork into success and failure."""
from .common import *
from .models import set_errno
from . import ir as _ir
import os

LEVELS = 5
NONE, STDOUT, FILE, SYSLOG, EVENTLOG = range(5)
NAMES = ['no medium', 'the console', 'a file', 'syslog', 'the event log']
OLDFP = Ptr(atom(('O', 'oldfile')), 0)
OLDEV = Ptr(atom(('O', 'oldevent')), 0)


def in_log(fn):
    return fn.module == 'log'


class Base(DClient):
    def __init__(self, old, what, win):
        self.old, self.what, self.win = old, what, win
        self.nret = 0

    def handle(self, eng, st):
        """address of the log handle the entry works on"""
        a = eng.as_ptr(st.frames[0].args[0])
        if st.frames[0].fn.module == 'proxy':
            p = eng.as_ptr(fld(eng, st, a, 'proxy_handle.priv'))
            return lv(eng, p, 'proxy_priv.log')
        return a

    def setup(self, eng, st):
        if st.frames[0].fn.module == 'proxy':
            eng.assume(st, 'ne', fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv'), 0)
        h = self.handle(eng, st)
        eng.store(st, lv(eng, h, 'log_handle.medium'), 4, self.old)
        p = Ptr(atom(('O', 'logpriv')), 0)
        eng.store(st, lv(eng, h, 'log_handle.priv'), 8, p)
        eng.store(st, lv(eng, p, 'log_priv.medium_file.log_priv_medium_file.fp'), 8, OLDFP if self.old == FILE else 0)
        eng.store(st, lv(eng, p, 'log_priv.medium_eventlog.log_priv_medium_eventlog.handle'), 8,
                  OLDEV if self.old == EVENTLOG else 0)

    def on_load(self, eng, st, I, p):
        d = adesc(p.b)
        if d[0] == 'G' and I.fn.module == 'log' and isinstance(p.o, int):
            g = eng.prog.globals.get(d[1])
            if g is not None and g.const and g.sval is None and g.ty.size and not isinstance(g.ty.size, str):
                n = I.ty.size if I.ty.size else 4
                inst = ('table', str(d[1]), p.o)
                if p.o < 0 or p.o + n > g.ty.size:
                    self.bad(I, 'mapping', 'a severity has no entry in the table %s' % (d[1][-1],), st, inst)
                else:
                    self.ok(I, 'mapping', inst)

    def stream(self, v):
        """what a FILE pointer stands for"""
        if not isinstance(v, Ptr):
            return None
        d = adesc(v.b)
        if d[0] in ('init', 'ld') or d[0] == 'lazy':
            e = adesc(d[1]) if isinstance(d[1], int) else d
            if e[0] == 'G':
                n = e[1] if isinstance(e[1], str) else e[1][-1]
                return n
        if v == OLDFP:
            return 'file'
        return None


class Message(Base):
    def __init__(self, old, level, lvl, what, win):
        Base.__init__(self, old, what, win)
        self.level, self.lvl = level, lvl

    def start(self, eng, st, fn):
        return D(n=0, taint=())

    def setup(self, eng, st):
        Base.setup(self, eng, st)
        eng.store(st, lv(eng, self.handle(eng, st), 'log_handle.level'), 4, self.level)

    def carries(self, eng, st, v, depth=2):
        f = st.frames[0].args[2]
        if not isinstance(v, Ptr):
            return False
        if v == f or v.b in st.cl.get('taint'):
            return True
        m = st.mem.get(v.b)
        if m is not None and depth:
            return any(isinstance(c[1], Ptr) and self.carries(eng, st, c[1], depth - 1) for c in m.cells.values())
        return False

    def wrote(self, eng, st, I, dest, args):
        """dest: 'stdout', 'stderr', 'file', 'syslog', 'event', None"""
        if self.lvl > self.level or self.old == NONE:
            why = 'less severe than the configured level' if self.lvl > self.level else 'logged while no medium is selected'
            self.bad(I, 'filter', 'something is written for a message %s' % why, st, ('filter', self.what))
            return
        want = {STDOUT: ('stdout', 'stderr'), FILE: ('file',), SYSLOG: ('syslog',), EVENTLOG: ('event',)}[self.old]
        if dest not in want:
            self.bad(I, 'medium', 'with %s selected, a message is written elsewhere (%s)' % (NAMES[self.old], dest or 'unknown'),
                     st, ('medium', self.what))
            return
        if any(self.carries(eng, st, a) for a in args):
            st.cl = st.cl.set(n=st.cl.get('n') + 1)

    def on_call(self, eng, st, I, name, args):
        if name in ('vfprintf', 'fprintf', '__fprintf_chk', '__vfprintf_chk'):
            self.wrote(eng, st, I, self.stream(args[0]), args[1:])
            return eng.result(st, I)
        if name in ('fputs', 'fputc', 'putc', 'fputs_unlocked'):
            self.wrote(eng, st, I, self.stream(args[1]), args[:1])
            return eng.result(st, I)
        if name == 'fwrite':
            self.wrote(eng, st, I, self.stream(args[3]), args[:1])
            return eng.result(st, I)
        if name in ('vprintf', 'printf', 'puts', 'putchar'):
            self.wrote(eng, st, I, 'stdout', args)
            return eng.result(st, I)
        if name in ('vsyslog', 'syslog'):
            self.wrote(eng, st, I, 'syslog', args[1:])
            self.table(eng, st, I, 'syslog', args[0])
            return 0 if I.ty.kind != 'void' else None
        if name == 'ReportEvent' or name and name.startswith('ReportEvent'):
            self.wrote(eng, st, I, 'event', args[6:])
            if args[0] != OLDEV:
                self.bad(I, 'medium', 'an event is reported to something other than the open event log', st, ('medium', self.what))
            self.table(eng, st, I, 'type', args[1])
            self.table(eng, st, I, 'ident', args[3])
            return eng.result(st, I)
        if name in ('write', 'dprintf', 'vdprintf', 'send'):
            self.wrote(eng, st, I, None, args[1:])
            return eng.result(st, I)
        if name in ('vsnprintf', 'snprintf', 'vsprintf', 'sprintf', 'asprintf', 'vasprintf', '__vsnprintf_chk', '__snprintf_chk'):
            if isinstance(args[0], Ptr) and any(self.carries(eng, st, a) for a in args[1:]):
                st.cl = st.cl.set(taint=tuple(sorted(set(st.cl.get('taint')) | {args[0].b})))
                if name in ('asprintf', 'vasprintf'):
                    b = eng.fresh(st, ('O', 'asprintf') + eng.site(st, I))
                    eng.store(st, args[0], 8, Ptr(b, 0))
                    st.cl = st.cl.set(taint=tuple(sorted(set(st.cl.get('taint')) | {b})))
            return None
        return None

    def table(self, eng, st, I, which, v):
        """no severity may be left without a value of its own kind"""
        r = eng.rng(st, v)
        self.tables.setdefault(which, {}).setdefault(self.lvl, set()).add(r[0] if r[0] == r[1] else None)
        self.where[which] = I

    def on_return(self, eng, st, I, v):
        self.nret += 1
        want = int(self.lvl <= self.level and self.old != NONE)
        n = st.cl.get('n')
        inst = ('count', self.what)
        if n != want:
            self.bad(I, 'filter', '%s: with %s selected, level %d, a message of severity %d is written %d times' % (
                st.frames[0].fn.name, NAMES[self.old], self.level, self.lvl, n) if n else
                '%s: with %s selected, level %d, a message of severity %d is not written' % (
                st.frames[0].fn.name, NAMES[self.old], self.level, self.lvl), st, inst)
        else:
            self.ok(I, 'filter', inst)


class Select(Base):
    """old -> new"""
    def __init__(self, old, new, what, win):
        Base.__init__(self, old, what, win)
        self.new = new
        self.fresh = True

    def start(self, eng, st, fn):
        live = {FILE: (OLDFP,), SYSLOG: ('syslog',), EVENTLOG: (OLDEV,)}.get(self.old, ())
        return D(live=live, opened=False, failed=False, freed=False)

    def want_open(self):
        return self.new in (FILE, SYSLOG, EVENTLOG) and (self.new != self.old or self.new == FILE)

    def isold(self, r):
        return r in (OLDFP, OLDEV) or r == 'syslog' and self.old == SYSLOG

    def close(self, eng, st, I, r):
        live = st.cl.get('live')
        inst = ('close', self.what)
        if r not in live:
            self.bad(I, 'close', '%s: something that is not open is closed' % self.what, st, inst)
            return
        if self.isold(r) and self.want_open() and not st.cl.get('opened'):
            self.bad(I, 'order', '%s: the old medium is given up before the new one is open' % self.what, st, inst)
        else:
            self.ok(I, 'order', inst)
        st.cl = st.cl.set(live=tuple(x for x in live if x != r))

    def opening(self, eng, st, I, kind):
        s2 = st.copy()
        set_errno(eng, s2, I)
        s2.cl = s2.cl.set(failed=True)
        b = Ptr(eng.fresh(st, ('O', 'new' + kind) + eng.site(st, I)), 0)
        st.cl = st.cl.set(opened=True, live=st.cl.get('live') + (b,))
        return [(b, st), (0, s2)]

    def on_call(self, eng, st, I, name, args):
        if name in ('fopen', 'fopen64'):
            if self.new == FILE and st.frames[0].fn.name.endswith('select_medium'):
                t = st.frames[0].args[2]
                if args[0] != t:
                    self.bad(I, 'target', 'a file other than the given one is opened for logging', st, ('target', self.what))
            return self.opening(eng, st, I, 'file')
        if name == 'freopen':
            self.close(eng, st, I, args[2])
            return self.opening(eng, st, I, 'file')
        if name == 'fclose':
            if self.stream(args[0]) in ('stdout', 'stderr'):
                self.bad(I, 'close', '%s: the console is closed' % self.what, st, ('close', self.what))
            else:
                self.close(eng, st, I, args[0])
            return 0
        if name == 'openlog':
            live = st.cl.get('live')
            st.cl = st.cl.set(opened=True, live=live if 'syslog' in live else live + ('syslog',))
            return 0 if I.ty.kind != 'void' else None
        if name == 'closelog':
            self.close(eng, st, I, 'syslog')
            return 0
        if name and name.startswith('RegisterEventSource'):
            return self.opening(eng, st, I, 'event')
        if name == 'DeregisterEventSource':
            self.close(eng, st, I, args[0])
            return 1
        if name == 'GetLastError':
            return lin(eng.fresh(st, ('winerr',) + eng.site(st, I), 1, 15999))
        if name == 'free':
            p = eng.as_ptr(args[0])
            if p.b == atom(('O', 'logpriv')):
                st.cl = st.cl.set(freed=True)
                if st.cl.get('live'):
                    self.bad(I, 'leak', 'the log is released while its medium is open', st, ('leak', self.what))
            return 0
        return None

    def on_return(self, eng, st, I, v):
        self.nret += 1
        if isinstance(v, tuple):
            return
        h = self.handle(eng, st)
        cl = st.cl
        inst = ('state', self.what)
        ok = not cl.get('failed') and not (self.new == EVENTLOG and self.old != EVENTLOG and not cl.get('opened'))
        if v is not None and st.frames[0].fn.ret.kind != 'void':
            n = isneg(eng, st, v)
            if n is not (not ok):
                self.bad(I, 'result', '%s: %s' % (self.what, 'the change fails although the medium was opened' if ok
                                                 else 'success is reported although the medium could not be opened'), st, inst)
                return
        live = cl.get('live')
        if cl.get('freed'):
            if live:
                self.bad(I, 'leak', '%s: the medium stays open' % self.what, st, inst)
            return
        m = eng.load(st, lv(eng, h, 'log_handle.medium'), ity(32))
        want = self.new if ok else self.old
        if m != want:
            self.bad(I, 'state', '%s: %s' % (self.what, 'the new medium is not selected' if ok else
                                            'the old medium does not stay selected when the new one cannot be opened'), st, inst)
            return
        p = eng.as_ptr(eng.load(st, lv(eng, h, 'log_handle.priv'), pty()))
        fp = eng.load(st, lv(eng, p, 'log_priv.medium_file.log_priv_medium_file.fp'), pty())
        ev = eng.load(st, lv(eng, p, 'log_priv.medium_eventlog.log_priv_medium_eventlog.handle'), pty())
        need = {FILE: fp, SYSLOG: 'syslog', EVENTLOG: ev}.get(want)
        if want in (FILE, EVENTLOG, SYSLOG) and need not in live:
            self.bad(I, 'state', '%s: the selected medium is not open' % self.what, st, inst)
            return
        if self.new == FILE and ok and fp == OLDFP and self.fresh:
            self.bad(I, 'state', '%s: messages keep going to the old file' % self.what, st, inst)
            return
        extra = [x for x in live if x != need]
        if extra:
            self.bad(I, 'leak', '%s: a medium that is no longer selected stays open' % self.what, st, inst)
            return
        if want != FILE and fp != 0 or want != EVENTLOG and ev != 0:
            self.bad(I, 'state', '%s: a medium that was given up stays recorded' % self.what, st, inst)
            return
        self.ok(I, 'state', inst)


class Init(DClient):
    """log_init: nothing selected, nothing open"""
    def start(self, eng, st, fn):
        return D()

    def on_return(self, eng, st, I, v):
        if isneg(eng, st, v) is True:
            return
        h = eng.as_ptr(st.frames[0].args[0])
        m = eng.load(st, lv(eng, h, 'log_handle.medium'), ity(32))
        p = eng.as_ptr(eng.load(st, lv(eng, h, 'log_handle.priv'), pty()))
        fp = eng.load(st, lv(eng, p, 'log_priv.medium_file.log_priv_medium_file.fp'), pty())
        ev = eng.load(st, lv(eng, p, 'log_priv.medium_eventlog.log_priv_medium_eventlog.handle'), pty())
        if m != 0 or fp != 0 or ev != 0:
            self.bad(I, 'state', 'a new log starts with a medium that is not open', st, ('init',))
        else:
            self.ok(I, 'state', ('init',))


class Level(DClient):
    def start(self, eng, st, fn):
        return D()

    def on_return(self, eng, st, I, v):
        p = eng.as_ptr(fld(eng, st, st.frames[0].args[0], 'proxy_handle.priv'))
        x = eng.load(st, lv(eng, p, 'proxy_priv.log.log_handle.level'), ity(32))
        if eng.decide(st, 'eq', x, st.frames[0].args[1]) is not True:
            self.bad(I, 'level', 'the configured level does not become the one given', st)
        else:
            self.ok(I, 'level')


def one(ctx, prog, win):
    opts = dict(inline=lambda f: in_log(f) or f.internal)
    media = range(5) if win else range(4)
    tables, where = {}, {}
    n = 0
    tag = ' (event log build)' if win else ''
    for fname in ('log_vprintf', 'log_printf', 'proxy_log'):
        f = prog.fn(fname)
        for old in media:
            for level in range(LEVELS):
                for lvl in range(LEVELS):
                    c = Message(old, level, lvl, '%s, %s, level %d, severity %d%s' % (fname, NAMES[old], level, lvl, tag), win)
                    c.tables, c.where = tables, where
                    lvlarg = {1: lvl}
                    ctx.run(c, f, setup=c.setup, args=lvlarg, **opts)
                    n += c.nret
    for which, t in tables.items():
        I = where[which]
        vals = [t.get(i, {None}) for i in range(LEVELS)]
        inst = (which, win)
        if any(len(x) != 1 or None in x for x in vals):
            ctx.violation(I, 'mapping', 'a severity has no fixed entry in the %s mapping' % which)
            ctx.obligation('mapping', inst, False)
            continue
        vals = [min(x) for x in vals]
        okv = all(x != 0 for x in vals)
        if which == 'syslog':
            okv = okv and vals == sorted(vals)
        elif which == 'ident':
            okv = okv and len(set(vals)) == LEVELS
        ctx.obligation('mapping', inst, okv)
        if not okv:
            ctx.violation(I, 'mapping', 'a severity has no entry of its own in the %s mapping: %s' % (which, vals))
    for fname in ('log_select_medium', 'proxy_log_select_medium'):
        f = prog.fn(fname)
        for old in media:
            for new in range(5):
                c = Select(old, new, '%s: %s to %s%s' % (fname, NAMES[old], NAMES[new], tag), win)
                o2 = opts if fname == 'log_select_medium' else dict(
                    inline=lambda g: in_log(g) and g.name not in ('log_ident', 'log_printf', 'log_vprintf') or g.internal)
                ctx.run(c, f, setup=c.setup, args={1: new}, **o2)
                n += c.nret
    for fname, new in (('log_close', lambda o: NONE), ('log_free', lambda o: NONE),
                       ('log_open', lambda o: STDOUT if o == NONE else o)):
        f = prog.fn(fname)
        for old in media:
            c = Select(old, new(old), '%s: from %s%s' % (fname, NAMES[old], tag), win)
            if fname == 'log_open':
                c.want_open = lambda: False
                c.fresh = False
            ctx.run(c, f, setup=c.setup, **opts)
            n += c.nret
    ctx.run(Init(), prog.fn('log_init'), **opts)
    ctx.run(Level(), prog.fn('proxy_log_level'), **opts)
    return n


def l01(ctx):
    n = one(ctx, ctx.prog, False)
    stub = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'winstub')
    try:
        p2 = _ir.load_program(extra=['-DHAVE_EVENTLOG=1', '-isystem', stub])
    except _ir.AnalysisError as e:
        ctx.notes.append('the event log build was not analysed: %s' % str(e)[:200])
        p2 = None
    if p2 is not None:
        keep = ctx.prog
        ctx.prog = p2
        try:
            n += one(ctx, p2, True)
        finally:
            ctx.prog = keep
    ctx.notes.append('%d outcomes of medium, level and severity analysed' % n)
