"""Failure propagation: forks every step that can fail and follows the failure to the return value."""
from .common import *
from . import models as M

# calls that do not change errno (documented, or pure)
PURE_ERRNO = ('mutex_', 'condvar_', 'pthread_', 'mem', 'strlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy',
              'htons', 'ntohs', 'htonl', 'ntohl', 'bcmp', 'llvm.', '__errno_location', 'ferror', 'feof', 'rand', 'srand')
PURE_EXACT = {'free'}

NULLS = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'fopen', 'pcre2_compile_8', 'pcre2_match_data_create_from_pattern_8',
         'pcre2_match_data_create_8'}
MINUS1 = {'socket', 'accept', 'bind', 'listen', 'connect', 'setsockopt', 'recv', 'recvfrom', 'send', 'sendto'}
POSITIVE = {'pthread_mutex_init', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_init', 'pthread_cond_wait',
            'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_create', 'pthread_join',
            'pthread_attr_init', 'pthread_attr_setstacksize', 'getaddrinfo'}
# module interfaces reporting 0 or more on success and a negative error otherwise
STATUS = set('''conn_init conn_listen conn_accept conn_connect conn_set_timeout conn_recv conn_recv_any conn_send conn_send_to
mutex_init condvar_init worker_init worker_start worker_join worker_wait_idle worker_wake thread_init thread_start thread_join
regex_init regex_compile registration_service_init registration_service_start registration_service_stop log_init log_open
log_select_medium conf_init conf_parse_file proxy_conn_init proxy_conn_start proxy_conn_stop proxy_conn_accept proxy_conn_process
rand_init rand_get get_nonce get_password_response proxy_open proxy_start proxy_process proxy_load_conf proxy_init
proxy_log_select_medium proxy_client_init proxy_client_connect regex_is_match condvar_wait condvar_wait_time condvar_wake_one
condvar_wake_all'''.split())


_raw = {}


def raw(prog, fn):
    """does the function hand on a positive error of the system as it is (and so not follow the convention here)?"""
    r = _raw.get(id(fn))
    if r is None:
        _raw[id(fn)] = False
        defs = {x.id: x for b in fn.blocks for x in list(b.phis) + b.insts}
        work = [x.args[0] for b in fn.blocks for x in b.insts if x.op == 'ret' and x.args]
        seen, r = set(), False
        while work:
            o = work.pop()
            if o[0] != 'v' or o[1] in seen:
                continue
            seen.add(o[1])
            d = defs.get(o[1])
            if d is None:
                continue
            if d.op == 'phi':
                work += [v for _, v in d.x]
            elif d.op == 'select':
                work += d.args[1:]
            elif d.op == 'call' and d.x and d.x[0] == 'f':
                g = prog.funcs.get(d.x[1])
                r = r or d.x[1] in POSITIVE or g is not None and g is not fn and raw(prog, g)
        _raw[id(fn)] = r
    return r


_ans = {}


def answer(fn):
    """does the function only ever return fixed numbers of at least 0 (an answer, not a status)?"""
    r = _ans.get(id(fn))
    if r is None:
        defs = {x.id: x for b in fn.blocks for x in list(b.phis) + b.insts}
        work = [x.args[0] for b in fn.blocks for x in b.insts if x.op == 'ret' and x.args]
        seen, r = set(), True
        while work and r:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            if o[0] == 'i':
                r = 0 <= o[1] < 1 << 31
                continue
            d = defs.get(o[1]) if o[0] == 'v' else None
            if d is not None and d.op == 'phi':
                work += [v for _, v in d.x]
            elif d is not None and d.op == 'select':
                work += d.args[1:]
            elif d is None or d.op not in ('icmp', 'zext'):
                r = False
        _ans[id(fn)] = r
    return r


def big(prog, fn, n=70):
    if fn.internal and answer(fn):
        return False
    if fn.internal and sum(len(b.insts) for b in fn.blocks) < 200 and raw(prog, fn):
        return False
    return fn.internal and not fn.addr_taken and (bool(fn.loops) or sum(len(b.insts) for b in fn.blocks) >= n)


class Steps(DClient):
    """st.cl['f']: ((callee, line, value or None), ...) essential failures so far"""
    tolerated = frozenset()
    keep = 4

    def start(self, eng, st, fn):
        return D(f=(), any=False)

    def essential(self, eng, st, I, name, args):
        return name not in self.tolerated

    def failing(self, eng, s, name, v, fn):
        """does outcome v of name mean failure? True/False"""
        if name in NULLS:
            return null(eng, s, v) is True
        if name in MINUS1:
            return v == -1
        if name in POSITIVE:
            return eng.decide(s, 'eq', v, 0) is False
        if name in STATUS or fn is not None:
            return isneg(eng, s, v) is True
        return False

    def outcomes(self, eng, st, I, name, args):
        """the list of (value, state) of this step, or None when it is not a step"""
        fn = None
        if name == 'pcre2_match_8':
            out = []
            for k, lo, hi in ((1, 0, 1 << 16), (0, -1, -1), (-1, -1 << 16, -2)):
                s = st.copy()
                v = lo if lo == hi else lin(eng.fresh(s, ('m', k) + eng.site(s, I), lo, hi))
                out.append((v, s))
            return out, {2: True}
        if name in ('fgetc', 'getc', '_IO_getc'):
            s2, s3 = st.copy(), st.copy()
            c = eng.fresh(st, ('ch',) + eng.site(st, I), 0, 255)
            M.set_errno(eng, s3, I)
            s3.cl = s3.cl.set(rderr=True)
            return [(lin(c), st), (-1, s2), (-1, s3)], {2: True}
        if name == 'pthread_cond_timedwait':
            s2, s3 = st.copy(), st.copy()
            e = eng.fresh(s3, ('ret',) + eng.site(s3, I), 1, 4095)
            eng.assume(s3, 'ne', lin(e), 110)
            s2.cl = s2.cl.set(tw=True)          # keeps the two kinds of success apart
            st.cl = st.cl.set(tw=False)
            return [(0, st), (110, s2), (lin(e), s3)], {2: True}
        if name == 'ferror':
            if st.cl.get('rderr'):
                a = eng.fresh(st, ('ferr',) + eng.site(st, I), 1, 1)
                return [(lin(a), st)], {}
            return [(0, st)], {}
        g = eng.resolve(st, I)
        if g in eng.prog.funcs:
            f = eng.prog.funcs[g]
            if big(eng.prog, f) and f.ret is not None and f.ret.kind == 'int':
                fn = f
                s2 = st.copy()
                for s in (st, s2):
                    for a in args:
                        if isinstance(a, Ptr):
                            eng.havoc(s, a.b, eng.site(s, I))
                e = eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)
                z = eng.fresh(st, ('cnt',) + eng.site(st, I), 0, (1 << 31) - 1)
                r = [(lin(z), st), (lin(e), s2)]
                return r, {1: True}
            if eng.should_inline(st, f):
                return None, None
        if name not in NULLS and name not in MINUS1 and name not in POSITIVE and name not in STATUS:
            return None, None
        m = eng.models.get(name)
        if m is None:
            return None, None
        r = m(eng, st, I, args)
        if not isinstance(r, list):
            r = [(r, st)]
        if name == 'conn_accept':
            # a client lost before it was accepted (ECONNABORTED) is no failure of the service: D02
            for v, s in r:
                if isneg(eng, s, v) is True:
                    eng.assume(s, 'ne', v, -103)
        if name == 'proxy_conn_accept':
            # a slot that is taken says so (EBUSY): the next one is tried, S03
            b = st.copy()
            for v, s in r:
                if isneg(eng, s, v) is True:
                    eng.assume(s, 'ne', v, -16)
            r = list(r) + [(-16, b)]
            return r, {n: n < len(r) - 1 and self.failing(eng, s, name, v, fn) for n, (v, s) in enumerate(r)}
        return r, {n: self.failing(eng, s, name, v, fn) for n, (v, s) in enumerate(r)}

    def on_call(self, eng, st, I, name, args):
        out, bad = self.outcomes(eng, st, I, name, args)
        if out is None:
            g = eng.resolve(st, I)
            f = eng.prog.funcs.get(g)
            inl = f is not None and eng.should_inline(st, f)
            if not inl and name not in PURE_EXACT and not any((name or '').startswith(p) for p in PURE_ERRNO):
                m = eng.models.get(name)
                r = m(eng, st, I, args) if m else eng.default_call(st, I, name, args)
                for s in ([s for _, s in r] if isinstance(r, list) else [st]):
                    if r is not M.E.DEAD:
                        M.set_errno(eng, s, I)
                return r
            return None
        ess = self.essential(eng, st, I, name, args)
        for n, (v, s) in enumerate(out):
            fl = bad.get(n, False)
            if fl:
                s.cl = s.cl.set(any=True)
                self.failed(eng, s, I, name, v, ess, args)
            else:
                self.succeeded(eng, s, I, name, v, args)
        return out

    def failed(self, eng, s, I, name, v, ess, args):
        if not ess:
            return
        vals = v
        if name in MINUS1 or name in NULLS:
            vals = eng.load(s, Ptr(M.ERRNO, 0), ity(32))
        f = tuple(x for x in s.cl.get('f') if x[:2] != (name, I.line)) + ((name, I.line, vals),)
        s.cl = s.cl.set(f=f[-self.keep:], any=True)
        self.ok(I, 'step', (s.frames[0].fn.name, name, I.fn.name, I.line))

    def succeeded(self, eng, s, I, name, v, args):
        pass

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or v is None:
            return
        n = isneg(eng, st, v)
        f = st.cl.get('f')
        fn = st.frames[0].fn.name
        self.ctx.obligation('return', (fn, I.line, tuple(x[0] for x in f), n), True)
        if f and n is not True:
            x = f[0]
            self.bad(I, 'lost-failure', '%s reports %s although %s failed' % (
                fn, 'success' if n is False else 'what may be success', ' and '.join(sorted({x[0] for x in f}))), st)
        if n is True or n is None:
            lo, hi, _ = eng.rng(st, v)
            if lo == hi:
                if lo == -1 and False:
                    pass
                return
            a = set()
            vatoms(v, a)
            if not a:
                return
            al = set()
            for x in f:
                vatoms(x[2], al)
            if not (a & al) and n is True:
                self.bad(I, 'foreign-error', '%s reports an error code that is not the one of the step that failed' % fn, st)


def errs(prog):
    """operations that return a status: interface functions, and large internal ones (the daemon itself: D01, D02)"""
    out = []
    daemon = prog.fn('main').module
    for f in prog.allf:
        if f.ret is None or f.ret.kind != 'int' or f.module == daemon:
            continue
        if f.boundary or big(prog, f):
            out.append(f)
    return out
