"""Effects of functions the analysis does not look into: libc, POSIX, PCRE2 and the
program's own module interfaces (each of which is analysed separately as an entry)."""
from .engine import *
from . import engine as E

ERRNO = atom(('O', 'errno'))


def set_errno(eng, st, I):
    a = eng.fresh(st, ('errno',) + eng.site(st, I), 1, 4095)
    st.mem[ERRNO] = BM({0: (4, lin(a), None)}, (), 0)


def m_errno(eng, st, I, args):
    return Ptr(ERRNO, 0)


def m_alloc(zero, szf):
    def f(eng, st, I, args):
        n = szf(eng, args)
        site = eng.site(st, I)
        b = eng.fresh(st, ('H',) + site)
        s2 = st.copy()
        set_errno(eng, s2, I)
        st.mem[b] = BM({}, ((('zero', 0, n, 0),) if zero else ()), atom(('raw', b)) if not zero else 0)
        eng.heapsize[b] = n
        return [(Ptr(b, 0), st), (0, s2)]
    return f


def pure(lo=-INF, hi=INF):
    def f(eng, st, I, args):
        return eng.result(st, I, lo, hi)
    return f


def sysret(lo=-INF, hi=INF):
    def f(eng, st, I, args):
        set_errno(eng, st, I)
        return eng.result(st, I, lo, hi)
    return f


def sys01(eng, st, I, args):
    """0 on success, -1 and errno on failure"""
    s2 = st.copy()
    set_errno(eng, s2, I)
    return [(0, st), (-1, s2)]


def none(eng, st, I, args):
    return 0


def m_memset(eng, st, I, args):
    p, v, n = eng.as_ptr(args[0]), args[1], to_num(args[2])
    eng.client_write(st, I, p, n, 'memset')
    if isinstance(v, int) and v == 0:
        eng.blob(st, p, n, 'zero', 0)
    else:
        eng.blob(st, p, n, 'data', atom(('fill', v)))
    return args[0]


def m_memcpy(eng, st, I, args):
    d, s, n = eng.as_ptr(args[0]), eng.as_ptr(args[1]), to_num(args[2])
    eng.client_write(st, I, d, n, 'memcpy')
    eng.client_read(st, I, s, n, 'memcpy')
    copy_bytes(eng, st, d, s, n)
    return args[0]


def copy_bytes(eng, st, d, s, n):
    ms = eng.bm(st, s.b)
    cells = []
    blobs = []
    exact = isinstance(n, int) and isinstance(s.o, int)
    if exact:
        for o, c in ms.cells.items():
            if o >= s.o and o + c[0] <= s.o + n:
                cells.append((o - s.o, c))
            elif o < s.o + n and s.o < o + c[0]:
                exact = False
    if exact and isinstance(n, int) and n <= 64:
        out = []
        covered = set()
        for o, c in cells:
            covered.update(range(o, o + c[0]))
            out.append((o, c[0], c[1]))
        i = 0
        from .ir import Ty
        t = Ty()
        t.kind, t.bits, t.size, t.name = 'int', 8, 1, None
        while i < n:
            if i not in covered:
                out.append((i, 1, eng.load(st, Ptr(s.b, s.o + i), t)))
            i += 1
        eng.blob(st, d, n, 'data', atom(('cp', d.b)))
        if isinstance(d.o, int):
            for o, sz, v in out:
                eng.store(st, Ptr(d.b, d.o + o), sz, v)
        return
    if isinstance(s.o, int) and s.b in st.mem or True:
        bid = atom(('copy', s.b, s.o, ms.key()))
    eng.blob(st, d, n, 'data', bid)


def strkey(eng, st, p):
    p = eng.as_ptr(p)
    d = adesc(p.b)
    if d[0] == 'G':
        g = eng.prog.globals.get(d[1])
        if g is not None and g.sval is not None and g.const and isinstance(p.o, int):
            s = g.sval[p.o:].split(b'\0')[0]
            return s
        if g is not None and g.const and p.o == 0 and g.cells and g.cells[0][2][0] == 'z':
            return b''
    m = st.mem.get(p.b)
    return (p, m.key() if m is not None else 0)


def m_strlen(eng, st, I, args):
    k = strkey(eng, st, args[0])
    eng.client_read(st, I, eng.as_ptr(args[0]), 1, 'strlen')
    if isinstance(k, bytes):
        return len(k)
    x = eng.client.exact_end(eng, st, eng.as_ptr(args[0]))
    if x is not None:
        return x
    a = lin(atom(('strlen', k), 0, (1 << 31) - 1))
    z = known_end(eng, st, eng.as_ptr(args[0]))
    if z is not None:
        eng.assume(st, 'sle', a, z)
    return a


def m_strcmp(eng, st, I, args):
    a, b = strkey(eng, st, args[0]), strkey(eng, st, args[1])
    for x in args[:2]:
        eng.client_read(st, I, eng.as_ptr(x), 1, 'strcmp')
    if isinstance(a, bytes) and isinstance(b, bytes):
        return (a > b) - (a < b)
    n = args[2] if len(args) > 2 else None
    if repr(a) > repr(b):
        a, b = b, a
    return lin(atom(('strcmp', a, b, n, I.fn.name if False else 0)))


def m_memcmp(eng, st, I, args):
    p, q, n = eng.as_ptr(args[0]), eng.as_ptr(args[1]), args[2]
    for x in (p, q):
        eng.client_read(st, I, x, n, 'memcmp')
    eng.cmp_info = getattr(eng, 'cmp_info', {})
    a = eng.fresh(st, ('memcmp',) + eng.site(st, I))
    vals = None
    if isinstance(n, int) and n <= 64 and isinstance(p.o, int) and True:
        from .ir import Ty
        t = Ty()
        t.kind, t.bits, t.size, t.name = 'int', 8, 1, None
        vals = [(eng.load(st, Ptr(p.b, add(p.o, i)), t), eng.load(st, Ptr(q.b, add(q.o, i)), t)) for i in range(n)]
    # equal or different: split, recording byte equalities on the equal branch
    s2 = st.copy()
    ok = True
    if vals is not None:
        for x, y in vals:
            if not eng.assume(st, 'eq', x, y):
                ok = False
                break
    out = []
    if ok:
        out.append((0, st))
    nz = eng.fresh(s2, ('memcmpnz',) + eng.site(s2, I))
    eng.assume(s2, 'ne', lin(nz), 0)
    out.append((lin(nz), s2))
    return out


def byte_ty():
    from .ir import Ty
    t = Ty()
    t.kind, t.bits, t.size, t.name = 'int', 8, 1, None
    return t


def known_end(eng, st, p, limit=256):
    """offset of the first byte at p known to be NUL, when it is at a constant offset"""
    if not isinstance(p.o, int) or adesc(p.b)[0] == 'G':
        return None
    m = st.mem.get(p.b)
    if m is None:
        return None
    c = [o for o, cc in m.cells.items() if o >= p.o and cc[0] == 1 and cc[1] == 0 and isinstance(cc[1], int)]
    if not c or min(c) - p.o > limit:
        return None
    return min(c) - p.o


def m_memchr(eng, st, I, args):
    p, c, n = eng.as_ptr(args[0]), args[1], args[2]
    if not (isinstance(c, int) and isinstance(n, int) and n <= 64):
        return eng.result(st, I)
    c = c if c < 128 else c - 256
    out = []
    t = byte_ty()
    for i in range(n):
        v = eng.load(st, Ptr(p.b, add(p.o, i)), t)
        s = st.copy()
        if eng.assume(s, 'eq', v, c):
            out.append((Ptr(p.b, add(p.o, i)), s))
        if not eng.assume(st, 'ne', v, c):
            return out
    out.append((0, st))
    return out


def m_strcpy(eng, st, I, args):
    d, s = eng.as_ptr(args[0]), eng.as_ptr(args[1])
    z = known_end(eng, st, s)
    if z is not None:
        eng.client_write(st, I, d, z + 1, 'strcpy')
        copy_bytes(eng, st, d, s, z + 1)
        return args[0]
    ln = m_strlen(eng, st, I, [args[1]])
    n = add(ln, 1)
    eng.client_write(st, I, d, n, 'strcpy')
    k = strkey(eng, st, s)
    eng.blob(st, d, n, 'data', atom(('str', k)))
    if isinstance(k, bytes):
        for i, ch in enumerate(k + b'\0'):
            if isinstance(d.o, int):
                eng.store(st, Ptr(d.b, d.o + i), 1, ch if ch < 128 else ch - 256)
    return args[0]


def m_strncpy(eng, st, I, args):
    d, s, n = eng.as_ptr(args[0]), eng.as_ptr(args[1]), to_num(args[2])
    eng.client_write(st, I, d, n, 'strncpy')
    eng.client_read(st, I, s, 1, 'strncpy')
    eng.blob(st, d, n, 'data', atom(('strn', strkey(eng, st, s))))
    return args[0]


def m_strcat(eng, st, I, args):
    d, s = eng.as_ptr(args[0]), eng.as_ptr(args[1])
    l1 = m_strlen(eng, st, I, [args[0]])
    l2 = m_strlen(eng, st, I, [args[1]])
    eng.client_write(st, I, Ptr(d.b, add(d.o, l1)), add(l2, 1), 'strcat')
    eng.blob(st, Ptr(d.b, add(d.o, l1)), add(l2, 1), 'data', atom(('str', strkey(eng, st, s))))
    return args[0]


def m_sprintf(eng, st, I, args):
    from . import fmt
    d = eng.as_ptr(args[0])
    lo, hi = fmt.length(eng, st, args[1], args[2:])
    hi1 = None if hi is None else add(hi, 1)
    eng.client_write(st, I, d, hi1, 'sprintf')
    bid = eng.fresh(st, ('sprintf',) + eng.site(st, I))
    if hi1 is not None:
        eng.blob(st, d, hi1, 'data', bid)
    else:
        eng.havoc(st, d.b, eng.site(st, I))
    r = eng.fresh(st, ('sprintflen',) + eng.site(st, I))
    v = lin(r)
    if lo == hi and lo is not None:
        return lo
    eng.assume(st, 'sge', v, 0)
    if lo is not None:
        eng.assume(st, 'sge', v, lo)
    if hi is not None:
        eng.assume(st, 'sle', v, hi)
    eng.blobkind = getattr(eng, 'blobkind', {})
    return v


def m_snprintf(eng, st, I, args):
    d = eng.as_ptr(args[0])
    eng.client_write(st, I, d, to_num(args[1]), 'snprintf')
    eng.blob(st, d, to_num(args[1]), 'data', eng.fresh(st, ('snprintf',) + eng.site(st, I)))
    return eng.result(st, I, 0, INF)


def m_sscanf(eng, st, I, args):
    for i, a in enumerate(args[2:]):
        if isinstance(a, Ptr):
            eng.havoc(st, a.b, (eng.site(st, I), i))
    return eng.result(st, I, -1, len(args) - 2)


def writes(idx, nidx=None, n=None, lo=-INF, hi=INF):
    def f(eng, st, I, args):
        p = eng.as_ptr(args[idx])
        ln = to_num(args[nidx]) if nidx is not None else n
        eng.client_write(st, I, p, ln, 'call')
        if ln is None:
            eng.havoc(st, p.b, eng.site(st, I))
        else:
            eng.blob(st, p, ln, 'data', eng.fresh(st, ('wr', idx) + eng.site(st, I)))
        set_errno(eng, st, I)
        return eng.result(st, I, lo, hi)
    return f


def m_getaddrinfo(eng, st, I, args):
    p = eng.as_ptr(args[3])
    s2 = st.copy()
    b = eng.fresh(st, ('O', 'addrinfo') + eng.site(st, I))
    eng.store(st, p, 8, Ptr(b, 0))
    r = eng.result(s2, I)
    eng.assume(s2, 'ne', r, 0)
    set_errno(eng, s2, I)
    return [(0, st), (r, s2)]


def m_socket(eng, st, I, args):
    s2 = st.copy()
    set_errno(eng, s2, I)
    r = eng.fresh(st, ('fd',) + eng.site(st, I), 0, (1 << 31) - 1)
    return [(lin(r), st), (-1, s2)]


def m_recv(eng, st, I, args):
    """recv/recvfrom: up to n bytes or 0 or -1"""
    p, n = eng.as_ptr(args[1]), to_num(args[2])
    eng.client_write(st, I, p, n, 'recv')
    eng.blob(st, p, n, 'data', eng.fresh(st, ('rx',) + eng.site(st, I)))
    if len(args) > 4:
        for a in args[4:6]:
            if isinstance(a, Ptr):
                eng.havoc_field(st, a, 4 if a is args[5] else 16, eng.site(st, I)) if adesc(a.b)[0] != 'L' else eng.havoc(st, a.b, eng.site(st, I))
    s2 = st.copy()
    set_errno(eng, s2, I)
    r = eng.fresh(st, ('nrx',) + eng.site(st, I), 0, 0x7ffff000)
    eng.assume(st, 'sle', lin(r), n)
    return [(lin(r), st), (-1, s2)]


def m_send(eng, st, I, args):
    n = to_num(args[2])
    eng.client_read(st, I, eng.as_ptr(args[1]), n, 'send')
    s2 = st.copy()
    set_errno(eng, s2, I)
    r = eng.fresh(st, ('ntx',) + eng.site(st, I), 0, 0x7ffff000)
    eng.assume(st, 'sle', lin(r), n)
    return [(lin(r), st), (-1, s2)]


def m_str_ret(eng, st, I, args):
    """returns a possibly NULL pointer to foreign memory"""
    return eng.result(st, I)


def m_strchr(eng, st, I, args):
    """a character looked up in a known text: one outcome for each place it can be found at"""
    k = strkey(eng, st, eng.as_ptr(args[0])) if isinstance(eng.as_ptr(args[0]), Ptr) else None
    if not isinstance(k, bytes) or len(k) > 24 or args[1] is None:
        return eng.result(st, I)
    p, c, out = eng.as_ptr(args[0]), args[1], []
    for i, x in enumerate(k + b'\0'):
        if x in k[:i]:
            continue
        d = eng.decide(st, 'eq', c, x)
        if d is True:
            return out + [(Ptr(p.b, add(p.o, i)), st)]
        if d is None:
            s2 = st.copy()
            if eng.assume(s2, 'eq', c, x):
                out.append((Ptr(p.b, add(p.o, i)), s2))
            if not eng.assume(st, 'ne', c, x):
                return out
    return out + [(0, st)]


def m_nonnull(eng, st, I, args):
    r = eng.result(st, I)
    eng.assume(st, 'ne', r, 0)
    return r


def m_maybe_obj(eng, st, I, args):
    """returns NULL or a new foreign object"""
    s2 = st.copy()
    set_errno(eng, s2, I)
    b = eng.fresh(st, ('O', 'obj') + eng.site(st, I))
    return [(Ptr(b, 0), st), (0, s2)]


def m_exit(eng, st, I, args):
    eng.client.on_return(eng, st, I, ('exit', args[0] if args else None))
    return DEAD


def m_toupper(eng, st, I, args):
    return eng.result(st, I)


def m_errcode(eng, st, I, args):
    """pthread-style: 0 or a positive error number"""
    s2 = st.copy()
    r = eng.fresh(s2, ('ret',) + eng.site(s2, I), 1, 4095)
    return [(0, st), (lin(r), s2)]


def m_pthread0(eng, st, I, args):
    return 0


MODELS = {
    '__errno_location': m_errno,
    'malloc': m_alloc(False, lambda e, a: to_num(a[0])),
    'calloc': m_alloc(True, lambda e, a: e.mulv(to_num(a[0]), to_num(a[1]))),
    'free': none,
    'memset': m_memset, 'llvm.memset.p0.i64': m_memset,
    'llvm.memset.p0.i32': m_memset, 'memcpy': m_memcpy, 'memmove': m_memcpy, 'llvm.memcpy.p0.p0.i64': m_memcpy,
    'llvm.memmove.p0.p0.i64': m_memcpy,
    'strlen': m_strlen, 'strcmp': m_strcmp, 'strncmp': m_strcmp, 'strcasecmp': m_strcmp,
    'strncasecmp': m_strcmp, 'memcmp': m_memcmp, 'bcmp': m_memcmp,
    'strcpy': m_strcpy, 'strncpy': m_strncpy, 'strcat': m_strcat,
    'memchr': m_memchr, 'sprintf': m_sprintf, 'snprintf': m_snprintf, 'sscanf': m_sscanf, '__isoc99_sscanf': m_sscanf,
    'printf': pure(), 'fprintf': pure(), 'vfprintf': pure(), 'vprintf': pure(), 'puts': pure(),
    'fputs': pure(), 'fputc': pure(), 'putchar': pure(), 'fflush': pure(), 'putc': pure(),
    'syslog': none, 'vsyslog': none, 'openlog': none, 'closelog': none,
    'strerror': m_nonnull, 'gai_strerror': m_nonnull, 'getenv': m_str_ret, 'strrchr': m_str_ret,
    'strchr': m_strchr, 'time': sysret(), 'srand': none, 'rand': pure(0, (1 << 31) - 1),
    'localtime_r': writes(1, None, 56), 'strftime': writes(0, 1), 'localtime': m_maybe_obj,
    'htons': None, 'ntohs': None,
    'socket': m_socket, 'accept': m_socket, 'bind': sys01, 'listen': sys01, 'connect': sys01,
    'setsockopt': sys01, 'shutdown': sys01, 'close': sys01, 'getsockname': writes(1, None, 16),
    'getaddrinfo': m_getaddrinfo, 'freeaddrinfo': none,
    'getnameinfo': sysret(),
    'recv': m_recv, 'recvfrom': m_recv, 'send': m_send, 'sendto': m_send,
    'fopen': m_maybe_obj, 'fclose': sysret(), 'fgetc': sysret(-1, 255), 'getc': sysret(-1, 255),
    '_IO_getc': sysret(-1, 255), 'feof': pure(0, 1), 'ferror': pure(0, 1),
    'inet_ntop': m_maybe_obj, 'inet_ntoa': m_nonnull,
    'exit': m_exit, '_exit': m_exit, 'abort': m_exit,
    'toupper': m_toupper, 'tolower': m_toupper, 'isspace': m_toupper,
    'fork': sysret(-1, INF), 'setsid': sysret(-1, INF), 'chdir': sys01, 'umask': pure(0, INF),
    'signal': sysret(), 'sigaction': sys01, 'sigemptyset': sys01, 'sleep': pure(0, INF), 'usleep': sys01,
    'pthread_mutex_init': m_errcode, 'pthread_mutex_lock': m_errcode, 'pthread_mutex_unlock': m_errcode,
    'pthread_mutex_destroy': m_errcode, 'pthread_cond_init': m_errcode, 'pthread_cond_wait': m_errcode,
    'pthread_cond_signal': m_errcode, 'pthread_cond_broadcast': m_errcode,
    'pthread_cond_timedwait': m_errcode, 'pthread_cond_destroy': m_errcode,
    'pthread_create': m_errcode, 'pthread_join': m_errcode, 'pthread_attr_init': m_errcode,
    'pthread_attr_setstacksize': m_errcode, 'pthread_attr_destroy': m_errcode,
    'pthread_self': pure(), 'clock_gettime': writes(1, None, 16, -1, 0),
    'pcre2_compile_8': m_maybe_obj, 'pcre2_code_free_8': none, 'pcre2_match_8': pure(),
    'pcre2_match_data_create_from_pattern_8': m_maybe_obj, 'pcre2_match_data_create_8': m_maybe_obj,
    'pcre2_match_data_free_8': none, 'pcre2_get_error_message_8': pure(),
    'llvm.va_start': none, 'llvm.va_end': none, 'llvm.va_copy': none,
    'llvm.va_start.p0': none, 'llvm.va_end.p0': none, 'llvm.va_copy.p0': none,
}
MODELS = {k: v for k, v in MODELS.items() if v is not None}


# ------------------------------------------------------------ module interfaces
def api(name, lo=-INF, hi=INF):
    def f(eng, st, I, args):
        return eng.result(st, I, lo, hi)
    MODELS[name] = f


def api_status(name):
    """returns 0 on success and a negative error otherwise"""
    def f(eng, st, I, args):
        s2 = st.copy()
        r = eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)
        return [(0, st), (lin(r), s2)]
    MODELS[name] = f


def api_count(name, bufarg=None, narg=None, exact=False):
    """returns a byte count or a negative error"""
    def f(eng, st, I, args):
        if bufarg is not None:
            p, n = eng.as_ptr(args[bufarg]), to_num(args[narg])
            eng.client_write(st, I, p, n, name)
            eng.blob(st, p, n, 'data', eng.fresh(st, ('rx',) + eng.site(st, I)))
        s2 = st.copy()
        r = eng.fresh(st, ('cnt',) + eng.site(st, I), 0, (1 << 31) - 1)
        v = lin(r)
        if narg is not None:
            n = to_num(args[narg])
            if exact:
                v = n
            else:
                eng.assume(st, 'sle', v, n)
        e = eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)
        return [(v, st), (lin(e), s2)]
    MODELS[name] = f


for _n in ('conn_init conn_listen conn_accept conn_connect conn_set_timeout mutex_init condvar_init '
           'worker_init worker_start worker_join worker_wait_idle worker_wake thread_init thread_start '
           'thread_join regex_init regex_compile registration_service_init registration_service_start '
           'registration_service_stop log_init log_open log_select_medium conf_init conf_parse_file '
           'proxy_conn_init proxy_conn_start proxy_conn_stop proxy_conn_accept rand_init '
           'proxy_open proxy_start proxy_process proxy_load_conf proxy_init proxy_log_select_medium '
           'proxy_client_init proxy_client_connect condvar_wait condvar_wake_one condvar_wake_all').split():
    api_status(_n)
for _n in ('mutex_lock mutex_lock_shared mutex_unlock mutex_unlock_shared conn_close conn_drop conn_free '
           'conn_shutdown mutex_free condvar_free worker_free thread_free regex_free '
           'registration_service_free registration_service_update log_close log_free log_ident log_printf '
           'log_vprintf conf_free proxy_conn_drop proxy_conn_finish proxy_conn_free rand_free proxy_log '
           'proxy_close proxy_drop proxy_free proxy_ident proxy_log_level proxy_shutdown '
           'proxy_update_registration proxy_client_free proxy_client_disconnect').split():
    MODELS[_n] = none
api('conn_in_use', 0, 1)
api('proxy_conn_in_use', 0, 1)
api('worker_is_idle', 0, 1)
api('pearson_get', 0, 255)
api('hex32_to_digest')
MODELS['log_medium_to_str'] = m_nonnull
api_count('conn_recv', 1, 2, True)
api_count('conn_recv_any', 1, 2)
api_count('conn_send')
api_count('conn_send_to')
api_count('proxy_conn_process')


def split_status(eff):
    def f(eng, st, I, args):
        s2 = st.copy()
        eff(eng, st, I, args)
        e = eng.fresh(s2, ('err',) + eng.site(s2, I), -4095, -1)
        return [(0, st), (lin(e), s2)]
    return f


def _w(idx, n, kind):
    def eff(eng, st, I, args):
        p = eng.as_ptr(args[idx])
        eng.client_write(st, I, p, n, kind)
        eng.blob(st, p, n, 'data', eng.fresh(st, (kind,) + eng.site(st, I)))
    return eff


def _store_out(idx, size, kind):
    def eff(eng, st, I, args):
        p = eng.as_ptr(args[idx])
        eng.client_write(st, I, p, size, kind)
        eng.store(st, p, size, lin(eng.fresh(st, (kind,) + eng.site(st, I))))
    return eff


MODELS['get_nonce'] = split_status(_store_out(0, 4, 'nonce'))
MODELS['rand_get'] = split_status(_store_out(0, 4, 'rand'))
MODELS['get_password_response'] = split_status(_w(2, 16, 'resp'))


def m_out(eff):
    def f(eng, st, I, args):
        eff(eng, st, I, args)
        return 0
    return f


MODELS['digest_to_hex32'] = m_out(_w(1, 8, 'hex32'))
MODELS['digest_get'] = m_out(_w(2, 16, 'digest'))
MODELS['digest_to_str'] = m_out(_w(1, 32, 'digeststr'))
MODELS['conn_port_to_str'] = m_out(_w(1, 6, 'portstr'))
MODELS['conn_get_remote_addr'] = m_out(_w(1, 54, 'addrstr'))


def _conn_recv_any(eng, st, I, args):
    r = _cra(eng, st, I, args)
    for v, s in r:
        for k, sz in ((3, 4), (4, 2)):
            if isinstance(args[k], Ptr):
                eng.store(s, args[k], sz, lin(eng.fresh(s, ('peer', k) + eng.site(s, I), 0, (1 << (8 * sz)) - 1)))
    return r


_cra = MODELS['conn_recv_any']
MODELS['conn_recv_any'] = _conn_recv_any


def m_hton(bits):
    def f(eng, st, I, args):
        v = args[0]
        if isinstance(v, int):
            n = bits // 8
            return int.from_bytes((v & ((1 << bits) - 1)).to_bytes(n, 'little'), 'big')
        return lin(atom(('hton', bits, v), 0, (1 << bits) - 1))
    return f


MODELS['htons'] = MODELS['ntohs'] = m_hton(16)
MODELS['htonl'] = MODELS['ntohl'] = m_hton(32)


def m_proxy_authorize(eng, st, I, args):
    s2, s3 = st.copy(), st.copy()
    e = eng.fresh(s3, ('err',) + eng.site(s3, I), -4095, -1)
    return [(1, st), (0, s2), (lin(e), s3)]


MODELS['proxy_authorize_callsign'] = m_proxy_authorize
MODELS['regex_is_match'] = m_proxy_authorize


def m_realloc(eng, st, I, args):
    n = to_num(args[1])
    b = eng.fresh(st, ('H',) + eng.site(st, I))
    s2 = st.copy()
    set_errno(eng, s2, I)
    st.mem[b] = BM({}, (), atom(('raw', b)))
    eng.heapsize[b] = n
    return [(Ptr(b, 0), st), (0, s2)]


MODELS['realloc'] = m_realloc
MODELS['vsnprintf'] = m_snprintf
