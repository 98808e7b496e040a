"""C03: guarded-by analysis: every access to a field shared between threads happens with the lock
that protects it held (same object), writes with it held exclusively; the table of fields and locks
is sa/common.py GUARDS, the operations that own the object alone are sa/locks.py PRIVATE and SETUP."""
from ..common import *
from .. import locks


def run(ctx):
    l = locks.get(ctx)
    l.report(ctx, 'C03')
    for n, w in l.walks.items():
        for e in w.events:
            if e[0] == 'access':
                ctx.obligation('%s.%s under %s.%s' % (e[2] + GUARD_OF[e[2]]), (n, e[1].fn.name, e[1].line, 'write' if e[3] else 'read'))
    for f in GUARD_OF:
        try:
            ctx.prog.off(*f)
            ctx.prog.off(*GUARD_OF[f])
        except Exception:
            ctx.errors.append('field %s.%s or its lock does not exist any more' % f)
    for f in (('conn_priv', 'fd'), ('proxy_priv', 'usable_clients'), ('worker_priv', 'state'),
              ('proxy_conn_priv', 'conn_client'), ('proxy_worker', 'conn_client'),
              ('registration_service_priv', 'status'), ('proxy_priv', 'idle_workers_head'),
              ('proxy_priv', 'idle_clients_head'), ('thread_priv', 'dirty')):
        ctx.need('%s.%s under %s.%s' % (f + GUARD_OF[f]), 2, 'accesses')
