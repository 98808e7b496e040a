"""R03: every step that can fail is forked; a failure must reach the returned status on every path,
and an error that is reported must be that of the failed step or a fixed refusal code."""
from ..common import *
from .. import status as S

# steps whose failure does not prevent the effect of the operation that takes them:
# wake-ups of a waiter (nobody has to be waiting) and waiting itself (re-checked by the waiter)
ANYWHERE = {'condvar_wake_one', 'condvar_wake_all', 'condvar_wait', 'condvar_wait_time'}
ENTRY = {
    'thread_start': {'thread_join'},                      # joining a previous thread
    'registration_service_stop': {'worker_wake'},         # the worker may not be running
}
# proxy_conn.c: the TCP and UDP peers of a station are not the station; their failures are told to it
# (F03, F04) or logged, and must not end the session
PEER = {'conn_connect', 'conn_send_to', 'worker_wait_idle'}
SKIP = {'proxy_authorize_callsign'}                       # a decision, not a status: A02


class R03(S.Steps):
    def essential(self, eng, st, I, name, args):
        if name in ANYWHERE or name in ENTRY.get(st.frames[0].fn.name, ()):
            return False
        if I.fn.module == 'proxy_conn':
            if name in PEER:
                return False
            p = eng.as_ptr(args[0]) if args else None
            if name == 'conn_send':
                if p.o == eng.prog.off('proxy_conn_priv', 'conn_tcp'):
                    return False
                t = eng.load(st, eng.as_ptr(args[1]), ity(8))
                if t == 3:       # TCP_CLOSE: a notice
                    return False
            if name == 'worker_wake' and p.o == eng.prog.off('proxy_conn_priv', 'worker_tcp'):
                return False
        return True


def run(ctx):
    n = 0
    for f in S.errs(ctx.prog):
        if f.name in SKIP:
            continue
        ctx.run(R03(), f, limit=160)
        n += 1
    ctx.notes.append('%d status-returning operations analysed' % n)
    ctx.need('step', 40, 'failing steps')
