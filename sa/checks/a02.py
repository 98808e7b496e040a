"""A02: forks every matcher outcome and compares the decision, the matcher's classification
and the compilation of each list with the access-list specification on every path."""
from ..common import *

LISTS = (('deny', 're_calls_denied', 'calls_denied'), ('allow', 're_calls_allowed', 'calls_allowed'))


class Decide(DClient):
    """proxy_authorize_callsign"""
    def which(self, eng, st, v):
        ph = st.frames[0].args[0]
        for n, f, _ in LISTS:
            if fld(eng, st, ph, 'proxy_handle.priv>proxy_priv.' + f) == v:
                return n
        return None

    def on_call(self, eng, st, I, name, args):
        if name != 'regex_is_match':
            return None
        w = self.which(eng, st, args[0])
        if w is None:
            self.bad(I, 'list-identity', 'the callsign is matched against an expression that is neither the deny nor the allow list', st)
            return None
        if null(eng, st, args[0]) is not False:
            self.bad(I, 'list-identity', 'the %s list is consulted although it may not be configured' % w, st)
        if args[1] != st.frames[0].args[1]:
            self.bad(I, 'subject', 'the text matched against the %s list is not the callsign given' % w, st)
        self.ok(I, 'subject')
        out = []
        for k in (1, 0, -1):
            s = st.copy()
            v = k if k >= 0 else lin(eng.fresh(s, ('err',) + eng.site(s, I), -4095, -1))
            s.cl = s.cl.set({w: k})
            out.append((v, s))
        return out

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        ph = st.frames[0].args[0]
        why = []
        for n, f, _ in LISTS:
            p = fld(eng, st, ph, 'proxy_handle.priv>proxy_priv.' + f)
            nl = null(eng, st, p)
            r = st.cl.get(n)
            want = 0 if n == 'deny' else 1
            if nl is True:
                why.append(True)
            elif r is None:
                why.append(None)
            else:
                why.append(r == want)
        lo, hi, ne = eng.rng(st, v)
        one = lo <= 1 <= hi and 1 not in ne
        only = lo == hi == 1
        inst = ('deny', why[0], 'allow', why[1])
        if one and why != [True, True]:
            n = 'deny' if why[0] is not True else 'allow'
            r = st.cl.get(n)
            self.bad(I, 'accept', 'a callsign is accepted although the %s list %s' % (
                n, 'was not consulted' if r is None else {1: 'matched', 0: 'did not match', -1: 'could not be evaluated'}[r]), st, inst)
        elif not only and why == [True, True]:
            self.bad(I, 'refuse', 'a callsign is refused although no configured list refuses it', st, inst)
        elif not one and False not in why:
            self.bad(I, 'refuse', 'a callsign is refused although no configured list was found to refuse it', st, inst)
        else:
            self.ok(I, 'decision', inst)


class Match(DClient):
    """regex_is_match"""
    def on_call(self, eng, st, I, name, args):
        if name == 'pcre2_match_8':
            a0 = st.frames[0].args
            re = fld(eng, st, a0[0], 'regex_handle.priv>regex_priv.re')
            if args[0] != re:
                self.bad(I, 'match-args', 'the expression matched is not the compiled one of this handle', st)
            if args[1] != a0[1]:
                self.bad(I, 'match-args', 'the text matched is not the subject given', st)
            full = args[2] == -1 or args[2] == MODELS['strlen'](eng, st, I, [a0[1]])
            if not full:
                self.bad(I, 'match-args', 'the subject length passed to the matcher is not that of the whole text', st)
            if args[3] != 0 or args[4] != 0:
                self.bad(I, 'match-args', 'the matcher is called with options or an offset', st)
            if null(eng, st, args[5]) is not False:
                self.bad(I, 'match-args', 'the matcher is called without match data', st)
            self.ok(I, 'match-args')
            out = []
            for k, lo, hi in ((1, 0, 1 << 16), (0, -1, -1), (-1, -1 << 16, -2)):
                s = st.copy()
                v = lo if lo == hi else lin(eng.fresh(s, ('m', k) + eng.site(s, I), lo, hi))
                s.cl = s.cl.set(m=k)
                out.append((v, s))
            return out

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        m = st.cl.get('m', -1)
        lo, hi, _ = eng.rng(st, v)
        good = lo == hi == m if m >= 0 else hi < 0
        what = {1: 'a match', 0: 'no match', -1: 'a matching error'}[m]
        if not good:
            self.bad(I, 'classify', '%s is reported as %r' % (what, v), st, what)
        else:
            self.ok(I, 'classify', what)


class Compile(DClient):
    """regex_compile"""
    def on_call(self, eng, st, I, name, args):
        if name == 'pcre2_compile_8':
            a0 = st.frames[0].args
            if args[0] != a0[1]:
                self.bad(I, 'compile-args', 'the pattern compiled is not the one given', st)
            elif not (args[1] == -1 or args[1] == MODELS['strlen'](eng, st, I, [a0[1]])):
                self.bad(I, 'compile-args', 'the pattern is not compiled in its whole length', st)
            elif args[2] != 0:
                self.bad(I, 'compile-args', 'the pattern is compiled with options', st)
            elif args[5] != 0:
                self.bad(I, 'compile-args', 'the pattern is compiled with a special context', st)
            else:
                self.ok(I, 'compile-args')
            r = MODELS[name](eng, st, I, args)
            for v, s in r:
                s.cl = s.cl.set(c=v)
            return r

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple):
            return
        n = isneg(eng, st, v)
        c = st.cl.get('c')
        good = c is not None and null(eng, st, c) is False
        if n is not True:
            re = fld(eng, st, st.frames[0].args[0], 'regex_handle.priv>regex_priv.re')
            if not good or re != c:
                self.bad(I, 'compiled', 'success is reported without the compiled pattern being kept in the handle', st)
                return
        elif good:
            self.bad(I, 'compiled', 'failure is reported although the pattern compiled', st)
            return
        self.ok(I, 'compiled', good)


class Open(DClient):
    """proxy_open: every configured list is compiled from its own setting before the listener opens"""
    def start(self, eng, st, fn):
        return D({n: None for n, _, _ in LISTS})

    def conf(self, eng, st, f):
        return fld(eng, st, st.frames[0].args[0], 'proxy_handle.conf.proxy_conf.' + f)

    def on_call(self, eng, st, I, name, args):
        if name == 'regex_compile':
            out = []
            for v, s in MODELS[name](eng, st, I, args):
                if v == 0 and isinstance(v, int):
                    s.cl = D({k: x for k, x in s.cl if not (isinstance(x, tuple) and x[0] == args[0])})
                    for n, f, c in LISTS:
                        if args[1] == self.conf(eng, s, c):
                            s.cl = s.cl.set({n: (args[0], args[1])})
                out.append((v, s))
            return out
        if name == 'conn_listen':
            self.judge(eng, st, I, 'the listener is opened')
        return None

    def on_write(self, eng, st, I, p, n, what):
        self.wr(eng, st, I, p)

    def on_store(self, eng, st, I, p, v, size):
        self.wr(eng, st, I, p)

    def wr(self, eng, st, I, p):
        for n, f, c in LISTS:
            if p.b == self.conf(eng, st, c).b:
                self.bad(I, 'verbatim', 'the configured %s expression is modified' % n, st)

    def judge(self, eng, st, I, what):
        ph = st.frames[0].args[0]
        for n, f, c in LISTS:
            src = self.conf(eng, st, c)
            h = fld(eng, st, ph, 'proxy_handle.priv>proxy_priv.' + f)
            configured = null(eng, st, src)
            have = null(eng, st, h)
            inst = (I.fn.name, n, configured)
            if configured is True:
                if have is not True:
                    self.bad(I, 'unconfigured', '%s with a %s expression left although none is configured' % (what, n), st, inst)
                    continue
            elif configured is None or have is not False or st.cl.get(n) != (h, src):
                self.bad(I, 'configured', '%s although the configured %s expression was not compiled into the handle the decision uses' % (what, n), st, inst)
                continue
            self.ok(I, 'configured', inst)

    def on_return(self, eng, st, I, v):
        if isinstance(v, tuple) or isneg(eng, st, v) is True:
            return
        self.judge(eng, st, I, 'opening succeeds')

    def atoms(self, eng, st, live):
        DClient.atoms(self, eng, st, live)
        for n, f, c in LISTS:
            vatoms(self.conf(eng, st, c), live)


def run(ctx):
    P = ctx.prog
    ctx.run(Decide(), P.fn('proxy_authorize_callsign'))
    ctx.run(Match(), P.fn('regex_is_match'))
    ctx.run(Compile(), P.fn('regex_compile'))
    ctx.run(Open(), P.fn('proxy_open'), limit=400)
    # nobody else replaces the expressions
    allowed = set()
    for n in ('proxy_open', 'proxy_free', 'proxy_close', 'proxy_init'):
        allowed |= {f.name for f in reach(P, P.fn(n))[0]}
    for f in P.allf:
        for b in f.blocks:
            geps = {i.id: i for i in b.insts if i.op == 'gep'}
            for i in b.insts:
                if i.op == 'store' and i.args[1][0] == 'v' and i.args[1][1] in geps:
                    pth = geps[i.args[1][1]].x[2]
                    if pth and pth[-1][0] == 'proxy_priv':
                        fl = P.structs['proxy_priv'].get(pth[-1][1], ('',))[0]
                        if fl in ('re_calls_allowed', 're_calls_denied'):
                            ok = f.name in allowed
                            ctx.obligation('who-sets', (f.name, i.line), ok)
                            if not ok:
                                ctx.violation(i, 'who-sets', 'an access expression is replaced outside opening and closing')
    if not ctx.viol:
        ctx.need('decision', 1, 'list outcomes')
        ctx.need('classify', 1, 'matcher outcomes')
        ctx.need('compiled', 1, 'compile outcomes')
        ctx.need('configured', 2, 'lists at open')
