"""Run the static checks: python3 -m sa.run ID [--tier quick|thorough]"""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                out.append(json.loads(l[7:]))
    return out


def run_check(pid, tier, seed, prog=None, write=True, quiet=False):
    write = write and not os.environ.get('SA_NOWRITE')
    from . import ir, common
    t0 = time.time()
    mod = importlib.import_module('sa.checks.' + pid.lower())
    prog = prog or ir.load_program()
    ctx = common.Ctx(prog, pid, tier, seed)
    try:
        mod.run(ctx)
    except ir.AnalysisError as e:
        # what was found before the analysis gave up is still a violation
        ctx.errors.append(str(e))
    kn = known()
    viol, found = [], []
    for v in ctx.viol.values():
        k = next((x for x in kn if x['property'] == pid and all(
            str(v.get(f)) == str(x[f]) for f in ('rule', 'file', 'function', 'message') if f in x)), None)
        (found if k else viol).append(v)
    nobl = sum(len(d) for d in ctx.obl.values())
    ok = sum(1 for d in ctx.obl.values() for x in d.values() if x)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip() + ' Decided from the LLVM IR of the current sources; nothing is executed.',
            'translation_units': prog.units,
            'entry_points_analysed': {k: v for k, v in sorted(ctx.analysed.items())},
            'abstract_states': sum(a['states'] for a in ctx.analysed.values()),
            'rule_instances': nobl, 'rule_instances_holding': ok,
            'rules': {r: {'instances': len(d), 'sample': [str(x) for x in list(d)[:6]]} for r, d in sorted(ctx.obl.items())},
            'known_findings': len(found),
            'unmodelled_externals': getattr(ctx, 'unmod', {}),
            'notes': ctx.notes,
        },
        'assumptions': ctx.assumptions or [
            'the POSIX build configuration is analysed; Windows-only sources are not',
            'libc, POSIX and PCRE2 behave as documented (sa/models.py)'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if write:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for v in found:
        print('KNOWN-FINDING: property=%s %s:%s %s: %s' % (pid, v['file'], v['line'], v['function'], v['message']))
    if viol:
        rep = os.path.join(HERE, 'evidence', pid + '.report.txt')
        lines = []
        for v in viol:
            lines.append('%s:%s: in %s [%s] %s\n    branch trace (latest first): %s\n    call stack: %s' % (
                v['file'], v['line'], v['function'], v['rule'], v['message'], v['path'],
                ' > '.join('%s%s' % (a, '@%s' % b if b else '') for a, b in v['stack'])))
        txt = '\n'.join(lines)
        if write:
            open(rep, 'w').write(txt + '\n')
        print(txt)
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if ctx.errors:
        for e in ctx.errors:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    if not quiet:
        print('OK property=%s %d rule instances over %d entry points, %d abstract states, %.1fs' % (
            pid, nobl, len(ctx.analysed), ev['coverage']['abstract_states'], ev['wall_s']))
    return 0


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import ir
    rc = 0
    prog = None
    try:
        prog = ir.load_program()
    except ir.AnalysisError as e:
        print('ANALYSIS-BROKEN %s' % e)
        return 2
    for pid in a:
        try:
            r = run_check(pid, tier, seed, prog)
        except ir.AnalysisError as e:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
