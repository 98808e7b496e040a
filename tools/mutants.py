#!/usr/bin/env python3
"""Regression of the checks: python3 tools/mutants.py [ID ...]
Applies each small change below to a scratch copy of /repo and runs the named check on it.  'bad' changes
must be reported (exit 1), 'same' changes keep the behaviour and every named check must stay quiet."""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BAD, SAME = [], []


def bad(ids, file, old, new, n=1):
    BAD.append((ids.split(), [(file, old, new, n)]))


def same(ids, file, old, new, n=1):
    SAME.append((ids.split(), [(file, old, new, n)]))


def load():
    d = os.path.join(HERE, 'tools', 'mut')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            exec(compile(open(os.path.join(d, f)).read(), f, 'exec'), {'bad': bad, 'same': same})


def one(job):
    kind, ids, edits, n = job
    d = tempfile.mkdtemp(prefix='mutrepo')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', d])
        for file, old, new, cnt in edits:
            p = os.path.join(d, file)
            s = open(p).read()
            if s.count(old) < 1:
                return kind, ids, edits, 'NOT-APPLICABLE', ''
            if cnt == 0:
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                if len(parts) <= cnt:
                    return kind, ids, edits, 'NOT-APPLICABLE', ''
                s = old.join(parts[:cnt]) + new + old.join(parts[cnt:])
            open(p, 'w').write(s)
        res, txt = [], ''
        for i in ids:
            r = subprocess.run([sys.executable, '-m', 'sa.run', i], cwd=HERE, env=dict(os.environ, SA_REPO=d, SA_NOWRITE='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res.append(r.returncode)
            o = r.stdout.decode(errors='replace').split('\n')
            txt += '\n'.join(x[:220] for x in o if not x.startswith('    '))[:700]
        if kind == 'bad':
            v = 'caught' if 1 in res else ('BROKEN' if 2 in res else 'MISSED')
        else:
            v = 'quiet' if not any(res) else ('ALARM' if 1 in res else 'BROKEN')
        return kind, ids, edits, v, txt
    finally:
        shutil.rmtree(d)


def main():
    load()
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    jobs = []
    for k, l in (('bad', BAD), ('same', SAME)):
        for n, (ids, e) in enumerate(l):
            sel = [i for i in ids if not want or i in want]
            if sel:
                jobs.append((k, sel, e, n))
    tot = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for k, ids, e, v, txt in ex.map(one, jobs):
            tot[v] = tot.get(v, 0) + 1
            if v not in ('caught', 'quiet') or verbose:
                print('%s %s %s\n   - %r\n   + %r\n%s' % (v, k, ids, e[0][1][:120], e[0][2][:120], txt))
    print(tot)


if __name__ == '__main__':
    main()
