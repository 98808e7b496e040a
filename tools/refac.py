#!/usr/bin/env python3
"""Larger behaviour-preserving rewrites (tools/refac/*.diff): every claimed check must stay quiet.
   python3 tools/refac.py [DIFF ...] [--only ID,ID]"""
import sys, os, json, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = None
args = sys.argv[1:]
if '--only' in args:
    i = args.index('--only')
    only = args[i + 1].split(',')
    del args[i:i + 2]
ids = only or [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
D = os.path.join(HERE, 'tools', 'refac')
for n in sorted(os.listdir(D)):
    if not n.endswith('.diff') or args and n[:-5] not in args:
        continue
    d = tempfile.mkdtemp(prefix='refacrepo')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', d])
        r = subprocess.run(['git', 'apply', os.path.join(D, n)], cwd=d)
        if r.returncode:
            print(n, 'DOES NOT APPLY')
            continue

        def one(i):
            r = subprocess.run([sys.executable, '-m', 'sa.run', i], cwd=HERE, env=dict(os.environ, SA_REPO=d, SA_NOWRITE='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return i, r.returncode, [x[:180] for x in r.stdout.decode(errors='replace').split('\n') if not x.startswith('    ') and 'KNOWN' not in x][:6]
        with cf.ThreadPoolExecutor(7) as ex:
            res = list(ex.map(one, ids))
        print(n, {0: 'quiet', 1: 'ALARM', 2: 'BROKEN'}[max(x[1] for x in res)], len(res), 'checks')
        for i, c, o in res:
            if c:
                print('  ', i, *o, sep='\n     ')
    finally:
        shutil.rmtree(d)
