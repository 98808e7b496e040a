#!/usr/bin/env python3
"""Systematic mutation of the sources: python3 tools/campaign.py OUT.jsonl [--files a.c,b.c] [--sample N] [--seed N] [--ops a,b]
Every mutant that compiles to different code is given to the checks, cheapest and nearest first, until one reports it.
What survives all of them is built and tested; survivors of both are written out to be judged by hand."""
import sys, os, re, json, random, shutil, subprocess, tempfile, threading, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'conf.c': 'G01 R02 R04 R05 R03 G02 R01',
    'conn.c': 'C07 F06 C01 C02 C03 R03 C04 D02 R01 R02 R04 R05 F03 F02 S02',
    'digest.c': 'K02 K03 R05 A04',
    'md5.c': 'K01 K03',
    'pearson.c': 'K02',
    'log.c': 'L01 R01 R02 R04 R05 R03 D03',
    'mutex_posix.c': 'C05 R03 R01 C06 R02 R04',
    'worker.c': 'C06 C01 C03 C04 R03 R01 D03 R02 R04',
    'thread_posix.c': 'R03 R01 R02 R04 C06',
    'registration.c': 'N01 C01 C03 C04 C02 R03 R04 R02 R05 R01 S05 D03',
    'regex.c': 'A02 R03 R02 R01 R04 R05',
    'rand.c': 'R03 A01 R02 R01',
    'proxy_client.c': 'R03 R01 R02 R04 C07 R05',
    'proxy_conn.c': 'F01 F02 F03 F04 F05 F06 S01 S02 S03 C01 C02 C03 C04 C06 C07 R03 D03 A01 R01 R02 R04 R05 D02 S04 S05 G02',
    'proxy.c': 'A03 A04 S01 S02 S03 S04 S05 C01 C02 C03 C04 D02 D03 R03 A01 A02 G02 N01 F05 D01 R01 R02 R04 R05',
    'proxyd.c': 'D02 D01 R03 C02 R02 R04 R05',
}


def claimed():
    return [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]


def functions(text):
    """line ranges of function bodies"""
    out, start = [], None
    for i, l in enumerate(text):
        if l.startswith('{') and start is None:
            start = i + 1
        elif l.startswith('}') and start is not None:
            out.append((start, i))
            start = None
    return out


REL = [(' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
       (' + ', ' - '), (' - ', ' + ')]


def mutants(text):
    for a, b in functions(text):
        i = a
        stmts = []                        # (first, last) of whole simple statements
        while i < b:
            l = text[i]
            s = l.strip()
            if not s or s.startswith(('#', '/*', '*', '//')) or s.endswith(':'):
                i += 1
                continue
            j = i
            if not s.startswith(('if', 'for', 'while', 'switch', 'do', 'case', 'default', '}', '{', 'else')):
                while j < b and not text[j].rstrip().endswith((';', '{', '}')):
                    j += 1
                if text[j].rstrip().endswith(';'):
                    stmts.append((i, j))
                i2 = j + 1
            else:
                while j < b and s.startswith(('if', 'for', 'while')) and text[j].count('(') and \
                        sum(x.count('(') - x.count(')') for x in text[i:j + 1]) > 0:
                    j += 1
                i2 = j + 1
            whole = '\n'.join(text[i:j + 1])
            if not re.match(r'\s*(proxy_log|log_printf|printf|fprintf)\(', whole):
                for old, new in REL:
                    k = whole.find(old)
                    while k >= 0:
                        yield i, j, whole[:k] + new + whole[k + len(old):], 'rel'
                        k = whole.find(old, k + 1)
                for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', whole):
                    n = int(m.group(1))
                    yield i, j, whole[:m.start()] + str(n + 1) + whole[m.end():], 'const'
                    if n > 0:
                        yield i, j, whole[:m.start()] + str(n - 1) + whole[m.end():], 'const'
                m = re.match(r'(\s*(?:\} else )?(?:if|while) )\((.*)\)( \{)?$', whole, re.S)
                if m:
                    yield i, j, m.group(1) + '(!(' + m.group(2) + '))' + (m.group(3) or ''), 'neg'
                for m in re.finditer(r'(?<=[=, (])-(E[A-Z]+)', whole):
                    yield i, j, whole[:m.start()] + '0' + whole[m.end():], 'err'
                m = re.match(r'(\s*)return ret;$', whole)
                if m:
                    yield i, j, m.group(1) + 'return 0;', 'ret'
                if 'break;' == s:
                    yield i, j, whole.replace('break', 'continue'), 'brk'
                if s.startswith('goto '):
                    for t in set(re.findall(r'^(\w+):', '\n'.join(text[a:b]), re.M)):
                        if t not in s:
                            yield i, j, re.sub(r'goto \w+', 'goto ' + t, whole), 'goto'
            i = i2
        decl = re.compile(r'\s*(static |const |struct |enum |union |int |char |uint|size_t|FILE|void \*|unsigned|pthread|ssize|pid_t|PCRE|pcre|MD5)')
        for x, y in stmts:
            w = '\n'.join(text[x:y + 1])
            if decl.match(w) or re.match(r'\s*(proxy_log|log_printf|printf|fprintf)\(', w):
                continue
            yield x, y, re.match(r'\s*', text[x]).group(0) + ';', 'del'
        for (x, y), (u, v) in zip(stmts, stmts[1:]):
            w, z = '\n'.join(text[x:y + 1]), '\n'.join(text[u:v + 1])
            if decl.match(w) or decl.match(z) or 'proxy_log(' in w + z or 'log_printf(' in w + z or 'return' in w + z or 'goto' in w + z or 'break' in w + z:
                continue
            if all(not text[k].strip() for k in range(y + 1, u)) and re.match(r'\s*', w).group(0) == re.match(r'\s*', z).group(0):
                yield x, v, z + '\n' + w, 'swap'


DEFS = ('-DOPENELP_MAJOR_VERSION=0 -DOPENELP_MINOR_VERSION=9 -DOPENELP_PATCH_VERSION=4 -DOPENELP_VERSION=0.9.4-dev -DOPENELP_EXTRA_VERSION=dev '
        '-DOPENELP_CONFIG_HINT=../etc/ELProxy.conf -DPCRE2_CODE_UNIT_WIDTH=8 -DHAVE_SYSLOG=1 -DOPENELP_API= -Iinclude').split()


def ll(d, f):
    r = subprocess.run(['clang', '-w', '-O1', '-std=gnu99', '-S', '-emit-llvm', '-o', '-', 'src/' + f] + DEFS, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.stdout if r.returncode == 0 else None


LOCK = threading.Lock()


def one(job):
    f, i, j, new, op, base = job
    d = tempfile.mkdtemp(prefix='camp')
    try:
        subprocess.check_call('cp -a /repo/. %s && rm -rf %s/_build %s/.git' % (d, d, d), shell=True)
        p = os.path.join(d, 'src', f)
        t = open(p).read().split('\n')
        old = '\n'.join(t[i:j + 1])
        t[i:j + 1] = new.split('\n')
        open(p, 'w').write('\n'.join(t))
        x = ll(d, f)
        rec = {'file': f, 'line': i + 1, 'op': op, 'old': old.strip(), 'new': new.strip()}
        if x is None or x == base:
            return None
        near = ORDER[f].split()
        rest = [c for c in claimed() if c not in near and not c.startswith('K')] if f.startswith('proxy.') else []
        for c in near + rest:
            try:
                r = subprocess.run([sys.executable, '-m', 'sa.run', c], cwd=HERE, env=dict(os.environ, SA_REPO=d, SA_NOWRITE='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = 3
            if code == 1:
                rec['caught'] = c
                return rec
            if code > 1:
                rec.setdefault('noanswer', []).append(c)
        with LOCK:
            b = subprocess.run('(cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_SHARED_LIBS=ON '
                               '-DOPENELP_BUNDLE_PCRE=OFF -DOPENELP_USE_OPENSSL=OFF -DCMAKE_C_FLAGS=-Wno-error && ninja -C _build) >/dev/null 2>&1 && '
                               'ctest --test-dir _build --timeout 20 >/dev/null 2>&1', shell=True, cwd=d)
        rec['tests'] = b.returncode == 0
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    files = opt['--files'].split(',') if '--files' in opt else list(ORDER)
    jobs = []
    for f in files:
        t = open('/repo/src/' + f).read().split('\n')
        base = ll('/repo', f)
        for i, j, new, op in mutants(t):
            if '--ops' not in opt or op in opt['--ops'].split(','):
                jobs.append((f, i, j, new, op, base))
    random.Random(int(opt.get('--seed', 1))).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    if '--sample' in opt:
        jobs = jobs[:int(opt['--sample'])]
    n = {}
    with open(out, 'a') as o, cf.ThreadPoolExecutor(int(opt.get('--jobs', 8))) as ex:
        for r in ex.map(one, jobs):
            if r:
                o.write(json.dumps(r) + '\n')
                o.flush()
                k = 'caught' if 'caught' in r else 'survived' if r['tests'] else 'tests'
                n[k] = n.get(k, 0) + 1
    print(n)


main()
