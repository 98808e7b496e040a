#!/usr/bin/env python3
"""Generates and confirms the planted bugs: python3 tools/seed.py [id ...]
Every file tools/seeds/<id>.py defines prop, needs, breaks, edits = [(file, old, new)], demo (C text), and
optionally ldflags.  The result goes to seeded/<id>/ once it was confirmed: the change applies, builds, passes
the tests, and the demonstration passes without it and fails with it."""
import sys, os, json, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build(d):
    return sh('cd %s && rm -rf _build && (cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON '
              '-DBUILD_SHARED_LIBS=ON -DOPENELP_BUNDLE_PCRE=OFF -DOPENELP_USE_OPENSSL=OFF -DCMAKE_C_FLAGS=-Wno-error && ninja -C _build) >/dev/null 2>&1' % d, d)


def one(sid):
    ns = {}
    exec(open(os.path.join(HERE, 'tools/seeds', sid + '.py')).read(), ns)
    d = tempfile.mkdtemp(prefix='seedrepo')
    out = os.path.join(HERE, 'seeded', sid)
    try:
        sh('git clone -q /repo %s/r' % d, d)
        r = d + '/r'
        for f, old, new in ns['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, 'edit of %s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run('git diff', cwd=r, shell=True, stdout=subprocess.PIPE).stdout
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'wb').write(patch)
        open(out + '/demo.c', 'w').write(ns['demo'].lstrip('\n'))
        for f in ('h.h', 'demo.sh'):
            shutil.copy(os.path.join(HERE, 'tools/demo', f), out)
        os.chmod(out + '/demo.sh', 0o755)
        if ns.get('ldflags'):
            open(out + '/ldflags', 'w').write(ns['ldflags'] + '\n')
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        if build(r).returncode:
            return sid, 'does not build'
        # the lines removed must be original
        base = subprocess.run('git rev-list --max-parents=0 HEAD | tail -1', cwd=r, shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
        t = sh('ctest --test-dir _build --timeout 60 2>&1 | tail -25', r)
        if b'100% tests passed' not in t.stdout:
            return sid, 'tests fail with the change:\n' + t.stdout.decode()[-600:]
        x = sh('bash %s/demo.sh' % out, r, timeout=290)
        if x.returncode == 0:
            return sid, 'demo passes with the change\n' + x.stdout.decode(errors='replace')[-500:]
        for n in range(3):
            y = sh('bash %s/demo.sh' % out, '/repo', timeout=290)
            if y.returncode != 0:
                return sid, 'demo fails on the unchanged tree: ' + y.stdout.decode(errors='replace')[-800:]
        p = subprocess.run([sys.executable, '-m', 'sa.run', ns['prop']], cwd=HERE, env=dict(os.environ, SA_REPO=r, SA_NOWRITE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT) if ns['prop'] in claimed() else None
        return sid, 'confirmed (%s); check: %s' % (x.stdout.decode(errors='replace').strip().split('\n')[-1][:100], {1: 'CAUGHT', 0: 'MISSED', 2: 'BROKEN'}[p.returncode] if p else 'none yet')
    finally:
        shutil.rmtree(d)


def claimed():
    return {c.upper()[:-3] for c in os.listdir(os.path.join(HERE, 'sa/checks'))}


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'tools/seeds')))
    for i in ids:
        print('%s: %s' % one(i), flush=True)
