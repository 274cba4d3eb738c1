#!/usr/bin/env python3
"""newseed.py FILE...: each FILE is Python defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO.
Writes /verif/seeded/ID, after checking in a scratch copy of /repo that it builds, passes the stable tests and that the
demonstration tells the two apart."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd='/repo', **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID'])
    assert sh('git status --porcelain --untracked-files=no').stdout == '', 'dirty /repo'
    shutil.rmtree(d, True)
    os.makedirs(d)
    lib = os.path.join(V, 'tools', 'seedlib')
    for f in ('demo.sh', 'lib.py'):
        shutil.copy(os.path.join(lib, f), d)
    shutil.copytree(os.path.join(lib, 'shims'), os.path.join(d, 'shims'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(ns.get('HEAD', '').lstrip() + 'from lib import *\n\n' + ns['DEMO'].strip() + '\n')
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = True
    try:
        r = sh('bash %s/demo.sh' % d)
        if r.returncode:
            print(ns['ID'], 'DEMO FAILS ON CLEAN', r.stdout[-800:], r.stderr[-800:])
            ok = False
        for f, old, new in ns['EDITS']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff').stdout)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print(ns['ID'], 'BUILD FAILS', r.stdout[-1500:])
            ok = False
        else:
            r = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
            print(r.stdout.strip().split('\n')[-1])
            ok &= '30 passed, 5 failed' in r.stdout
            r = sh('bash %s/demo.sh' % d)
            print(ns['ID'], 'patched demo rc', r.returncode, r.stdout.strip()[-300:], r.stderr[-300:])
            ok &= r.returncode != 0
    finally:
        sh('git checkout -- .')
        sh('bash /opt/vp/build.sh')
    print(ns['ID'], 'OK' if ok else 'REJECTED')
    if not ok:
        r = '/tmp/rejected/' + ns['ID']; shutil.rmtree(r, True); os.makedirs('/tmp/rejected', exist_ok=True); shutil.move(d, r)
    shutil.rmtree(os.path.join(d, '__pycache__'), True)


for p in sys.argv[1:]:
    main(p)
