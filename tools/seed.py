"""seed.py DIR ID...   (development only; not used by any check)

DIR/ID/spec.py defines  property, needs, breaks, edits=[(file, old, new)], and DIR/ID/demo.sh (+ files).
Applies the edits in a scratch copy (/tmp/b, with its own target directory), builds, runs the stable tests, runs the
demo on both trees, and installs the bug under /verif/seeded/ID when everything is confirmed.
"""
import os, sys, json, subprocess, shutil
B = '/tmp/b'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def ensure():
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.exists(B):
        sh(f'cp -a /repo {B}')
    sh(f'cd {B} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    os.makedirs('/tmp/bvp', exist_ok=True)
    for f in ('env.sh', 'build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', B).replace('/opt/vp/env.sh', '/tmp/bvp/env.sh')
        open('/tmp/bvp/' + f, 'w').write(s)


def build():
    r = sh('bash /tmp/bvp/build.sh')
    return r.returncode == 0, r.stderr[-3000:]


def demo(d):
    t = '/tmp/seed_demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns('spec.py', '*.diff', 'meta.json'))
    r = sh(f'bash {t}/demo.sh', cwd=B, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main():
    base, ids = sys.argv[1], sys.argv[2:]
    ensure()
    ok, e = build()
    assert ok, e
    clean = {}
    for i in ids:
        clean[i] = demo(f'{base}/{i}')
        print('clean', i, clean[i][0], clean[i][1][-400:] if clean[i][0] else '')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        if clean[i][0]:
            continue
        sh(f'cd {B} && git checkout -q -- .')
        ns = {}
        exec(open(f'{base}/{i}/spec.py').read(), ns)
        bad = False
        for f, old, new in ns['edits']:
            p = None
            for c in ('crates/cryptovampire/src/', 'crates/', ''):
                if os.path.exists(f'{B}/{c}{f}'):
                    p = f'{B}/{c}{f}'
                    break
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'EDIT', s.count(old), old[:80])
                bad = True
                continue
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        ok, e = build()
        if not ok:
            print(i, 'BUILD FAILED', e)
            continue
        rc, out = demo(f'{base}/{i}')
        if rc == 0:
            print(i, 'DEMO DOES NOT FAIL', out)
            continue
        sh('bash /tmp/bvp/test.sh /tmp/bvp/out.json')
        o = json.load(open('/tmp/bvp/out.json'))
        passed = set(o.get('passed', []))
        if not stable <= passed:
            print(i, 'TESTS FAIL', sorted(stable - passed)[:5])
            continue
        d = f'/verif/seeded/{i}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(f'{base}/{i}', d, ignore=shutil.ignore_patterns('spec.py'))
        open(d + '/patch.diff', 'w').write(sh(f'git -C {B} diff').stdout)
        json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(i, 'OK', out[-200:].replace('\n', ' | '))
    sh(f'cd {B} && git checkout -q -- .')


main()
