"""Plants seeded bugs: python3 tools/mkseed.py SEEDFILE [id...]   (developer tool, not used by any check)
SEEDFILE defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)]; several edits: edits=[(file, old, new), ...]"""
import json, os, subprocess, sys
R = '/repo'
V = '/verif/seeded'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tests():
    sh('bash', '/opt/vp/test.sh', '/tmp/seed_t.json')
    d = json.load(open('/tmp/seed_t.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in stable if t not in d['passed']]


def clean():
    sh('git', '-C', R, 'checkout', '--', '.')


ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    print(s["id"], flush=True)
    d = os.path.join(V, s['id'])
    os.makedirs(d, exist_ok=True)
    assert sh('git', '-C', R, 'status', '--porcelain').stdout == b'', 'repo dirty'
    open(d + '/demo.py', 'w').write(s['demo'])
    if s.get('assimulo'):
        sh('cp', '-r', '/verif/oracle/stubs/assimulo', d + '/')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD:$here" exec "$PY" "$here/demo.py"
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash', d + '/demo.sh', cwd=R)
    ok0 = r.returncode == 0
    if not ok0:
        print(s['id'], 'DEMO FAILS ON CLEAN', r.stdout.decode()[-400:])
    clean()
    try:
        for f, a, b in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            p = os.path.join(R, f)
            t = open(p, newline='').read()
            if '\r\n' in t:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            assert t.count(a) == 1, (s['id'], f, t.count(a))
            open(p, 'w', newline='').write(t.replace(a, b))
        diff = sh('git', '-C', R, 'diff').stdout
        open(d + '/patch.diff', 'wb').write(diff)
        bad = tests()
        r1 = sh('bash', d + '/demo.sh', cwd=R)
        c = sh('python3', '/verif/check.py', s['property'], cwd='/verif')
        out = c.stdout.decode()
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        print(s['id'], s['property'], 'clean-demo', ok0, 'tests-broken', bad, 'demo-rc', r1.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode,
              (v[0].split()[-1] if v else out[-300:]))
        if '-v' in os.environ.get('SEEDV', ''):
            print(out)
            print(r1.stdout.decode()[-500:])
    finally:
        clean()
