"""Plant bugs: tools/plant.py SPEC.py [id ...]

SPEC.py defines BUGS, a list of dicts with id, property, edits [(file, old, new)],
needs, breaks and demo (Python text run in the repository).  Each is confirmed
in a scratch copy (the demonstration passes without it and fails with it, the
tests pass with it) and written to seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant'
DEMO = '#!/bin/sh\n# run in the repository; exit 0 when the property holds\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$here/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    for f in ('env.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/repo', W + '/repo').replace('/opt/vp/env.sh', W + '/env.sh')
        open(W + '/' + f, 'w').write(t)
    p = W + '/test.sh'
    sh('bash', p, W + '/out.json')
    d = json.load(open(W + '/out.json'))
    return d


bugs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
if os.path.exists(W):
    shutil.rmtree(W)
os.makedirs(W)
subprocess.check_call(['cp', '-a', os.environ.get('SX_REPO', '/repo'), W + '/repo'])
R = W + '/repo'
for b in bugs:
    if only and b['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', b['id'])
    tmp = W + '/demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(tmp + '/demo.sh', 'w').write(DEMO)
    sh('git', '-C', R, 'checkout', '--', '.')
    r0 = sh('sh', tmp + '/demo.sh', cwd=R)
    ok = True
    for f, old, new in b['edits']:
        s = open(os.path.join(R, f)).read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT matches %d times: %r' % (s.count(old), old[:60]))
            ok = False
            break
        open(os.path.join(R, f), 'w').write(s.replace(old, new))
    if not ok:
        continue
    r1 = sh('sh', tmp + '/demo.sh', cwd=R)
    t = tests()
    diff = sh('git', '-C', R, 'diff').stdout
    own = []
    for f, old, new in b['edits']:
        base = set(sh('git', '-C', R, 'show', 'f15d50a:' + f).stdout.splitlines())
        kept = set(new.splitlines())
        own += [l for l in old.splitlines() if l.strip() and l not in base and l not in kept]
    if own:
        print(b['id'], 'NOT ORIGINAL', own)
    good = r0.returncode == 0 and r1.returncode != 0 and not t['failed'] and len(t['passed']) >= 45
    print(b['id'], 'OK' if good else 'BAD', r0.returncode, r1.returncode, len(t['passed']), t['failed'][:2], '' if r0.returncode == 0 else r0.stdout[-300:], '' if r1.returncode else 'demo passes')
    if good:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(W)
