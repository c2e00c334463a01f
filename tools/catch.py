"""Run the check of each planted bug's property against it: tools/catch.py [id ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SX_REPO', '/repo')
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
m = {c['property_id'] if 'property_id' in c else c.get('property'): c for c in json.load(open(V + '/MANIFEST.json')).get('checks', [])}
for i in ids:
    d = os.path.join(V, 'seeded', i)
    p = json.load(open(d + '/meta.json'))['property']
    r = subprocess.run(['git', '-C', R, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if r.returncode:
        print(i, p, 'DOES NOT APPLY', r.stderr[:200]); continue
    t = time.time()
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-B', 'run.py', p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '--', '.'])
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, p, 'caught' if r.returncode == 1 and v else 'MISSED', r.returncode, '%.0fs' % (time.time() - t), '' if v else r.stdout[-400:], flush=True)
