"""Run one property's check: explore, replay, decide, write evidence."""
import sys
sys.dont_write_bytecode = True
import hashlib, importlib, json, os, random, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
PY = '/opt/venv/bin/python'


def build_accel(scratch, log):
    """Compile the accelerator from the repository's .pyx files."""
    d = os.path.join(scratch, 'accel')
    os.makedirs(d)
    src = os.path.join(REPO, 'accelerate')
    for n in ('setup.py', 'pyproject.toml', 'README.txt', 'MANIFEST.in'):
        if os.path.exists(os.path.join(src, n)):
            shutil.copy(os.path.join(src, n), d)
    shutil.copytree(os.path.join(src, 'src'), os.path.join(d, 'src'), ignore=shutil.ignore_patterns('*.so', '*.c'))
    shutil.copytree(os.path.join(src, 'vrml_accelerate'), os.path.join(d, 'vrml_accelerate'), ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    env = dict(os.environ, CFLAGS='-O1', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([PY, '-B', 'setup.py', '-q', 'build_ext', '--inplace', '-j', '3'], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode:
        raise RuntimeError('the accelerator does not build:\n' + p.stdout.decode(errors='replace')[-3000:])
    return d


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='sx_%s_' % prop)
        self.accel_dir = None
        self.log = []

    def env(self):
        e = dict(os.environ)
        e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', SX_REPO=REPO)
        e.pop('PYTHONPATH', None)
        return e

    def worker(self, job, timeout):
        path = os.path.join(self.scratch, 'job_%d.json' % len(os.listdir(self.scratch)))
        with open(path, 'w') as f:
            json.dump(job, f)
        p = subprocess.Popen([PY, '-B', '-m', 'sx.worker', path], cwd=VERIF, env=self.env(),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            o += b'\nTIMEOUT of worker'
        return o.decode(errors='replace'), p.returncode

    def concrete(self, variant, jobs):
        """[(harness, values)] -> outcomes on the unmodified code."""
        if not jobs:
            return []
        if variant == 'accel' and self.accel_dir is None:
            self.accel_dir = build_accel(self.scratch, self.log)
        out = os.path.join(self.scratch, 'conc_%s_%d.json' % (variant, len(os.listdir(self.scratch))))
        o, rc = self.worker(dict(mode='conc', property=self.prop, tier=self.tier, variant=variant, accel_dir=self.accel_dir,
                                 out=out, jobs=[dict(harness=h, values=v) for h, v in jobs]), 600)
        if not os.path.exists(out):
            raise RuntimeError('concrete worker failed: ' + o[-2000:])
        with open(out) as f:
            r = json.load(f)
        if isinstance(r, dict):
            return [dict(outcome='fail', label='the code under test does not load: ' + r['load_error'][-1500:], known=[]) for _ in jobs]
        return r

    def run(self, only=None, budget=None):
        sys.path.insert(0, VERIF)
        budget = budget or (600 if self.tier == 'quick' else 840)
        meta = json.loads(subprocess.run([PY, '-B', '-m', 'sx.list', self.prop, self.tier], cwd=VERIF, env=self.env(),
                                         stdout=subprocess.PIPE, check=True).stdout.decode().strip().splitlines()[-1])
        hs = {h['name']: h for h in meta['harnesses'] if not only or h['name'] in only}
        if not hs:
            print('no such harness')
            return 2
        variants = [v for v in ('pure', 'accel') if any(v in h['variants'] for h in hs.values())]
        deadline = self.t0 + budget - 40
        results, errors = [], []
        for n, v in enumerate(variants):
            out = os.path.join(self.scratch, 'sym_%s.jsonl' % v)
            names = [k for k, h in hs.items() if v in h['variants']]
            dl = deadline if n == len(variants) - 1 else time.time() + (deadline - time.time()) * .6
            o, rc = self.worker(dict(mode='sym', property=self.prop, tier=self.tier, variant=v, harnesses=names, out=out,
                                     scratch=self.scratch, deadline=dl, workers=8), max(60, deadline - time.time() + 120))
            got = []
            if os.path.exists(out):
                with open(out) as f:
                    got = [json.loads(x) for x in f if x.strip()]
            for g in got:
                if 'load_error' in g:
                    errors.append('%s: loading failed: %s' % (v, g['load_error']))
            got = [g for g in got if 'harness' in g]
            results += got
            missing = set(names) - set(g['harness'] for g in got)
            if missing:
                errors.append('%s: harnesses without result: %s; %s' % (v, sorted(missing), o[-1500:]))
        return self.decide(meta, hs, results, errors)

    # ---------------------------------------------------------------- verdict
    def decide(self, meta, hs, results, errors):
        known_file = os.path.join(VERIF, 'known_findings.jsonl')
        known = {}
        if os.path.exists(known_file):
            with open(known_file) as f:
                for line in f:
                    if line.strip():
                        k = json.loads(line)
                        if k['property'] == self.prop and k['status'] == 'known':
                            known[k['id']] = k
        rng = random.Random(self.seed)
        jobs, tot = [], dict(paths=0, queries=0, solver_s=0.0, branches=0, forks=0, checks=0, unsat_checks=0, trivial_checks=0, steps=0)
        functions, notes, inconclusive, covers = set(), [], [], {}
        per_h = []
        for g in results:
            h = hs[g['harness']]
            st = {}
            hq = dict(paths=0, queries=0, solver_s=0.0, checks=0)
            ok = []
            if g['killed'] and not g['killed'].startswith('stopped'):
                inconclusive.append('%s/%s: exploration cut: %s' % (g['harness'], g['variant'], g['killed']))
            for r in g['records']:
                st[r['status']] = st.get(r['status'], 0) + 1
                tot['paths'] += 1
                hq['paths'] += 1
                for k in tot:
                    if k in r['stats']:
                        tot[k] += r['stats'][k]
                for k in ('queries', 'solver_s', 'checks'):
                    hq[k] += r['stats'][k]
                functions.update(f for f in r['functions'] if f.startswith('vrml'))
                for c in r['covered']:
                    covers.setdefault((g['harness'], g['variant']), set()).add(c)
                for f in r['failures']:
                    if f.get('values') is not None:
                        jobs.append(dict(kind='unknown' if f.get('unknown') else 'cex', h=g['harness'], v=g['variant'], values=f['values'], label=f['label']))
                    elif f.get('unknown'):
                        inconclusive.append('%s: solver unknown on %s' % (g['harness'], f['label']))
                if r['status'] == 'ok' and not r['failures'] and r.get('values') is not None:
                    ok.append(r)
                elif r['status'] in ('unsupported', 'limit', 'error'):
                    if r['status'] == 'error':
                        kind = 'cex'
                    else:
                        kind = 'inc'
                    if r.get('values') is not None:
                        jobs.append(dict(kind=kind, h=g['harness'], v=g['variant'], values=r['values'], label='%s: %s' % (r['status'], r['detail'])))
                    else:
                        inconclusive.append('%s/%s: %s: %s' % (g['harness'], g['variant'], r['status'], r['detail']))
                if r.get('known') and r.get('values') is not None:
                    for k in r['known']:
                        jobs.append(dict(kind='known', kid=k, h=g['harness'], v=g['variant'], values=r['values'], label=k))
                notes += [n for n in r['notes'] if n not in notes][:3]
            n_val = h.get('validate', 12 if self.tier == 'quick' else 60)
            sample = ok if len(ok) <= n_val else rng.sample(ok, n_val)
            for r in sample:
                jobs.append(dict(kind='val', h=g['harness'], v=g['variant'], values=r['values'], label='path model'))
            hq.update(harness=g['harness'], variant=g['variant'], status=st, wall_s=round(g['wall'], 1), bounds=h.get('bounds', ''))
            hq['solver_s'] = round(hq['solver_s'], 2)
            per_h.append(hq)
            want = set(h.get('covers', []))
            miss = want - covers.get((g['harness'], g['variant']), set())
            if miss and not any(r['failures'] for r in g['records']):
                inconclusive.append('%s/%s: not reached: %s' % (g['harness'], g['variant'], sorted(miss)))
            if not ok and not any(r['failures'] or r.get('known') for r in g['records']) and not any(r['status'] == 'error' for r in g['records']):
                inconclusive.append('%s/%s: no completed path' % (g['harness'], g['variant']))
        # cap the work of replaying
        seen, capped = {}, []
        for j in jobs:
            key = (j['kind'], j['h'], j['v'], j.get('kid'))
            seen[key] = seen.get(key, 0) + 1
            if j['kind'] in ('val',) or seen[key] <= 12:
                capped.append(j)
        jobs = capped
        violations, known_hits, validated, samples = [], {}, 0, []
        for v in ('pure', 'accel'):
            js = [j for j in jobs if j['v'] == v]
            try:
                outs = self.concrete(v, [(j['h'], j['values']) for j in js])
            except Exception as e:
                errors.append('%s: %s' % (v, e))
                outs = []
            for j, o in zip(js, outs):
                j['out'] = o
                kn = [k for k in o.get('known', []) if k in known]
                if o['outcome'] == 'fail' and kn:
                    for k in kn:
                        known_hits[k] = o['label']
                    continue
                if o['outcome'] == 'fail' and j['kind'] == 'known' and False:
                    pass
                if o['outcome'] == 'fail':
                    violations.append(j)
                elif j['kind'] == 'cex':
                    inconclusive.append('%s/%s: counterexample to "%s" does not reproduce (%s): %s' % (j['h'], v, j['label'], o, json.dumps(j['values'])[:300]))
                elif j['kind'] in ('inc', 'unknown'):
                    inconclusive.append('%s/%s: %s: %s' % (j['h'], v, j['kind'], j['label']))
                elif o['outcome'] == 'invalid' and j['kind'] in ('val', 'known'):
                    notes.append('path model not replayable: %s %s' % (j['h'], o.get('label')))
                else:
                    validated += 1
                    if len(samples) < 6:
                        samples.append(dict(harness=j['h'], variant=v, values=j['values'], outcome=o['outcome']))
        ev_dir = os.path.join(VERIF, 'evidence')
        os.makedirs(ev_dir, exist_ok=True)
        wall = time.time() - self.t0
        lines = []
        for k in sorted(known_hits):
            lines.append('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]['what']))
        for n, j in enumerate(violations[:5]):
            rp = os.path.join(ev_dir, 'replay-%s-%d.json' % (self.prop, n))
            with open(rp, 'w') as f:
                json.dump(dict(property=self.prop, tier=self.tier, harness=j['h'], variant=j['v'], values=j['values'], outcome=j['out'], found=j['label'], kind=j['kind']), f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, rp))
            lines.append('  harness %s (%s): %s' % (j['h'], j['v'], j['out']['label'][:600]))
            lines.append('  input: %s' % json.dumps(j['values'])[:600])
        stale = [k for k in known if k not in known_hits]
        if stale:
            notes.append('listed findings not reproduced: %s' % stale)
        coverage = dict(
            states=max(1, tot['paths']), transitions=max(1, tot['branches']), traces_validated_against_impl=validated,
            samples=samples or [dict(note='no path completed')],
            explanation='states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = symbolic branch decisions; '
                        'traces_validated_against_impl = solver models of paths re-run on the unmodified code with the same outcome.',
            functions_encoded=sorted(functions), functions_encoded_count=len(functions),
            queries=tot['queries'], solver_time_s=round(tot['solver_s'], 2), assertions=tot['checks'],
            assertions_discharged_by_solver=tot['unsat_checks'], assertions_simplified_to_true=tot['trivial_checks'],
            forks=tot['forks'], function_entries=tot['steps'], harnesses=per_h, outside_bounds=meta.get('outside', []),
            reachability={'%s/%s' % k: sorted(v) for k, v in covers.items()},
            exhaustive=False, known_findings_reproduced=sorted(known_hits), inconclusive=inconclusive[:20], errors=errors[:5], notes=notes[:20])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=coverage,
                  assumptions=meta.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations))
        with open(os.path.join(ev_dir, '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for l in lines:
            print(l)
        print('%s %s: %d paths, %d queries (%.1f s solver), %d assertions, %d validated on real code, %d functions encoded, %.1f s' %
              (self.prop, self.tier, tot['paths'], tot['queries'], tot['solver_s'], tot['checks'], validated, len(functions), wall))
        for h in per_h:
            if os.environ.get('SX_VERBOSE'):
                print('   ', {k: v for k, v in h.items() if k != 'bounds'})
        if violations:
            return 1
        if inconclusive or errors:
            for x in (errors + inconclusive)[:12]:
                print('INCONCLUSIVE: ' + x[:1500])
            return 3
        print('OK property=%s held within the stated bounds' % self.prop)
        return 0


COMMON_ASSUMPTIONS = [
    'The property is decided only within the bounds listed per harness; larger inputs are outside.',
    'Floating point is modelled by exact real arithmetic (rounding, overflow, NaN and infinities are outside); numeric text up to 15 significant digits.',
    'numpy is replaced by a model on exact elements, simpleparse\'s C tag engine by a Python interpreter of the same tag tables, .pyx files by a regenerated Python translation; models of explored paths are re-run on the unmodified code with the real libraries.',
    'CPython 3.12 semantics; single thread.',
]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        c = Check(r['property'], r['tier'], a.seed)
        try:
            o = c.concrete(r['variant'], [(r['harness'], r['values'])])[0]
        finally:
            shutil.rmtree(c.scratch, ignore_errors=True)
        print(json.dumps(o, indent=1))
        return 1 if o['outcome'] == 'fail' else 0
    c = Check(a.property, a.tier, a.seed)
    try:
        return c.run(a.only, a.budget)
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
