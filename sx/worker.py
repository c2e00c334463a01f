"""Subprocess bodies: symbolic exploration, and concrete runs on the real code."""
import sys
sys.dont_write_bytecode = True
import importlib, json, os, time, traceback

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_harnesses(prop, tier):
    mod = importlib.import_module('props.' + prop.lower())
    for m in getattr(mod, 'PRELOAD', ['vrml.vrml97.basenodes']):
        importlib.import_module(m)
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod, {h['name']: h for h in mod.harnesses(tier)}


def sym_main(job):
    from . import core, env as envmod, instrument, tagengine
    variant, tier = job['variant'], job['tier']
    instrument.install(REPO, accel=(variant == 'accel'))
    out = open(job['out'], 'a')
    try:
        import vrml                                  # noqa: F401
        if job.get('parser', True):
            tagengine.install()
        mod, hs = load_harnesses(job['property'], tier)
    except BaseException:
        out.write(json.dumps(dict(load_error=traceback.format_exc())) + '\n')
        out.close()
        return
    names = job['harnesses']
    end = job['deadline']
    for i, name in enumerate(names):
        h = hs[name]
        if variant not in h.get('variants', ['pure']):
            continue
        left = end - time.time()
        deadline = time.time() + min(h.get('budget', 1e9), max(5, left))
        t0 = time.time()
        e = envmod.SymEnv(variant, tier)
        bad = [0]

        def stop_on(rec):
            if rec['failures']:
                bad[0] += 1
            return bad[0] >= h.get('max_failures', 4)
        recs, killed = core.explore(lambda: h['fn'](e), job['scratch'], deadline, workers=job['workers'],
                                    rlimit=h.get('rlimit', 20000000), stop_on=stop_on)
        out.write(json.dumps(dict(harness=name, variant=variant, records=recs, killed=killed, wall=time.time() - t0)) + '\n')
        out.flush()
    out.close()


def conc_one(h, variant, tier, values):
    from . import core, env as envmod
    e = envmod.ConcEnv(variant, tier, values)
    try:
        h['fn'](e)
        res = dict(outcome='pass')
    except core.PropertyFailure as x:
        res = dict(outcome='fail', label=str(x))
    except core.ReplayInvalid as x:
        res = dict(outcome='invalid', label=str(x))
    except core.SxStop:
        res = dict(outcome='pass')
    except core.SxControl as x:
        res = dict(outcome='invalid', label=repr(x))
    except RecursionError as x:
        res = dict(outcome='fail', label='RecursionError')
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        res = dict(outcome='fail', label='unhandled %s: %s @ %s' % (type(x).__name__, x, ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:]))))
    res['known'] = e.knowns
    return res


def conc_main(job):
    sys.path.insert(0, REPO)
    if job['variant'] == 'accel':
        sys.path.insert(0, job['accel_dir'])
    else:
        class Hide(object):
            def find_spec(self, name, path=None, target=None):
                if name.split('.')[0] == 'vrml_accelerate':
                    raise ModuleNotFoundError(name)
        sys.meta_path.insert(0, Hide())
    sys.path.insert(0, VERIF)
    import io, select
    quiet = io.StringIO()
    results = [None] * len(job['jobs'])
    real_out = sys.stdout
    import logging
    logging.disable(logging.CRITICAL)
    sys.stdout = quiet
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    try:
        mod, hs = load_harnesses(job['property'], job['tier'])
    except BaseException:
        with open(job['out'], 'w') as f:
            json.dump(dict(load_error=traceback.format_exc()), f)
        return
    pend = list(range(len(results)))
    running = {}
    while pend or running:
        while pend and len(running) < 8:
            i = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                import resource
                resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                os.close(r)
                j = job['jobs'][i]
                res = conc_one(hs[j['harness']], job['variant'], job['tier'], j['values'])
                data = json.dumps(res).encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                os._exit(0)
            os.close(w)
            running[r] = (i, pid, [])
        rs, _, _ = select.select(list(running), [], [], 1)
        for r in rs:
            d = os.read(r, 65536)
            i, pid, buf = running[r]
            if d:
                buf.append(d)
                continue
            os.close(r)
            _, st = os.waitpid(pid, 0)
            data = b''.join(buf)
            if data:
                results[i] = json.loads(data)
            else:
                results[i] = dict(outcome='fail', label='process died (status %d): crash or endless loop' % st, known=[])
            del running[r]
    with open(job['out'], 'w') as f:
        json.dump(results, f)


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        job = json.load(f)
    if job['mode'] == 'sym':
        sys.path.insert(0, VERIF)
        sym_main(job)
    else:
        conc_main(job)
