"""Path-exploring symbolic executor: context, forking, checks.

One process executes one path.  When a symbolic condition is used as a
Python truth value and the solver says that both outcomes are possible, the
process forks: the child takes the False side, the parent the True side.
Every process therefore owns a complete copy of the heap of the code under
test, so mutable state of one path never leaks into another.

Completed paths append one JSON line to a results file.  The driver knows that
the exploration is complete when the write end of the "alive" pipe has been
closed by every process.
"""
import os, sys, json, time, errno, traceback
from fractions import Fraction
import z3


NL_TIMEOUT = 5000          # milliseconds for the first strategy of a nonlinear query


class SxControl(BaseException):
    """Control flow of the executor: never to be caught by code under test."""


class SxUnsupported(SxControl):
    """The executor cannot model an operation: the path is inconclusive."""


class SxInfeasible(SxControl):
    """An assumption contradicts the path condition: drop the path."""


class SxLimit(SxControl):
    """Deadline or bound of the exploration reached."""


class SxStop(SxControl):
    """The harness ends this path here."""


class PropertyFailure(Exception):
    """Concrete mode: a check failed on the real code."""


class ReplayInvalid(BaseException):
    """Concrete mode: the values do not satisfy an assumption."""


class Ctx:
    """State of the current path."""

    def __init__(self, results, deadline, tokens=None, rlimit=20000000, max_paths=None):
        self.results = results          # file descriptor, O_APPEND
        self.deadline = deadline
        self.tokens = tokens            # (read fd, write fd) or None
        self.owns_token = True
        self.rlimit = rlimit
        self.solver = z3.SolverFor('QF_AUFNIRA') if False else z3.Solver()
        self.solver.set('rlimit', rlimit)
        self.inputs = {}                # name -> dict(kind, ...)
        self.decided = {}               # ast id -> (ast, bool)
        self.pc = []
        self.fresh_n = 0
        self.starts = None              # file counting the paths begun
        self.aborted = None             # control exception that was raised
        self.vars = {}
        self.trig = {}
        self.mods = {}
        self.notes = []
        self.known = []
        self.nl = False                 # nonlinear: queries are sliced
        self.names = {}                 # ast id -> variable names
        self.indexed = 0
        self.parent = {}                # union-find over variable names
        self.groups = {}                # root name -> constraints
        self.reset_counters()

    def reset_counters(self):
        self.stats = dict(queries=0, solver_s=0.0, branches=0, forks=0,
                          checks=0, unsat_checks=0, trivial_checks=0, steps=0)
        self.covered = []
        self.failures = []
        self.functions = set()

    # -- independent parts of the path condition ---------------------------
    def scan(self, e):
        """(e, names of its variables, whether it is linear)"""
        got = self.names.get(e.get_id())
        if got is None:
            out, seen, todo, linear = set(), set(), [e], True
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                k = x.decl().kind()
                if x.num_args() == 0:
                    if k == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    continue
                kids = x.children()
                if k == z3.Z3_OP_MUL:
                    linear = linear and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in kids) < 2
                elif k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                    linear = linear and (z3.is_rational_value(kids[1]) or z3.is_int_value(kids[1])) and k != z3.Z3_OP_POWER
                todo.extend(kids)
            got = self.names[e.get_id()] = (e, frozenset(out), linear)
        return got

    def free(self, e):
        return self.scan(e)[1]

    def linear(self, e):
        return self.scan(e)[2]

    def root(self, n):
        p = self.parent
        while n in p:
            n = p[n]
        return n

    def index(self):
        while self.indexed < len(self.pc):
            e = self.pc[self.indexed]
            self.indexed += 1
            ns = self.free(e)
            if not ns:
                continue
            rs = sorted({self.root(n) for n in ns})
            keep = max(rs, key=lambda r: len(self.groups.get(r, ())))
            for r in rs:
                if r != keep:
                    self.parent[r] = keep
                    self.groups.setdefault(keep, []).extend(self.groups.pop(r, ()))
            self.groups.setdefault(keep, []).append(e)

    def slice(self, extra):
        """The constraints that share variables, however far, with extra:
        with the rest satisfiable, they alone decide it."""
        self.index()
        roots = set()
        for e in extra:
            roots |= {self.root(n) for n in self.free(e)}
        return [c for r in sorted(roots) for c in self.groups.get(r, ())], roots

    def solve(self, cons):
        """One nonlinear query, from scratch."""
        t0 = time.time()
        res, model = z3.unknown, None
        for make, share in ((lambda: z3.SolverFor('QF_NRA'), .1), (z3.Solver, .2), (lambda: z3.Then('simplify', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'qfnra-nlsat').solver(), .2),
                            (z3.Solver, 2), (lambda: z3.SolverFor('QF_NRA'), 4)):
            try:
                s = make()
                s.set('timeout', int(NL_TIMEOUT * share))
                for c in cons:
                    s.add(c)
                r = s.check()
                self.stats['queries'] += 1
                if r != z3.unknown:
                    res = r
                    model = s.model() if r == z3.sat else None
                    break
            except z3.Z3Exception:
                continue
        self.stats['solver_s'] += time.time() - t0
        if time.time() - t0 > float(os.environ.get("SX_SLOW_T", ".3")) and os.environ.get('SX_SLOW'):
            with open(os.environ['SX_SLOW'], 'a') as f:
                f.write('%.1f s %s %s\n%s\n\n' % (time.time() - t0, share, res, '\n'.join(str(c)[:300] for c in cons)))
        return res, model

    def nlsat(self, extra, want_model=False):
        cons, roots = self.slice(extra)
        r, m = z3.unknown, None
        if all(self.linear(e) for e in extra):
            # the linear constraints, incrementally: enough when they alone
            # refute it, or when nothing else has a part in it
            t0 = time.time()
            s = self.solver
            s.push()
            s.add(*extra)
            r = s.check()
            if r == z3.sat and not all(self.linear(c) for c in cons):
                r = z3.unknown
            m = s.model() if want_model and r == z3.sat else None
            s.pop()
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t0
        if r == z3.unknown:
            r, m = self.solve(cons + list(extra))
        if want_model:
            return r, (Models(self, m, roots) if r == z3.sat else None)
        return r

    # -- solver -----------------------------------------------------------
    def sat(self, *extra, want_model=False):
        if self.nl and (extra or want_model):
            return self.nlsat(extra, want_model)
        t0 = time.time()
        s = self.solver
        s.push()
        try:
            for e in extra:
                s.add(e)
            r = s.check()
            m = s.model() if (want_model and r == z3.sat) else None
        finally:
            s.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return (r, m) if want_model else r

    def add(self, cond):
        self.pc.append(cond)
        if not self.nl or self.linear(cond):
            self.solver.add(cond)

    def fresh(self, sort, hint='v'):
        self.fresh_n += 1
        name = '%s!%d' % (hint, self.fresh_n)
        if sort == 'int':
            return z3.Int(name)
        if sort == 'real':
            return z3.Real(name)
        return z3.Bool(name)

    # -- branching ----------------------------------------------------------
    def abort(self, exc):
        self.aborted = exc
        raise exc

    def branch(self, cond):
        if self.aborted is not None:
            raise self.aborted
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        hit = self.decided.get(key)
        if hit is not None:
            return hit[1]
        if time.time() > self.deadline:
            self.abort(SxLimit('deadline'))
        self.stats['branches'] += 1
        neg = z3.Not(cond)
        t = self.sat(cond)
        if t == z3.unsat:
            val = False
        else:
            f = self.sat(neg)
            if f == z3.unsat:
                val = True
            else:
                if t == z3.unknown or f == z3.unknown:
                    self.notes.append('unknown feasibility, both sides explored')
                val = self.fork()
        self.decided[key] = (cond, val)
        self.decided[neg.get_id()] = (neg, not val)
        self.add(cond if val else neg)
        return val

    def fork(self):
        self.stats['forks'] += 1
        got = False
        if self.tokens is not None:
            try:
                got = bool(os.read(self.tokens[0], 1))
            except BlockingIOError:
                got = False
        try:
            pid = os.fork()
        except OSError as e:
            self.abort(SxLimit('fork: %s' % e))
        if pid == 0:
            if self.starts is not None:
                os.write(self.starts, b's')
            self.reset_counters()
            self.notes = []
            self.owns_token = got
            return False
        if not got:
            while True:
                try:
                    os.waitpid(pid, 0)
                    break
                except InterruptedError:
                    continue
                except ChildProcessError:
                    break
        return True

    # -- assume/check -------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self.abort(SxInfeasible())
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.abort(SxInfeasible())
        if self.nl:
            r = self.sat(cond)
            self.add(cond)
        else:
            self.add(cond)
            r = self.sat()
        if r == z3.unsat:
            self.abort(SxInfeasible())

    def model_values(self, m):
        """Concrete values of all declared inputs in model m."""
        out = {}
        for name, spec in self.inputs.items():
            k = spec['kind']
            if k == 'int':
                out[name] = int(_mv(m, spec['var']))
            elif k == 'bool':
                out[name] = bool(z3.is_true(m.eval(spec['var'], model_completion=True)))
            elif k == 'real':
                v = _mv(m, spec['var'])
                out[name] = '%d/%d' % (v.numerator, v.denominator)
            elif k == 'str':
                out[name] = [c if isinstance(c, int) else int(_mv(m, c)) for c in spec['chars']]
            elif k == 'text':
                out[name] = ''.join(chr(c if isinstance(c, int) else int(_mv(m, c))) for c in spec['chars'])
            elif k == 'angle':
                import math
                out[name] = math.atan2(float(_mv(m, spec['sin'])), float(_mv(m, spec['cos'])))
            elif k == 'const':
                out[name] = spec['value']
        return out

    def any_model(self):
        r, m = self.sat(want_model=True)
        if r == z3.sat:
            return self.model_values(m)
        return None

    def record_failure(self, label, values, detail=''):
        self.failures.append(dict(label=label, values=values, detail=detail))

    def check(self, cond, label, prefer=(), detail=''):
        """Discharge pc => cond.  prefer: extra conditions tried, most wanted
        first, to get a counterexample that is easy to see concretely."""
        if self.aborted is not None:
            raise self.aborted
        self.stats['checks'] += 1
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats['trivial_checks'] += 1
            return
        neg = z3.Not(cond)
        r, m = self.sat(neg, want_model=True)
        if r == z3.unsat:
            self.stats['unsat_checks'] += 1
            return
        if r == z3.unknown:
            if not self.nl:
                r, m = self.hard_query(neg)
            if r == z3.unsat:
                self.stats['unsat_checks'] += 1
                return
            if r == z3.unknown:
                self.notes.append('UNKNOWN: ' + label)
                self.failures.append(dict(label=label, values=self.any_model(), detail='solver returned unknown', unknown=True))
                return
        for p in prefer:
            r2, m2 = self.sat(neg, p, want_model=True)
            if r2 == z3.sat:
                m = m2
                break
        self.record_failure(label, self.model_values(m), detail)
        self.abort(SxStop('failed'))

    def hard_query(self, neg):
        """Nonlinear goal the incremental core gave up on: try other strategies."""
        t0 = time.time()
        res, model = z3.unknown, None
        for make in (lambda: z3.SolverFor('QF_NRA'),
                     lambda: z3.Then('simplify', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'qfnra-nlsat').solver()):
            try:
                s = make()
                s.set('rlimit', self.rlimit * 4)
                for c in self.pc:
                    s.add(c)
                s.add(neg)
                r = s.check()
                self.stats['queries'] += 1
                if r != z3.unknown:
                    res = r
                    model = s.model() if r == z3.sat else None
                    break
            except z3.Z3Exception:
                continue
        self.stats['solver_s'] += time.time() - t0
        return res, model

    # -- end of path ----------------------------------------------------------
    def finish(self, status, detail=''):
        rec = dict(status=status, detail=detail, stats=self.stats,
                   covered=self.covered, failures=self.failures, known=self.known,
                   notes=self.notes[:20], functions=sorted(self.functions))
        if (self.known or status in ('ok', 'unsupported', 'limit', 'error')) and not self.failures:
            try:
                rec['values'] = self.any_model()
            except Exception as e:          # pragma: no cover
                rec['values'] = None
        line = (json.dumps(rec) + '\n').encode()
        os.write(self.results, line)
        if self.owns_token and self.tokens is not None:
            try:
                os.write(self.tokens[1], b'x')
            except OSError:
                pass


class Models:
    """Models of the independent parts of the path condition, as one."""

    def __init__(self, ctx, model, roots):
        self.ctx, self.made, self.base = ctx, {r: model for r in roots}, None

    def eval(self, v, model_completion=True):
        c = self.ctx
        roots = {c.root(n) for n in c.free(v)}
        if len(roots) != 1:
            raise ValueError('no single value of %s' % v)
        r = roots.pop()
        if r not in self.made:
            cons = c.groups.get(r, [])
            if all(c.linear(x) for x in cons):
                if self.base is None:
                    if c.solver.check() != z3.sat:
                        raise ValueError('no model of the linear part')
                    self.base = c.solver.model()
                m = self.base
            else:
                got, m = c.solve(cons)
                if got != z3.sat:
                    raise ValueError('no model of %s' % r)
            self.made[r] = m
        return self.made[r].eval(v, model_completion=True)


def _mv(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError('no value for %s: %s' % (v, r))


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def run_path(fn):
    """Run fn() on the current path and end the process."""
    c = CTX
    try:
        try:
            fn()
            if c.aborted is not None:
                raise c.aborted
            status, detail = 'ok', ''
        except SxControl as e:
            raise c.aborted or e
        except BaseException:
            if c.aborted is not None:
                raise c.aborted
            raise
    except SxInfeasible:
        status, detail = 'infeasible', ''
    except SxStop:
        status, detail = 'stop', ''
    except SxUnsupported as e:
        status, detail = 'unsupported', '%s @ %s' % (e, _where(e))
    except SxLimit as e:
        status, detail = 'limit', str(e)
    except Exception as e:
        # the harness let an exception of the code under test escape: that is
        # a failure of the property unless it comes from the executor itself
        status, detail = 'error', '%s: %s @ %s' % (type(e).__name__, _text(e), _where(e))
    if c.failures and status == 'ok':
        status = 'stop'
    try:
        c.finish(status, detail)
    finally:
        sys.stdout.flush()
        os._exit(0)


def _text(e):
    try:
        return str(e)
    except BaseException:       # a symbolic message
        return repr([a if isinstance(a, str) and type(a) is str else '<sym>' for a in e.args])


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%s(%s)' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-6:]))


def explore(fn, scratch, deadline, workers=8, rlimit=20000000, stop_on=None):
    """Explore all paths of fn().  Returns the list of path records.

    stop_on(record) -> True ends the exploration early."""
    import signal
    path = os.path.join(scratch, 'results.jsonl')
    fd = os.open(path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND)
    sfd = os.open(path + '.starts', os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND)
    os.write(sfd, b's')
    tr, tw = os.pipe()
    os.set_blocking(tr, False)
    os.write(tw, b'x' * max(0, workers - 1))
    ar, aw = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.close(ar)
        c = Ctx(fd, deadline, (tr, tw), rlimit)
        c.starts = sfd
        set_ctx(c)
        run_path(fn)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    os.close(aw)
    os.close(tw)
    os.close(tr)
    os.close(fd)
    import select
    records, pos, killed = [], 0, None
    done = False
    while not done:
        r, _, _ = select.select([ar], [], [], 0.05)
        if r:
            if not os.read(ar, 1):
                done = True
        with open(path, 'rb') as f:
            f.seek(pos)
            data = f.read()
        nl = data.rfind(b'\n')
        if nl >= 0:
            for line in data[:nl].split(b'\n'):
                if line:
                    records.append(json.loads(line))
                    if stop_on is not None and killed is None and stop_on(records[-1]):
                        killed = 'stopped'
            pos += nl + 1
        if time.time() > deadline + 60 and killed is None:
            killed = 'deadline'
        if killed and not done:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            killed = killed + '!' if not killed.endswith('!') else killed
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass
    os.close(ar)
    os.close(sfd)
    begun = os.path.getsize(path + '.starts')
    if not killed and begun != len(records):
        records.append(dict(status='unsupported', detail='%d of %d paths ended without a verdict' % (begun - len(records), begun), stats={},
                            covered=[], failures=[], known=[], notes=[], functions=[], values=None))
    return records, killed
