"""Harness execution: one job symbolically, or one input concretely."""
import importlib
import os
import signal
import sys
import threading
import time
import traceback

NONE_CODE = -(10 ** 9)


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class TooLong(BaseException):
    """A run that does not end in time (BaseException: the code under test must not catch it)."""


class Alarm:
    """Raises TooLong in the main thread after some seconds."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def ring(*_):
            raise TooLong()
        self.usable = threading.current_thread() is threading.main_thread()
        if self.usable:
            self.old = signal.signal(signal.SIGALRM, ring)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *_):
        if self.usable:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


CONCRETE_SECONDS = 20       # a concrete run takes milliseconds
PATH_SECONDS = 120          # one symbolic path


class ConcreteCtx:
    """Runs a harness on given inputs against the real, uninstrumented code."""
    symbolic = False

    def __init__(self, inputs, modules):
        self.inputs, self.m = inputs, modules
        self.observed = []
        self.notes = []
        self.findings = []

    def int(self, name, lo=None, hi=None):
        # inputs the failing path never created are irrelevant to it
        return self.inputs.get(name, lo if lo is not None else (hi if hi is not None else 0))

    def val(self, name):
        v = self.inputs.get(name, 0)
        return None if v == NONE_CODE else v

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def conc(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg, site=None):
        if not cond:
            if site is not None:
                self.findings.append((site, msg))
                return False
            raise CheckFailed(msg)
        return True

    def observe(self, *xs):
        self.observed.extend(xs)

    def text(self, x):
        return str(x)

    def func(self, name, n):
        return ConcreteFunc(self, name, n)


class ConcreteFunc:
    """Memory of n cells, read through an uninterpreted function."""

    def __init__(self, ctx, name, n):
        self.ctx, self.name, self.n = ctx, name, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if not 0 <= i < self.n:
            raise IndexError(i)
        return 1000 + i          # injective: distinct cells are distinguishable

    def copy(self):
        return self


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    if isinstance(x, slice):
        return ('slice', freeze(x.start), freeze(x.stop), freeze(x.step))
    if isinstance(x, dict):
        return tuple(sorted((freeze(k), freeze(v)) for k, v in x.items()))
    return x


def harness(modname):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    return importlib.import_module('harness.' + modname)


def run_concrete(modname, fname, params, inputs, known=()):
    """Returns (status, message, observed): 'ok', 'fail', 'skip'."""
    from . import loader_real
    import io
    import contextlib
    h = harness(modname)
    ctx = ConcreteCtx(inputs, loader_real.load_real())
    try:
        with contextlib.redirect_stdout(io.StringIO()), Alarm(CONCRETE_SECONDS):
            getattr(h, fname)(ctx, **params)
    except TooLong:
        return 'fail', 'does not end within %d s' % CONCRETE_SECONDS, ctx
    except AssumeFailed:
        return 'skip', 'assumption does not hold', ctx
    except CheckFailed as e:
        return 'fail', str(e), ctx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        return 'fail', 'raised %s: %s at %s:%d' % (type(e).__name__, e,
                                                  os.path.basename(where.filename),
                                                  where.lineno), ctx
    for site, msg in ctx.findings:
        if site not in known:
            return 'fail', msg, ctx
    return 'ok', '', ctx


def run_symbolic(modname, fname, params, known=(), budget=300.0, validate=12, seed=1,
                 options=None):
    """Explores every path of a harness. Returns a result dict."""
    import io
    import contextlib
    import z3
    from . import engine as E, loader
    options = options or {}
    h = harness(modname)
    t0 = time.monotonic()
    eng = E.Engine(deadline=t0 + budget, **options)

    class SymCtx:
        symbolic = True
        m = None

        def int(self, name, lo=None, hi=None):
            if type(lo) is int and type(hi) is int and lo == hi:
                return lo
            v = z3.Int(name)
            eng.inputs[name] = v
            x = E.SymInt(v)
            if lo is not None:
                eng.assume(x >= lo)
            if hi is not None:
                eng.assume(x <= hi)
            return x

        def val(self, name):
            v = z3.Int(name)
            eng.inputs[name] = v
            return E.Val(v)

        def choose(self, name, n):
            x = self.int(name, 0, n - 1)
            return x if type(x) is int else eng.concretize(x.e)

        def conc(self, x):
            return x if type(x) is int else eng.concretize(x.e)

        def assume(self, cond):
            eng.assume(cond)

        def check(self, cond, msg, site=None):
            try:
                eng.check(cond, msg)
                return True
            except E.Violation:
                if site is None:
                    raise
                if site not in known:
                    raise
                if site not in res['findings']:
                    res['findings'][site] = {'msg': msg, 'inputs': eng.input_values()}
                return False

        def observe(self, *xs):
            self.observed.extend(xs)

        def text(self, x):
            return E.text(x)

        def func(self, name, n):
            return SymFunc(name, n)

    class SymFunc:
        def __init__(self, name, n):
            self.f = z3.Function(name, z3.IntSort(), z3.IntSort())
            self.n = n
            self.name = name

        def __sx_len__(self):
            return self.n

        def __len__(self):
            return self.n.__index__()

        def __getitem__(self, i):
            if isinstance(i, slice):
                raise E.EngineLimit('slice of symbolic memory')
            if not (0 <= i and i < self.n):
                raise IndexError('out of symbolic memory')
            # an injective memory is general: cells are told apart by position
            return 1000 + i

        def copy(self):
            return self

    res = dict(job=[modname, fname, params], paths=0, skipped=0, violation=None, limit=None,
               findings={}, validated=0, samples=[], spurious=None, reached=0)

    spurious = []       # counterexamples that the real code does not show: undecided

    def evaluate(m, x):
        if isinstance(x, (list, tuple)):
            return tuple(evaluate(m, y) for y in x)
        if isinstance(x, slice):
            return ('slice', evaluate(m, x.start), evaluate(m, x.stop), evaluate(m, x.step))
        if isinstance(x, dict):
            return tuple(sorted((evaluate(m, k), evaluate(m, v)) for k, v in x.items()))
        if type(x) is E.SymInt:
            return m.eval(x.e, model_completion=True).as_long()
        if type(x) is E.Val:
            c = m.eval(x.e, model_completion=True).as_long()
            return None if c == NONE_CODE else c
        if type(x) is E.SymBool:
            return z3.is_true(m.eval(x.e, model_completion=True))
        return x

    def candidate(msg):
        try:
            inputs = eng.input_values()
        except E.EngineLimit as e:
            res['limit'] = str(e) + ' (candidate: %s)' % msg
            return
        status, cmsg, _ = run_concrete(modname, fname, params, inputs, known)
        if status == 'fail':
            res['violation'] = dict(msg=cmsg, symbolic_msg=msg, inputs=inputs)
        else:
            spurious.append(dict(msg=msg, inputs=inputs, concrete=status + ' ' + cmsg))

    E.ENG = eng
    body = getattr(h, fname)
    sys.setrecursionlimit(20000)
    next_validate = 0
    while True:
        eng.start_path()
        ctx = SymCtx()
        ctx.observed = []
        checks_before = eng.checks
        try:
            ctx.m = loader.load_symbolic()
            with contextlib.redirect_stdout(io.StringIO()), Alarm(PATH_SECONDS):
                body(ctx, **params)
            res['paths'] += 1
            if eng.checks > checks_before:
                res['reached'] += 1
            # translation validation: the real code on a model of this path
            if res['validated'] < validate and res['paths'] > next_validate:
                next_validate = res['paths'] + (res['paths'] * (2 + seed % 3)) // 4
                m = eng._get_model()
                inputs = eng.input_values()
                status, cmsg, cctx = run_concrete(modname, fname, params, inputs, known)
                want = evaluate(m, tuple(ctx.observed))
                got = freeze(cctx.observed)
                if status != 'ok' or want != got:
                    if status == 'fail':
                        res['violation'] = dict(msg=cmsg, inputs=inputs, symbolic_msg='(found by'
                                                ' replaying a path model on the real code)')
                        break
                    spurious.append(dict(msg='translation mismatch: model %r real %r' %
                                         (want, got), inputs=inputs, concrete=status))
                else:
                    res['validated'] += 1
                if want == got and len(res['samples']) < 2:
                    res['samples'].append(dict(inputs=inputs, observed=repr(got)[:200]))
        except E.Stop:
            res['skipped'] += 1
        except E.EngineLimit as e:
            res['limit'] = str(e)
            break
        except E.Violation as e:
            candidate(e.msg)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            res['trace'] = ''.join(traceback.format_list(tb[-4:]))
            candidate('raised %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(
                tb[-1].filename), tb[-1].lineno))
        except TooLong:
            candidate('does not end')
            if not res['violation']:
                res['limit'] = 'a path takes longer than %d s' % PATH_SECONDS
                break
        if res['violation'] or res['limit']:
            break
        if len(spurious) >= 8:
            break
        if eng.max_paths and res['paths'] >= eng.max_paths:
            res['limit'] = 'path limit'
            break
        if not eng.backtrack():
            break
    if spurious:
        res['spurious'] = spurious[0]
    elif eng.incomplete:
        res['limit'] = res['limit'] or 'floating point on large integers is only sampled'
    res.update(queries=eng.queries, checks=eng.checks, decisions=eng.decisions, solver_s=eng.solver_s,
               wall=time.monotonic() - t0, unknown_branches=eng.unknown_branches,
               functions=sorted(loader.functions_run))
    return res
