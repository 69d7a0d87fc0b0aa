"""The simulator's core: plans, violations, the environment of one run, plan
minimisation.  A plan is plain JSON; executing it is deterministic given
PYTHONHASHSEED (the only other source of set order) and the code under test.
"""
import contextlib
import dis
import hashlib
import importlib
import io
import json
import os
import random
import signal
import sys
import traceback
from collections import Counter

REPO = os.environ.get('VERIF_REPO', '/repo')
FCA_DIR = os.path.join(os.path.realpath(REPO), 'fca') + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

STEP_CAP = 24000000     # traced lines one run may take before it is a hang
WALL_SUSPECT = float(os.environ.get('VERIF_WALL_SUSPECT', '15'))


LATER = ['fca.algorithms.exploration', 'fca.algorithms.exploration_.exploration',
         'fca.algorithms.exploration2.exploration', 'fca.algorithms.patterns',
         'fca.algorithms.implication_covers', 'fca.algorithms.scaling',
         'fca.algorithms.factors', 'fca.algorithms.aibasis',
         'fca.partial_context', 'fca.compare_context', 'fca.readwrite']


_WRITES = {}
_STORES = ('STORE_GLOBAL', 'STORE_ATTR', 'STORE_DEREF', 'DELETE_ATTR',
           'DELETE_GLOBAL')
_INSIDE = ('STORE_SUBSCR', 'STORE_SLICE', 'DELETE_SUBSCR')
_CHANGES = ('append', 'add', 'update', 'clear', 'pop', 'popitem', 'extend',
            'remove', 'discard', 'insert', 'setdefault', 'sort', 'reverse',
            'setattr', 'delattr', '__setattr__')


def writes(code, wide):
    """The lines of a function that may change something others can see."""
    key = code, wide
    if key not in _WRITES:
        _WRITES[key] = frozenset(
            i.positions.lineno for i in dis.get_instructions(code)
            if i.opname in _STORES or wide and (
                i.opname in _INSIDE or
                i.opname.startswith('LOAD_') and i.argval in _CHANGES))
    return _WRITES[key]


def after_writes(frame, wide, tick):
    """A trace function for the frame that ticks after such lines."""
    lines = writes(frame.f_code, wide)
    if not lines:
        return None
    last = None

    def local(frame, event, arg):
        nonlocal last
        if event == 'line':
            if last in lines:
                tick()
            last = frame.f_lineno
        elif event == 'return' and last in lines:
            last = None
            tick()
        return local
    return local


def deeper(frame, limit):
    """Is it called by more than limit - 1 functions of the library?"""
    n = 0
    while frame is not None:
        if frame.f_code.co_filename.startswith(FCA_DIR):
            n += 1
            if n > limit:
                return True
        frame = frame.f_back
    return False


def load_fca():
    """Import the library from the working tree, with the lock seam in place
    before any of its modules runs."""
    if 'fca' not in sys.modules:
        from . import sched
        sched.install_lock_seam()
        sys.path.insert(0, os.path.realpath(REPO))
        import fca
        assert os.path.realpath(fca.__file__).startswith(FCA_DIR), fca.__file__
        for name in LATER:      # so that no run differs by what is imported
            try:
                importlib.import_module(name)
            except ImportError:
                pass
    return sys.modules['fca']


class Violation(Exception):
    def __init__(self, kind, detail=None):
        Exception.__init__(self, kind)
        self.kind = kind
        self.detail = detail


class SimulatedFault(Exception):
    """Raised by simulated callbacks; must reach the caller."""


class SimulatedKeyError(SimulatedFault, KeyError):
    pass


class SimulatedIndexError(SimulatedFault, IndexError):
    pass


class SimulatedTypeError(SimulatedFault, TypeError):
    pass


class SimulatedValueError(SimulatedFault, ValueError):
    pass


class SimulatedAttributeError(SimulatedFault, AttributeError):
    pass


class SimulatedRuntimeError(SimulatedFault, RuntimeError):
    pass


class SimulatedOSError(SimulatedFault, OSError):
    pass


class SimulatedArithmeticError(SimulatedFault, ZeroDivisionError):
    pass


# a failing callback fails in its own way: a handler in the library meant for
# an error of its own must not catch it
FAULTS = [SimulatedFault, SimulatedKeyError, SimulatedIndexError,
          SimulatedTypeError, SimulatedValueError, SimulatedAttributeError,
          SimulatedRuntimeError, SimulatedOSError, SimulatedArithmeticError]


def fault(k, what='simulated'):
    return FAULTS[k % len(FAULTS)](what)


class Hang(BaseException):
    """Wall clock suspicion or step cap reached."""


def rng_for(*parts):
    return random.Random(':'.join(str(p) for p in parts))


def digest(obj):
    return hashlib.blake2b(json.dumps(obj, sort_keys=True, default=str,
                                      ensure_ascii=True).encode(),
                           digest_size=8).hexdigest()


def show(x, limit=600):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


class Env:
    """What one run observes and counts."""

    def __init__(self, scratch=None):
        self.faults = Counter()
        self.probes = Counter()
        self.steps = 0              # operations performed
        self.ticks = 0              # simulated time: scheduler / trace events
        self.states = set()
        self.schedules = set()
        self.trace = []             # abstract trace of the run
        self.nontrivial = False
        self.scratch = scratch

    # -- verdicts
    def fail(self, kind, /, **detail):
        raise Violation(kind, {k: show(v) for k, v in detail.items()})

    def eq(self, what, got, want, /, **more):
        if got != want:
            more.update(answer=got, expected=want)
            self.fail('wrong ' + what, **more)

    def check(self, cond, kind, /, **detail):
        if not cond:
            self.fail(kind, **detail)

    # -- calling the library
    def call(self, label, fn, *args, **kwargs):
        self.steps += 1
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except Exception as e:
            raise Violation('unexpected %s in %s' % (type(e).__name__, label),
                            {'error': show(e), 'where': where(e)})

    def refused(self, label, fn, *args, **kwargs):
        """The call must raise an ordinary exception."""
        self.steps += 1
        try:
            got = fn(*args, **kwargs)
        except Violation:
            raise
        except Exception as e:
            return e
        self.fail('not refused: ' + label, returned=got)

    def attempt(self, fn, *args, **kwargs):
        """(True, value) or (False, exception)."""
        self.steps += 1
        try:
            return True, fn(*args, **kwargs)
        except Violation:
            raise
        except Exception as e:
            return False, e

    # -- coverage
    def note(self, *what):
        self.trace.append(what)

    def state(self, *what):
        if len(self.states) < 5000:
            self.states.add(digest(what))

    def probe(self, name, n=1):
        self.probes[name] += n

    def fault(self, name, n=1):
        self.faults[name] += n


def where(exc):
    out = []
    for f in traceback.extract_tb(exc.__traceback__)[-4:]:
        out.append('%s:%s %s' % (os.path.basename(f.filename), f.lineno,
                                 f.name))
    return ' < '.join(reversed(out))


def as_violation(exc):
    if isinstance(exc, Violation):
        return exc
    return Violation('unexpected %s' % type(exc).__name__,
                     {'error': show(exc), 'where': where(exc)})


@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


class _Alarm:
    """Repeating wall clock alarm; only a suspicion, see run_plan."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def ring(signum, frame):
            raise Hang('wall')
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class _StepCap:
    """Counts executed lines of library code and gives up at the cap."""

    def __init__(self, cap):
        self.cap, self.n = cap, 0

    def __enter__(self):
        def local(frame, event, arg):
            if event == 'line':
                self.n += 1
                if self.n > self.cap:
                    raise Hang('steps')
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(FCA_DIR) \
                else None
        self.old = sys.gettrace()
        sys.settrace(tracer)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)


def run_plan(prop, plan, scratch=None):
    """Execute one plan.  Returns (env, violation or None)."""
    env = Env(scratch)
    try:
        with quiet(), _Alarm(WALL_SUSPECT):
            prop.execute(plan, env)
        return env, None
    except Hang:
        pass
    except Exception as e:
        return env, as_violation(e)
    # Suspiciously slow.  Decide deterministically: count library lines.
    env = Env(scratch)
    cap = _StepCap(STEP_CAP)
    try:
        with quiet(), _Alarm(14 * WALL_SUSPECT), cap:
            prop.execute(plan, env)
    except Hang as h:
        if cap.n <= cap.cap:
            # a busy machine or a slow oracle: no verdict
            env.probe('slow run given up')
            return env, None
        return env, Violation('no progress', {
            'reason': str(h), 'lines': cap.n})
    except Exception as e:
        return env, as_violation(e)
    env.probe('slow run')
    return env, None


# ---------------------------------------------------------------- minimising

def minimise(prop, plan, kind, scratch=None, budget=300, seconds=45):
    """Delta debugging over the plan's lists, then over prop.shrink()."""
    import time
    deadline = time.time() + float(os.environ.get('VERIF_MINIMISE', seconds))
    used = [0]

    def still_fails(candidate):
        if used[0] >= budget or time.time() > deadline:
            return False
        used[0] += 1
        try:
            _, v = run_plan(prop, json.loads(json.dumps(candidate)), scratch)
        except Exception:
            return False
        return v is not None and v.kind == kind

    def ddmin(get, put, best):
        n = 2
        while True:
            items = get(best)
            if len(items) < 1:
                return best
            size = max(1, len(items) // n)
            reduced = False
            for start in range(0, len(items), size):
                rest = items[:start] + items[start + size:]
                cand = put(best, rest)
                if still_fails(cand):
                    best, reduced = cand, True
                    n = max(n - 1, 2)
                    break
            if not reduced:
                if size == 1:
                    return best
                n = min(n * 2, len(items))

    best = plan
    for _round in range(2):
        before = json.dumps(best)
        for path in getattr(prop, 'LISTS', ['ops']):
            def get(p, path=path):
                for key in path.split('.'):
                    p = p[key]
                return p

            def put(p, v, path=path):
                p = json.loads(json.dumps(p))
                q = p
                keys = path.split('.')
                for key in keys[:-1]:
                    q = q[key]
                q[keys[-1]] = v
                return p
            try:
                get(best)
            except (KeyError, TypeError):
                continue
            best = ddmin(get, put, best)
        shrink = getattr(prop, 'shrink', None)
        if shrink:
            progress = True
            while progress:
                progress = False
                for cand in shrink(json.loads(json.dumps(best))):
                    if still_fails(cand):
                        best, progress = cand, True
                        break
        if json.dumps(best) == before:
            break
    return best, used[0]
