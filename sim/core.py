"""Core of the deterministic simulator: choice tape, run environment, violation types."""
import hashlib
import json
import os
import random
import signal
import sys
import traceback
from collections import Counter
from contextlib import contextmanager

REPO = os.environ.get("MG_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


from . import seams  # noqa: E402


class Violation(Exception):
    """The property under test does not hold in this execution."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class SkipCase(Exception):
    """The case is not meaningful (only arises while shrinking)."""


class HarnessError(Exception):
    pass


class SimHang(BaseException):
    """CPU budget of one run exhausted."""


def h64(*parts):
    d = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(d[:8], "big")


class Env:
    """One simulated execution.

    Every decision taken while the run proceeds (delays, which short read, ...) goes through choose().  In
    exploration the value is drawn from the run's PRNG and appended to the tape; in replay it is read back from the
    tape (and is 0 beyond its end), so a run is a pure function of (case, tape).
    """

    MAX_STEPS = 400000

    def __init__(self, case, rng=None):
        self.case = case
        self.tape = list(case.get("tape", []))
        self.pos = 0
        self.rng = rng
        self.faults = Counter()
        self.probes = Counter()
        self.sim_time = 0.0
        self.steps = 0
        self.trace = []
        self._hash = hashlib.sha256()
        self.nontrivial = False
        self.clock = 1_700_000_000.0

    # -- decisions ---------------------------------------------------------------------------------------------
    def choose(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.tape):
            v = self.tape[self.pos] % n
        elif self.rng is not None:
            v = self.rng.randrange(n)
            self.tape.append(v)
        else:
            v = 0
        self.pos += 1
        return v

    def chance(self, num, den):
        """True with probability num/den; 0 on the tape means False."""
        return self.choose(den) >= den - num

    # -- recording ---------------------------------------------------------------------------------------------
    def ev(self, *parts):
        s = repr(parts)
        self._hash.update(s.encode())
        if len(self.trace) < 4000:
            self.trace.append(s)

    def fault(self, kind):
        self.faults[kind] += 1
        self.ev("FAULT", kind)

    def probe(self, name):
        self.probes[name] += 1

    def step(self, n=1):
        self.steps += n
        if self.steps > self.MAX_STEPS:
            raise Violation("no-progress", "more than %d simulated steps in one run" % self.MAX_STEPS)

    def digest(self):
        return self._hash.hexdigest()[:16]

    # -- oracle helpers ----------------------------------------------------------------------------------------
    def fail(self, kind, msg, *args):
        raise Violation(kind, msg % args if args else msg)

    def check(self, cond, kind, msg, *args):
        if not cond:
            raise Violation(kind, msg % args if args else msg)

    @contextmanager
    def oracle(self, what):
        """Reading a result of the library: a result that is not even well formed is a violation."""
        try:
            yield
        except RESULT_ERRORS as e:
            raise Violation("malformed-result", "%s: %s: %s" % (what, type(e).__name__, e))


RESULT_ERRORS = (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ArithmeticError)
STUMBLED = "unusable-result"


def exc_kind(e):
    return type(e).__name__


def passes_through_repo(e):
    root = os.path.realpath(REPO) + os.sep
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for fs in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fs.filename).startswith(root):
                return True
        e = e.__cause__ or e.__context__
    return False


CPU_LIMIT = 20


def _on_alarm(signum, frame):
    raise SimHang()


def run_case(prop, case, rng=None):
    """Execute one case.  Returns (env, violation or None).  Raises HarnessError for harness faults."""
    env = Env(case, rng)
    seams.reset()
    old = signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    viol = None
    try:
        try:
            prop.execute(env, case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
    except Violation as v:
        viol = v
    except SkipCase:
        env.skipped = True
    except SimHang:
        viol = Violation("no-progress", "run used more than %d s of CPU" % CPU_LIMIT)
    except (MemoryError, RecursionError) as e:
        if passes_through_repo(e):
            viol = Violation("unexpected-exception", "%s from the library" % type(e).__name__)
        else:
            raise HarnessError("".join(traceback.format_exception(e)))
    except Exception as e:
        if passes_through_repo(e):
            tb = traceback.extract_tb(e.__traceback__)
            viol = Violation("unexpected-exception", "%s: %s (at %s)" % (
                type(e).__name__, str(e)[:200],
                "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:])))
        elif isinstance(e, RESULT_ERRORS):
            # the checks stumbled over something the library gave them
            f = traceback.extract_tb(e.__traceback__)[-1]
            viol = Violation("%s (%s:%d)" % (STUMBLED, os.path.basename(f.filename), f.lineno),
                             "%s: %s" % (type(e).__name__, str(e)[:200]))
        else:
            raise HarnessError("".join(traceback.format_exception(e)))
    if viol is not None:
        env.ev("VIOLATION", viol.kind)
    return env, viol


def seed_for(verif_seed, prop_id, i):
    return h64("mediagrains-sim", verif_seed, prop_id, i)


def explore_one(prop, verif_seed, i, tier):
    rng = random.Random(seed_for(verif_seed, prop.ID, i))
    case = prop.generate(rng, tier)
    # exactly what a replay file would hold
    case = json.loads(json.dumps(case))
    env, viol = run_case(prop, case, rng)
    case["tape"] = env.tape
    return env, viol, case
