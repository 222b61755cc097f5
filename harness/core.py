""" Engine which decides properties by generated-input search.

A property module (harness/props/cNN.py) lists `Check`s.  Each check pairs
a Hypothesis strategy which generates *plain JSON data* describing a case
with a function which builds real `forecaster` objects from that data
(using the public API only), exercises them, and compares what they do
with an oracle.  Every random choice is drawn by Hypothesis, so failures
shrink, and the shrunk case is plain JSON, so it replays without
Hypothesis.
"""
import collections
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback

import hypothesis
from hypothesis import strategies as st

# Bounds the time spent making a failing case smaller.
try:
    import hypothesis.internal.conjecture.engine as _engine
    _engine.MAX_SHRINKING_SECONDS = 40
except Exception:  # pylint: disable=broad-except
    pass

CASE_CPU_SECONDS = 60


class Violation(AssertionError):
    """ The code under test did something a property forbids. """


# (Shrinking can be left out when a yes or no is all that's needed.)
PHASES = (hypothesis.Phase.generate,) if os.environ.get('VERIF_NOSHRINK') \
    else (hypothesis.Phase.generate, hypothesis.Phase.shrink)


class HarnessError(Exception):
    """ The harness itself is at fault (not the code under test). """


class CaseTimeout(BaseException):
    """ A case didn't finish (measured in CPU time, not wall time). """


class Rec:
    """ What one evaluation of one case reports about itself. """

    def __init__(self, known=()):
        self.is_nontrivial = False
        self.tags = []
        self.known_allowed = known
        self.known_hits = []
        self.checks = 0

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def tag(self, name, cond=True):
        if cond:
            self.tags.append(str(name))

    def ok(self, cond, msg, *args):
        self.checks += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def eq(self, actual, expected, what):
        """ Exact equality. """
        self.checks += 1
        if not (actual == expected):
            raise Violation("%s: got %r, expected %r" % (
                what, actual, expected))

    def close(self, actual, expected, what, rel=1e-9, abs_=1e-6, scale=0):
        """ Equality up to rounding error.

        `scale` is the magnitude of the values which were combined to
        obtain these ones (cancellation can leave an absolute error in
        proportion to them).
        """
        self.checks += 1
        if actual is None or isinstance(actual, str):
            raise Violation("%s: got %r, expected %r" % (
                what, actual, expected))
        if not is_close(actual, expected, rel, abs_, scale):
            raise Violation("%s: got %r, expected %r" % (
                what, actual, expected))

    def le(self, a, b, what, rel=1e-9, abs_=1e-6, scale=0):
        self.checks += 1
        tol = max(abs_, rel * max(_mag(a), _mag(b), scale))
        if not float(a) <= float(b) + tol:
            raise Violation("%s: %r should be at most %r" % (what, a, b))

    def raises(self, exc, func, what):
        self.checks += 1
        try:
            val = func()
        except exc:
            return
        raise Violation("%s: expected %r, got value %r" % (what, exc, val))

    def known(self, key, detail):
        """ Reports an occurrence of a listed known finding. """
        if key not in self.known_allowed:
            raise Violation("%s (unlisted finding %s)" % (detail, key))
        self.known_hits.append((key, detail))


def _mag(val):
    val = abs(float(val))
    return val if math.isfinite(val) else 0.0


def is_close(actual, expected, rel=1e-9, abs_=1e-6, scale=0):
    actual, expected = float(actual), float(expected)
    if math.isnan(actual) or math.isnan(expected):
        return False
    if math.isinf(actual) or math.isinf(expected):
        return actual == expected
    tol = max(abs_, rel * max(abs(actual), abs(expected), scale))
    return abs(actual - expected) <= tol


class Check:
    """ One generated-input search. """

    def __init__(self, name, strategy, func, quick, thorough, what):
        self.name = name
        self.strategy = strategy      # callable returning a strategy
        self.func = func
        self.examples = {'quick': 2 * quick, 'thorough': thorough}
        self.what = what


def canonical(case):
    return json.dumps(case, sort_keys=True, default=str)


def case_hash(case):
    return hashlib.blake2b(
        canonical(case).encode(), digest_size=10).digest()


def run_case(check, case, known):
    """ Runs one case. Returns Rec; raises Violation/other exceptions. """
    rec = Rec(known)
    check.func(case, rec)
    return rec


def _on_timer(_sig, _frame):
    raise CaseTimeout()


def describe_exception(exc):
    if isinstance(exc, CaseTimeout):
        return "case did not finish within %d s of CPU time" % CASE_CPU_SECONDS
    if isinstance(exc, Violation):
        return str(exc)
    frames = traceback.extract_tb(exc.__traceback__)
    where = ""
    for frame in frames:
        where = "%s:%d in %s" % (
            os.path.relpath(frame.filename, "/"), frame.lineno, frame.name)
    return "unexpected %s: %s (at %s)" % (type(exc).__name__, exc, where)


class Outcome:
    """ Picklable result of one shard. """

    def __init__(self, check_name):
        self.check = check_name
        self.evaluations = 0
        self.oracle_checks = 0
        self.hashes = set()
        self.tags = collections.Counter()
        self.samples = []
        self.known = {}
        self.failure = None       # (case, message)
        self.error = None         # harness error text


def run_shard(check, seed, n_examples, known, pinned=()):
    """ Searches `n_examples` generated cases (plus the pinned ones). """
    out = Outcome(check.name)

    class Stop(BaseException):
        pass

    def evaluate(case):
        # Work on a private copy so that the case can't be mutated:
        text = canonical(case)
        private = json.loads(text)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            rec = run_case(check, private, known)
        except HarnessError:
            raise
        except CaseTimeout as exc:
            out.failure = (case, describe_exception(exc))
            raise Stop() from exc
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as exc:
            out.failure = (case, describe_exception(exc))
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if out.failure is None:
            # (cases tried while shrinking don't count as coverage)
            out.evaluations += 1
            out.oracle_checks += rec.checks
            out.tags.update(set(rec.tags))
            for key, detail in rec.known_hits:
                out.known.setdefault(key, detail)
            if rec.is_nontrivial:
                digest = case_hash(case)
                if digest not in out.hashes:
                    out.hashes.add(digest)
                    if len(out.samples) < 2 and len(text) < 1500:
                        out.samples.append(private_copy(text))

    def private_copy(text):
        return json.loads(text)

    old = signal.signal(signal.SIGVTALRM, _on_timer)
    try:
        for case in pinned:
            try:
                evaluate(case)
            except HarnessError:
                raise
            except Stop:
                return out
            except Exception:
                return out
        strategy = check.strategy()

        @hypothesis.seed(seed)
        @hypothesis.settings(
            max_examples=n_examples, database=None, deadline=None,
            derandomize=False, print_blob=False,
            report_multiple_bugs=False,
            phases=PHASES,
            suppress_health_check=list(hypothesis.HealthCheck),
            verbosity=hypothesis.Verbosity.quiet)
        @hypothesis.given(strategy)
        def search(case):
            evaluate(case)

        try:
            search()
        except HarnessError:
            raise
        except Stop:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise
            if out.failure is None:
                out.error = traceback.format_exc()
    except HarnessError:
        out.error = traceback.format_exc()
    except BaseException:  # pylint: disable=broad-except
        if out.failure is None:
            out.error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return out


# ---------------------------------------------------------------- generators

def money(lo=0, hi=1000000):
    """ Amounts: round ones, cents, small ones and extremes. """
    return st.one_of(
        st.integers(int(math.ceil(lo)), int(math.floor(hi))),
        st.integers(int(math.ceil(lo * 100)), int(math.floor(hi * 100))).map(
            lambda c: c / 100),
        st.sampled_from([x for x in (
            0, 1, 10, 99.99, 100, 1000, 5000, 12345.67, 100000, lo, hi,
            -1, -100, -5000) if lo <= x <= hi]))


def unit():
    """ Times in [0, 1], on and off the usual grids. """
    return st.one_of(
        st.sampled_from([0, 1, 0.5, 0.25, 0.75]),
        st.integers(0, 12).map(lambda k: k / 12),
        st.integers(0, 1000).map(lambda k: k / 1000))


def horizon(usual, most):
    """ A number of years: usually a few, sometimes many. """
    return st.one_of(st.integers(1, usual), st.integers(1, usual),
                     st.integers(1, usual), st.integers(usual + 1, most))


def rate(lo=-0.3, hi=0.3):
    return st.one_of(
        st.sampled_from([x for x in (0, 0.05, 0.02, 0.1, -0.05)
                         if lo <= x <= hi]),
        st.integers(int(round(lo * 10000)), int(round(hi * 10000))).map(
            lambda k: k / 10000))


def sized(element, lo, hi):
    return st.lists(element, min_size=lo, max_size=hi)
