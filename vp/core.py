"""Families, cases, verdicts and the worker that drives one family shard."""
from __future__ import annotations
import hashlib
import json
import os
import resource
import signal
import time
import traceback


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class CaseTimeout(BaseException):
    """A single case used more CPU time than any case may."""


class StopShrink(KeyboardInterrupt):
    """Enough shrinking."""


class Family:
    """One generator plus oracle deciding (part of) a property.

    strategy: callable returning a hypothesis strategy of JSON-able cases
    run: run(case) -> bool (non-trivial?) or a label string; raises Violation
    rule: what makes a case non-trivial
    quick/thorough: cases over all shards
    """

    def __init__(self, name, strategy, run, rule, quick=1500, thorough=30000,
                 shards=2, tshards=4, cpu=20.0, enumerate=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards
        self.cpu = cpu
        self.enumerate = enumerate


def check(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def same(got, want, *what):
    """Equality that also compares types all the way down."""
    if not typed_eq(got, want):
        raise Violation(f"{' '.join(str(w) for w in what)}: got {got!r}, "
                        f"want {want!r}")


def typed_eq(a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(typed_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return (list(map(repr, sorted(a, key=repr))) ==
                list(map(repr, sorted(b, key=repr))) and
                all(typed_eq(a[k], b[k]) for k in a))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is not type(b):
        return False
    return a == b


def expect_raises(exc, fn, *what):
    try:
        got = fn()
    except exc as e:
        return e
    except Exception as e:
        raise Violation(f"{' '.join(map(str, what))}: raised "
                        f"{type(e).__name__}({e}) instead of {exc}")
    raise Violation(f"{' '.join(map(str, what))}: no exception, got {got!r}")


def case_key(case):
    return json.dumps(case, sort_keys=True, default=repr)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(family, case):
    """Run one case under the CPU guard.  Returns (verdict, info)."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, family.cpu)
    try:
        return family.run(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    last = [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}'
            for f in tb[-4:]]
    return f'{type(exc).__name__}: {str(exc)[:1500]} [{" < ".join(last[::-1])}]'


def steady_constants():
    """The same seed gives the same cases whatever the tree under test looks
    like: Hypothesis would mix constants of the source text into the draws."""
    try:
        from hypothesis.internal.conjecture import providers
        none = providers._local_constants
        providers._get_local_constants = lambda: none
    except (ImportError, AttributeError):
        pass


def work(family, seed, count, budget_s, shrink_s=40.0):
    """Drive one shard; returns a JSON-able result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    steady_constants()
    t0 = time.monotonic()
    st = {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [],
          'fails': [], 'first_fail': None, 'skipped': 0, 'seen': set()}

    def one(case):
        now = time.monotonic()
        if st['first_fail'] is None:
            if now - t0 > budget_s:
                st['skipped'] += 1
                return
        elif now - st['first_fail'] > shrink_s:
            raise StopShrink()
        st['evaluations'] += 1
        key = case_key(case)
        try:
            label = run_case(family, json.loads(key))
        except CaseTimeout:
            st['fails'].append((len(key), key,
                                f'did not finish within {family.cpu} s CPU'))
            raise StopShrink()
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except MemoryError:
            st['fails'].append((len(key), key, 'ran out of memory'))
            raise StopShrink()
        except Exception as e:
            st['fails'].append((len(key), key, describe(e)))
            if st['first_fail'] is None:
                st['first_fail'] = time.monotonic()
            raise
        h = hashlib.blake2b(key.encode(), digest_size=8).hexdigest()
        if label:
            if h not in st['nontrivial'] and len(st['samples']) < 3:
                st['samples'].append(json.loads(key))
            st['nontrivial'].add(h)
        if isinstance(label, str):
            for part in label.split(','):
                st['labels'][part] = st['labels'].get(part, 0) + 1

    if family.enumerate is not None:
        try:
            for i, case in enumerate(family.enumerate()):
                if i % max(1, count[1]) == count[0]:
                    one(case)
        except StopShrink:
            pass
        except Exception:
            if not st['fails']:
                raise
    else:
        test = hypothesis.seed(seed)(settings(
            max_examples=count, database=None, deadline=None,
            derandomize=False, report_multiple_bugs=False,
            phases=[Phase.generate, Phase.target, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            verbosity=hypothesis.Verbosity.quiet)(
                given(family.strategy())(one)))
        try:
            test()
        except StopShrink:
            pass
        except BaseException as e:
            if not st['fails'] or isinstance(e, (SystemExit,)):
                raise
    out = {'evaluations': st['evaluations'],
           'nontrivial': sorted(st['nontrivial']),
           'labels': st['labels'], 'samples': st['samples'],
           'skipped': st['skipped'],
           'wall_s': round(time.monotonic() - t0, 2)}
    if st['fails']:
        _, key, why = min(st['fails'], key=lambda f: (f[0], f[1]))
        out['fail'] = {'case': json.loads(key), 'why': why}
    return out
