"""Shared machinery of the checks: declare generated-input sub-checks, run them, shrink,
write replays and count what was generated.

A check module `checks/<id>.py` creates one `Check` and decorates functions with
`@ck.test(...)`; every argument of such a function is a plain value drawn from a
Hypothesis strategy, so that a failing case can be pickled and re-run without Hypothesis.
The function raises (AssertionError or whatever the code under test raised on a valid
input) when the property is broken, and returns True if the case was non-trivial.
"""
from __future__ import annotations
import base64
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
from contextlib import contextmanager

from . import hyp  # noqa: F401
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase
from hypothesis import strategies as st  # noqa: F401
import hypothesis.errors as herr
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 120
SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


class CaseTimeout(Exception):
    pass


class HarnessError(Exception):
    """Raised by the machinery (never by the code under test)."""


def short(x, n=400):
    old = np.get_printoptions()
    np.set_printoptions(threshold=40, linewidth=200)
    try:
        s = repr(x)
    except Exception as e:  # noqa
        s = f'<unprintable {type(x)}: {e!r}>'
    finally:
        np.set_printoptions(threshold=old['threshold'], linewidth=old['linewidth'])
    return s if len(s) <= n else s[:n] + f'...(+{len(s)-n} chars)'


class SubTest:
    def __init__(self, name, fn, strategies, examples, thorough, explicit, shards):
        self.name, self.fn, self.strategies = name, fn, strategies
        self.examples, self.thorough, self.explicit = examples, thorough, explicit
        self.shards = shards


class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs: list[SubTest] = []
        self.findings = []
        self.labels = {}

    def test(self, examples=200, thorough=None, explicit=(), shards=1, **strategies):
        """Register a sub-check.  `examples`: generated cases in the quick tier;
        `thorough`: in the thorough tier (default 15x); `explicit`: fixed cases run first."""
        def deco(fn):
            self.subs.append(SubTest(fn.__name__, fn, strategies, examples,
                                     thorough or examples * 15, list(explicit), shards))
            return fn
        return deco

    def label(self, name):
        """Count a class of generated cases (reported in the evidence)."""
        self.labels[name] = self.labels.get(name, 0) + 1

    def known(self, key, probe):
        """A recorded finding: `probe()` returns True while the defect is present."""
        self.findings.append((key, probe))


def sub_seed(seed, prop, name, shard=0):
    h = hashlib.sha256(f'{seed}/{prop}/{name}/{shard}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def _on_prof(signum, frame):
    raise CaseTimeout(f'case did not finish within {CASE_CPU_S} s of CPU time')


def case_key(kw):
    try:
        return hashlib.sha1(pickle.dumps(kw, protocol=4)).digest()
    except Exception:
        return hashlib.sha1(repr(kw).encode()).digest()


def run_sub(ck: Check, sub: SubTest, seed: int, n: int, shard=0, deadline=float('inf')):
    """Run one sub-check; returns a plain dict of results."""
    stat = dict(name=sub.name, evaluations=0, nontrivial=0, samples=[], failure=None, error=None)
    seen = set()
    last_fail = {}
    ck.labels = {}
    signal.signal(signal.SIGPROF, _on_prof)

    crashlog = os.environ.get('VERIF_CRASHLOG')

    def body(**kw):
        if time.time() > deadline and not last_fail:      # out of time: what was explored counts
            stat['incomplete'] = True
            return
        stat['evaluations'] += 1
        blob = pickle.dumps(kw, protocol=4)   # before the call: the code may modify arguments
        key = hashlib.sha1(blob).digest()
        if crashlog:
            try:
                with open(crashlog, 'wb') as f:
                    f.write(blob)
            except OSError:      # only a crash of the interpreter would have needed it
                pass
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            r = sub.fn(**kw)
        except (herr.UnsatisfiedAssumption, herr.StopTest, KeyboardInterrupt, MemoryError,
                HarnessError):
            raise
        except BaseException as e:
            if isinstance(e, OSError) and e.errno in (28, 12, 24):
                raise HarnessError(f'environment: {e!r}') from e
            last_fail.update(blob=blob, exc=e, tb=traceback.format_exc())
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if r and key not in seen:
            seen.add(key)
            stat['nontrivial'] += 1
            if len(stat['samples']) < 3 or (len(stat['samples']) < 6 and stat['nontrivial'] % 50 == 0):
                stat['samples'].append(f'{sub.name}: ' + short(pickle.loads(blob)))

    def fail(blob, exc, tb):
        kw = pickle.loads(blob)
        stat['failure'] = dict(blob=base64.b64encode(blob).decode(), args=short(kw, 3000),
                               exc=f'{type(exc).__name__}: {exc}'[:2000], tb=tb[-6000:])

    try:
        if shard == 0:
            for kw in sub.explicit:
                try:
                    body(**kw)
                except HarnessError:
                    raise
                except Exception:
                    fail(last_fail['blob'], last_fail['exc'], last_fail['tb'])
                    return stat
        if sub.strategies:
            t = given(**sub.strategies)(body)
            t = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                         report_multiple_bugs=False, derandomize=False,
                         phases=(Phase.generate,) if os.environ.get('VERIF_NOSHRINK') else (Phase.generate, Phase.shrink),
                         suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                HealthCheck.large_base_example])(t)
            t = hypothesis.seed(sub_seed(seed, ck.prop, sub.name, shard))(t)
            t()
        else:
            body()
    except HarnessError as e:
        stat['error'] = f'{e!r}\n' + traceback.format_exc()[-3000:]
    except (herr.FailedHealthCheck, herr.Unsatisfiable, herr.InvalidArgument, MemoryError) as e:
        stat['error'] = f'{e!r}\n' + traceback.format_exc()[-3000:]
    except Exception as e:
        if last_fail:
            fail(last_fail['blob'], last_fail['exc'], last_fail['tb'])
        else:
            stat['error'] = f'{e!r}\n' + traceback.format_exc()[-3000:]
    stat['labels'] = dict(ck.labels)
    stat['keys'] = seen
    return stat


# ---------------------------------------------------------------- helpers

@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='pyhipp_verif_', dir=SHM)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def eq_arr(a, b, msg='', dtype=False):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f'{msg}: shape {a.shape} != {b.shape}'
    if dtype:
        assert a.dtype == b.dtype, f'{msg}: dtype {a.dtype} != {b.dtype}'
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        ok = np.array_equal(a, b, equal_nan=True)
    else:
        ok = np.array_equal(a, b)
    assert ok, f'{msg}: {short(a)} != {short(b)}'


def close(a, b, rtol=1e-9, atol=0., msg=''):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape, f'{msg}: shape {a.shape} != {b.shape}'
    bad = ~(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
    bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        i = np.argmax(bad) if bad.ndim else 0
        raise AssertionError(
            f'{msg}: values differ (rtol={rtol}, atol={atol}): first at {i}: '
            f'{a.ravel()[i]!r} vs {b.ravel()[i]!r}; got {short(a)} expected {short(b)}')


def raises(exc, f, *a, msg='', **k):
    """f(*a, **k) must raise one of `exc`."""
    try:
        r = f(*a, **k)
    except exc:
        return
    raise AssertionError(f'{msg or f}: expected {exc}, returned {short(r)}')


def rng_of(seed):
    """Bulk data from a generated integer (the integer is the replayable choice)."""
    return np.random.Generator(np.random.PCG64(int(seed)))


def pick(*alts):
    """Weighted choice of strategies: each alternative is a strategy or (weight, strategy).
    (Nested `st.one_of`s are flattened by Hypothesis, which skews the weights.)"""
    idx = []
    strs = []
    for a in alts:
        w, s = a if isinstance(a, tuple) else (1, a)
        idx += [len(strs)] * w
        strs.append(s)
    return st.sampled_from(idx).flatmap(lambda i: strs[i])


def sized_lists(elem, lo, hi):
    """Lists whose length is uniform in [lo, hi]."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(elem, min_size=n, max_size=n))


# 64 independent random bits as one integer (st.integers would favour small values)
bits64 = st.binary(min_size=8, max_size=8).map(lambda b: int.from_bytes(b, 'little'))


def bool_array(bits, shape):
    n = int(np.prod(shape))
    return np.array([(bits >> (i % 64)) & 1 for i in range(n)], dtype=bool).reshape(shape)


def grid_sizes(small, big):
    """Mostly grids of 1..small cells a side, now and then a larger one."""
    a = st.integers(1, small)
    return st.one_of(a, a, a, a, a, st.integers(small + 1, big))


# sizes of inputs far above what drawing element by element reaches (the elements then come from `rng_of`)
big_sizes = pick(st.integers(60, 300), st.integers(300, 1200), st.integers(1200, 5000), st.integers(4500, 9000))
