"""Monitors, scenarios and verdicts.

A scenario is a workload: a function that drives the real code and reports every observation to a monitor. The monitor
counts the events it saw, the distinct cases among them and the oracle's decisions; a refuted observation is a
violation. Three verdicts: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2: a scenario
observed nothing, was stopped by the watchdog or the harness lacks something it needs).
"""
import hashlib
import json
import math
import os
import time
import traceback
import zlib

import numpy as np

SCENARIOS = {}  # property -> list of Scenario


class Scenario:
    def __init__(self, prop, name, fn, tiers, weight, min_events, shards):
        self.prop, self.name, self.fn, self.tiers = prop, name, fn, tiers
        self.weight, self.min_events, self.shards = weight, min_events, shards


def scenario(prop, name=None, tiers=('quick', 'thorough'), weight=1, min_events=1, shards=None):
    """`shards`: {'quick': n, 'thorough': m}, the number of independent repetitions with different random streams"""

    def deco(fn):
        SCENARIOS.setdefault(prop, []).append(
            Scenario(prop, name or fn.__name__, fn, tiers, weight, min_events, shards or {}))
        return fn

    return deco


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, bool, type(None))):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if math.isfinite(x) else repr(float(x))
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, np.ndarray):
        if x.size > 200:
            return {'shape': list(x.shape), 'dtype': str(x.dtype), 'head': jsonable(x.ravel()[:50].tolist(), depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    return repr(x)[:500]


class Raised:
    """The call under observation raised"""

    def __init__(self, exc):
        self.exc = exc
        self.tb = traceback.format_exc()

    def __repr__(self):
        return f'raised {type(self.exc).__name__}: {self.exc}'


class Monitor:
    MAX_VIOLATIONS = 12

    def __init__(self, prop, scen, shard, seed, tier):
        self.prop, self.scen, self.shard, self.seed, self.tier = prop, scen, shard, seed, tier
        self.thorough = tier == 'thorough'
        self.rng = np.random.default_rng([seed & 0xffffffff, zlib.crc32(f'{prop}/{scen}'.encode()), shard])
        np.random.seed(int(self.rng.integers(2 ** 31)))
        self.events = 0
        self.oracle = 0
        self.keys = set()
        self.trivial = 0
        self.samples = []
        self.violations = []
        self.counters = {}
        self.last_beat = time.time()

    # --- observations -------------------------------------------------------------------------------------------
    def case(self, *key, trivial=False, sample=None):
        """One generated case / execution; `key` identifies it, so that repetitions are counted once"""
        self.events += 1
        if trivial:
            self.trivial += 1
        else:
            self.keys.add(hashlib.blake2b(repr(jsonable(key)).encode(), digest_size=8).digest())
        if len(self.samples) < 3 and not trivial:
            self.samples.append(jsonable(sample if sample is not None else key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # --- the oracle ---------------------------------------------------------------------------------------------
    def fail(self, what, **ctx):
        def safe(x):
            try:
                return jsonable(x)
            except Exception as e:
                return f'not printable: {e!r}'

        if sum(v['what'] == what for v in self.violations) < 3 and len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append({'what': what, 'context': safe(ctx), 'scenario': self.scen, 'shard': self.shard})
        return False

    def ok(self, cond, what, **ctx):
        self.oracle += 1
        try:
            good = bool(cond)
        except Exception as e:
            good = False
            ctx['condition_error'] = repr(e)
        return True if good else self.fail(what, args=ctx)

    def close(self, got, want, what, rtol=1e-9, atol=0.0, **ctx):
        """every element of `got` is within atol + rtol * |want| of `want`; equal infinities and NaNs count as equal"""
        self.oracle += 1
        if isinstance(got, Raised):
            return self.fail(what + ': unexpected exception', error=repr(got), tb=got.tb[-1500:], args=ctx)
        try:
            g, w = np.asarray(got), np.asarray(want)
            if g.dtype == object or g.dtype.kind not in 'biufc':
                g = g.astype(complex if w.dtype.kind == 'c' else float)
            if g.shape != w.shape:
                return self.fail(what + ': shape', **{**ctx, 'got_shape': g.shape, 'want_shape': w.shape, 'got': g,
                                                      'want': w})
            with np.errstate(all='ignore'):
                bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w)))
        except Exception as e:
            return self.fail(what + ': not comparable', **{**ctx, 'got': got, 'want': want, 'error': repr(e)})
        if bad.any():
            idx = np.argwhere(bad)[:5].tolist()
            return self.fail(what, **{'index': idx, 'got': g[bad][:5], 'want': w[bad][:5], 'n_bad': int(bad.sum()),
                                      'n_total': int(bad.size), 'args': ctx})
        return True

    def call(self, fn, *args, **kwargs):
        try:
            return fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            return Raised(e)

    def must(self, what, fn, *args, **kwargs):
        """Calls; an exception is a violation, and None is returned"""
        r = self.call(fn, *args, **kwargs)
        self.oracle += 1
        if isinstance(r, Raised):
            self.fail(what + ': unexpected exception', error=repr(r), tb=r.tb[-1500:], args=args, kwargs=kwargs)
            return None
        return r

    def raises(self, what, exc, fn, *args, **kwargs):
        r = self.call(fn, *args, **kwargs)
        self.oracle += 1
        if not isinstance(r, Raised):
            return self.fail(what + ': not rejected', result=r, args=args, kwargs=kwargs)
        if not isinstance(r.exc, exc):
            return self.fail(what + ': rejected with the wrong exception', error=repr(r), args=args, kwargs=kwargs)
        return True

    def result(self):
        return {
            'scenario': self.scen, 'shard': self.shard, 'events': self.events, 'oracle': self.oracle,
            'keys': self.keys, 'trivial': self.trivial, 'samples': self.samples, 'violations': self.violations,
            'counters': self.counters,
        }
