"""Runtime contract evaluation on the real code.

Each oracle evaluates contracts of one property on one concrete input; inputs are
generated from (seed, oracle, index), so that a failure is replayed exactly by
   python -m rt.run --replay FILE
"""
import functools
import hashlib
import json
import random
import time
import traceback
import numpy as np

ORACLES = {}       # property -> [(name, function, quick cases, thorough cases)]


def oracle(prop, n, thorough=None):
    """n: cases in the quick tier"""
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            ORACLES.setdefault(p, []).append((f.__name__, f, n, thorough or 12*n))
        return f
    return deco


TRACE = []         # calls of the modelling routines made by the current case: (function, args, kwargs)


def traced(f):
    @functools.wraps(f)
    def g(*a, **k):
        if len(TRACE) < 12:
            TRACE.append((f, a, k))
        return f(*a, **k)
    return g


def rounding(shape):
    """how much the results of the case's modelling calls wobble when their real parameters change in the last digits
    (cancellation makes some responses pure rounding noise, e.g. components that vanish by symmetry)"""
    rng = np.random.default_rng(1)
    calls, tot = list(TRACE), 0.
    for f, a, k in calls:
        try:
            ref, dev = np.asarray(f(*a, **k)), 0.
            for _ in range(5):
                q = dict(k)
                for n in ('res', 'freqtime', 'aniso', 'mpermH', 'epermH'):
                    if q.get(n) is not None:
                        v = np.asarray(q[n], dtype=float)
                        q[n] = v*(1+int(rng.integers(-8, 9))*2.3e-16)      # equal layers stay equal
                dev = np.maximum(dev, np.abs(np.asarray(f(*a, **q))-ref))
            dev = dev.max(axis=(1, 2), keepdims=True) if np.ndim(dev) == 3 and len(shape) == 3 and shape[0] == dev.shape[0] else np.max(dev)
            tot = tot+dev
        except Exception:
            pass
    del TRACE[:]
    TRACE.extend(calls)
    return 1000*tot


class Fail(Exception):
    pass


def text(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x, threshold=60, precision=17)
    if isinstance(x, dict):
        return {str(k): text(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [text(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:2000]


class Case:
    """One evaluation; records inputs so that a failure can be reported."""

    def __init__(self, seed, name, index):
        h = int(hashlib.sha256(('%s/%s/%s' % (seed, name, index)).encode()).hexdigest()[:15], 16)
        self.rng = np.random.default_rng(h)
        self.index = index
        self.inputs = {}
        self.checks = 0
        self.trivial = False
        self.sig = None

    def note(self, **kw):
        self.inputs.update({k: text(v) for k, v in kw.items()})

    def ok(self, cond, what, **kw):
        self.checks += 1
        if not cond:
            self.note(**kw)
            raise Fail(what)

    def close(self, a, b, what, rtol=1e-9, atol=0.0, scale=None):
        """|a-b| <= rtol*scale + atol elementwise; scale defaults to max(|a|,|b|)"""
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.note(got_shape=str(a.shape), expected_shape=str(b.shape))
            raise Fail(what + ': shape')
        if a.size == 0:
            return
        s = np.maximum(np.abs(a), np.abs(b)) if scale is None else np.abs(scale)
        with np.errstate(invalid='ignore'):
            bad = ~(np.abs(a-b) <= rtol*s + atol)
        bad &= ~(a == b) & ~(np.isnan(a) & np.isnan(b))
        if bad.any() and TRACE:
            with np.errstate(invalid='ignore'):
                bad &= ~(np.abs(a-b) <= rtol*s + atol + rounding(a.shape))
        if bad.any():
            k = np.argwhere(bad)[0] if bad.ndim else ()
            self.note(got=a[tuple(k)] if len(np.shape(k)) and len(k) else a[()] if a.ndim == 0 else a,
                      expected=b[tuple(k)] if len(np.shape(k)) and len(k) else b[()] if b.ndim == 0 else b, at=str(list(map(int, k))))
            raise Fail(what)

    # random draws
    def u(self, a, b):
        return float(self.rng.uniform(a, b))

    def lu(self, a, b):
        return float(10**self.rng.uniform(np.log10(a), np.log10(b)))

    def i(self, a, b):
        return int(self.rng.integers(a, b+1))

    def pick(self, *xs):
        return xs[int(self.rng.integers(len(xs)))]

    def coin(self, p=.5):
        return bool(self.rng.random() < p)


def run_case(name, f, seed, index):
    c = Case(seed, name, index)
    del TRACE[:]
    try:
        f(c)
        return c, None
    except Fail as e:
        return c, str(e)
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc().strip().splitlines()
        c.note(traceback=tb[-8:])
        return c, 'exception %s: %s' % (type(e).__name__, str(e)[:300])


def run(prop, seed, tier, shard, nshard, wall, factor=1.0, start=0):
    t0 = time.time()
    res = dict(evaluations=0, checks=0, distinct=0, failures=[], samples=[], oracles={}, truncated=False)
    sigs = set()
    todo = ORACLES.get(prop, [])
    for k, (name, f, nq, nt) in enumerate(todo):
        n = int((nq if tier == 'quick' else nt)*factor)
        n = max(n, 1)
        limit = t0 + wall*(k+1)/len(todo)
        nfail = 0
        for idx in range(start+shard, start+n, nshard):
            if time.time() > limit:
                res['truncated'] = True
                break
            c, err = run_case(name, f, seed, idx)
            res['evaluations'] += 1
            res['checks'] += c.checks
            res['oracles'][name] = res['oracles'].get(name, 0)+1
            if c.checks and not c.trivial:
                sigs.add((name, json.dumps(c.inputs, sort_keys=True, default=str)[:4000], idx if not c.inputs else 0))
            if len(res['samples']) < 3 and idx == start+shard and c.inputs:
                res['samples'].append(dict(oracle=name, index=idx, inputs=c.inputs))
            if err is not None:
                res['failures'].append(dict(property=prop, oracle=name, seed=seed, index=idx, what=err, inputs=c.inputs))
                nfail += 1
                if nfail >= 25:
                    break
    res['distinct'] = len(sigs)
    res['wall_s'] = time.time()-t0
    return res
