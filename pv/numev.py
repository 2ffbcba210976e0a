"""Numeric evaluation of terms: used only to tell a refuted obligation (a model
of the path condition in which the two sides differ) from one the normal form
merely cannot settle.  Never used to accept an obligation."""
import cmath
import hashlib
import random
import z3
from fractions import Fraction as Fr
from . import terms as tm
from .terms import lit

BIG = 3000.0


class NoValue(Exception):
    pass


def _key(v):
    if isinstance(v, complex):
        return '%.9g,%.9g' % (v.real, v.imag)
    return '%.9g' % v


class Model:
    def __init__(self, facts, seed, unfold=None, ctx=None, extra=()):
        self.rnd = random.Random(seed)
        self.seed = seed
        self.unfold = unfold
        self.ctx = ctx
        self.vals = {}
        self.tab = {}
        self.memo = {}
        self.m = None
        if ctx is not None:
            self.solve(extra)

    def solve(self, extra):
        ctx = self.ctx
        s = ctx.s
        s.push()
        try:
            for t in extra:
                s.add(ctx.map.bool(tm.tob(t)))
            for c in ctx.map.side[ctx.nside:]:
                s.add(c)
            if s.check() != z3.sat:
                raise NoValue('facts not satisfiable')
            # prefer small, varied integers and distinct reals
            ints = [(t, v) for t, v in ctx.map.m.items() if z3.is_int(v) and t.op in ('v',)]
            self.rnd.shuffle(ints)
            for t, v in ints:
                for c in (z3.And(v >= 0, v <= 5), v == self.rnd.randint(0, 4), v != 0):
                    s.push()
                    s.add(c)
                    if s.check() != z3.sat:
                        s.pop()
                        s.check()
                    else:
                        s.pop()
                        s.add(c)
            reals = [(t, v) for t, v in ctx.map.m.items() if z3.is_const(v) and z3.is_real(v) and t.op in ('v', 'f') and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]
            for t, v in reals[:40]:
                r = Fr(self.rnd.randint(-300, 900), 100)
                for c in (v == z3.RealVal(str(r)), v != 0):
                    s.push()
                    s.add(c)
                    ok = s.check() == z3.sat
                    s.pop()
                    if ok:
                        s.add(c)
                        break
            if s.check() == z3.sat:
                self.m = s.model()
                for t, v in list(ctx.map.m.items()):
                    if t.op == 'v':
                        x = self.m.eval(v, model_completion=False)
                        f = self._z(x)
                        if f is not None:
                            self.vals[t] = f
                known = [(t, v) for t, v in ctx.map.m.items() if t.op == 'f' and t.sort in 'IR' and t.args[0] not in BUILT]
                for t, v in known:
                    f = self._z(self.m.eval(v, model_completion=False))
                    if f is not None and not any(x.op == 'v' and x.args[0].startswith('#') for x in tm.fv(t)):
                        try:
                            k = (t.args[0],) + tuple(a if isinstance(a, str) else _key(self.ev(a)) for a in t.args[1:])
                        except NoValue:
                            continue
                        self.tab.setdefault(k, f)
                self.memo.clear()
        finally:
            s.pop()

    def _z(self, x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return float(x.numerator_as_long())/float(x.denominator_as_long())
        if z3.is_algebraic_value(x):
            return float(x.approx(20).as_fraction())
        return None

    def rand(self, key, sort):
        h = random.Random(int(hashlib.sha256((repr(key)+str(self.seed)).encode()).hexdigest()[:12], 16))
        if sort == 'I':
            return h.randint(0, 4)
        if sort == 'R':
            return h.uniform(0.3, 2.0)
        return complex(h.uniform(0.3, 1.5), h.uniform(-.8, .8))

    def ev(self, t, env=None):
        t = lit(t)
        if env is None or not env:
            r = self.memo.get(t)
            if r is None:
                r = self._ev(t, {})
                self.memo[t] = r
            return r
        return self._ev(t, env)

    def _ev(self, t, env):
        op = t.op
        if op == 'c':
            v = t.args[0]
            return int(v) if t.sort == 'I' else float(v)
        if op == 'IU':
            return 1j
        if op == 'pi':
            return cmath.pi
        if op == 'INF':
            return BIG
        if op == 'v':
            if t in env:
                return env[t]
            if t not in self.vals:
                self.vals[t] = self.rand(('v', t.args[0]), t.sort)
            return self.vals[t]
        if op == '+':
            a = t.args
            r = float(a[0]) if a[0].denominator != 1 else int(a[0])
            for i in range(1, len(a), 2):
                k = a[i+1]
                r = r + (int(k) if k.denominator == 1 else float(k))*self.ev(a[i], env)
            return r
        if op == '*':
            a = t.args
            r = 1
            for i in range(0, len(a), 2):
                x = self.ev(a[i], env)
                try:
                    r = r * x**int(a[i+1])
                except ZeroDivisionError:
                    raise NoValue('division by zero')
            return r
        if op == 'ite':
            return self.ev(t.args[1] if self.evb(t.args[0], env) else t.args[2], env)
        if op == 'sum':
            v, lo, hi, b = t.args
            r = 0
            for k in range(int(self.ev(lo, env)), int(self.ev(hi, env))):
                e = dict(env)
                e[v] = k
                r = r + self.ev(b, e)
            return r
        if t.sort == 'B':
            return 1 if self.evb(t, env) else 0
        if op == 'f':
            n = t.args[0]
            if n in BUILT:
                xs = [self.ev(a, env) for a in t.args[1:]]
                try:
                    return BUILT[n](*xs)
                except (OverflowError, ZeroDivisionError, ValueError):
                    raise NoValue(n)
            xs = [a if isinstance(a, str) else self.ev(a, env) for a in t.args[1:]]
            k = (n,) + tuple(x if isinstance(x, str) else _key(x) for x in xs)
            if k in self.tab:
                return self.tab[k]
            if self.unfold is not None:
                try:
                    u = self.unfold(tm.fn(n, *[x if isinstance(x, str) else lit(x) if isinstance(x, int) else a
                                               for x, a in zip(xs, t.args[1:])], sort=t.sort), ConcCtx(self))
                except Exception:
                    u = None
                if u is not None and u is not t:
                    r = self.ev(u, env)
                    self.tab[k] = r
                    return r
            r = self.rand(k, t.sort)
            self.tab[k] = r
            return r
        raise NoValue(op)

    def evb(self, t, env=None):
        env = env or {}
        op = t.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'not':
            return not self.evb(t.args[0], env)
        if op == 'and':
            return all(self.evb(a, env) for a in t.args)
        if op == '<=0':
            v = self.ev(t.args[0], env)
            if isinstance(v, complex):
                v = v.real
            return v <= 1e-12
        if op == '==0':
            return abs(self.ev(t.args[0], env)) <= 1e-12
        if op == 'all':
            v, lo, hi, b = t.args
            for k in range(int(self.ev(lo, env)), int(self.ev(hi, env))):
                e = dict(env)
                e[v] = k
                if not self.evb(b, e):
                    return False
            return True
        if op == 'v':
            if t not in self.vals:
                self.vals[t] = self.rnd.random() < .5
            return self.vals[t]
        if op == 'f':
            xs = [a if isinstance(a, str) else self.ev(a, env) for a in t.args[1:]]
            k = (t.args[0],) + tuple(x if isinstance(x, str) else _key(x) for x in xs)
            if k not in self.tab:
                self.tab[k] = self.rnd.random() < .5
            return self.tab[k]
        raise NoValue(op)


class ConcCtx:
    """decides conditions by evaluation (for unfolding at concrete indices)"""

    def __init__(self, m):
        self.m = m

    def decide(self, c):
        return self.m.evb(tm.tob(c))

    def entails(self, c):
        return self.m.evb(tm.tob(c))


def _c(x):
    return x if isinstance(x, complex) else float(x)


def _sqrt(x):
    if isinstance(x, complex):
        return cmath.sqrt(x)
    return x**.5 if x >= 0 else cmath.sqrt(x)


def _exp(x):
    if isinstance(x, complex):
        if x.real < -700:
            return 0.0
        return cmath.exp(x)
    if x < -700:
        return 0.0
    return cmath.exp(x).real


BUILT = {'exp': _exp, 'sqrt': _sqrt, 'abs': abs, 'conj': lambda x: complex(x).conjugate(), 're': lambda x: complex(x).real,
         'im': lambda x: complex(x).imag, 'sin': lambda x: cmath.sin(x) if isinstance(x, complex) else cmath.sin(x).real,
         'cos': lambda x: cmath.cos(x) if isinstance(x, complex) else cmath.cos(x).real,
         'log': lambda x: cmath.log(x) if isinstance(x, complex) or x < 0 else cmath.log(x).real,
         'floordiv': lambda a, b: a//b, 'mod': lambda a, b: a % b, 'trunc': lambda a: int(a.real if isinstance(a, complex) else a)}


def quick(ctx, a, b, unfold=None, seed=0):
    """Cheap search for a model of the facts with a != b (one solver call)."""
    try:
        if ctx.s.check() != z3.sat:
            return None
        z = ctx.s.model()
        m = Model([], seed, unfold)
        known = []
        rel, seen = set(), set()
        for q in [a, b] + [f for f in ctx.facts if f is not None]:
            tm.atoms_of(tm.lit(q), rel, seen)
        for t in sorted(rel, key=lambda q: q.id):
            v = ctx.map.m.get(t)
            if v is None:
                continue
            if t.op == 'v' or (t.op == 'f' and t.sort in 'IR' and t.args[0] not in BUILT):
                f = m._z(z.eval(v, model_completion=False)) if t.sort in 'IR' else None
                if f is None:
                    continue
                if t.op == 'v':
                    m.vals[t] = f
                else:
                    known.append((t, f))
        for t, f in known:
            if any(x.op == 'v' and x.args[0].startswith('#') for x in tm.fv(t)):
                continue
            m.tab.setdefault((t.args[0],) + tuple(x if isinstance(x, str) else _key(m.ev(x)) for x in t.args[1:]), f)
        m.memo.clear()
        x, y = m.ev(a), m.ev(b)
        if abs(x-y) > 1e-6*(abs(x)+abs(y)) + 1e-12:
            facts = [f for f in ctx.facts if f is not None]
            if all(m.evb(f) for f in facts):
                vals = {tm.show(t): v for t, v in m.vals.items()}
                return 'values %.6g%+.6gj / %.6g%+.6gj at %s' % (complex(x).real, complex(x).imag, complex(y).real, complex(y).imag,
                                                                 dict(sorted(vals.items())))
            import os
            if os.environ.get('PV_NUM'):
                print('FACTS', [tm.show(f)[:300] for f in facts if not m.evb(f)], x, y)
    except (NoValue, OverflowError, RecursionError, ZeroDivisionError, TypeError) as e:
        import os
        if os.environ.get('PV_NUM'):
            import traceback
            traceback.print_exc(limit=-3)
    return None


def refute(ctx, a, b, unfold=None, tries=6, seed=0):
    """a model of ctx's facts in which a != b, as a short text; None if none was found."""
    for k in range(tries):
        try:
            m = Model([], seed+k, unfold, ctx)
            if m.m is None:
                continue
            facts = [f for f in ctx.facts if f is not None]
            if not all(m.evb(f) for f in facts):
                continue
            if tm.lit(a).sort == 'B' or tm.lit(b).sort == 'B':
                x, y = m.evb(tm.tob(a)), m.evb(tm.tob(b))
                if x != y:
                    return 'values %s / %s at %s' % (x, y, m.vals)
                continue
            x, y = m.ev(a), m.ev(b)
            if abs(x-y) > 1e-7*(abs(x)+abs(y)) + 1e-13:
                vals = {tm.show(t): v for t, v in m.vals.items()}
                return 'values %.6g%+.6gj / %.6g%+.6gj at %s' % (complex(x).real, complex(x).imag, complex(y).real, complex(y).imag,
                                                                 dict(sorted(vals.items())))
        except (NoValue, OverflowError, RecursionError, ZeroDivisionError, TypeError):
            continue
    return None
