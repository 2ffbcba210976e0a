"""Hash-consed terms: the logic the verification conditions are written in.

Numbers are mathematical (exact rationals; reals and complex numbers are
elements of a field; machine rounding is not modelled).  Sorts:
  'I' integer, 'R' real, 'C' complex, 'B' boolean.
"""
from fractions import Fraction as Fr
import itertools

_TAB = {}
_ORD = {'I': 0, 'R': 1, 'C': 2}


class Unsupported(Exception):
    """The code leaves the subset the verifier understands."""


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_ites', '__weakref__')
    __array_priority__ = 1000
    __array_ufunc__ = None
    decide = None          # set by the interpreter: T(bool) -> bool

    def __hash__(self):
        return self.id

    def __eq__(self, o):        # structural/semantic: returns a T
        return cmp_eq(self, o)

    def __ne__(self, o):
        return not_(cmp_eq(self, o))

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, neg(o))
    def __rsub__(self, o): return add(o, neg(self))
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return abs_(self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(self): return not_(self)

    def __bool__(self):
        if self.op == 'true':
            return True
        if self.op == 'false':
            return False
        if T.decide is None:
            raise Unsupported('undecided condition: %s' % show(self))
        return T.decide(self)

    def __index__(self):
        v = as_int(self)
        if v is None:
            raise Unsupported('symbolic value used as a concrete integer: %s' % show(self))
        return v
    __int__ = __index__

    def __float__(self):
        if self.op == 'c':
            return float(self.args[0])
        raise Unsupported('symbolic value used as a concrete float: %s' % show(self))

    def __repr__(self):
        return show(self)

    # numpy scalar attributes
    @property
    def real(self): return re_(self)
    @property
    def imag(self): return im_(self)
    def conjugate(self): return conj_(self)
    conj = conjugate
    shape = ()
    ndim = 0
    size = 1


def mk(op, args, sort):
    key = (op, sort) + tuple(a.id if isinstance(a, T) else a for a in args)
    t = _TAB.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.id = len(_TAB)
        t._fv = None
        t._ites = None
        _TAB[key] = t
    return t


def is_t(x):
    return isinstance(x, T)


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
IU = mk('IU', (), 'C')
PI = mk('pi', (), 'R')
INF = mk('INF', (), 'R')


def lit(x):
    """Python number/bool/T -> T."""
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk('c', (Fr(x),), 'I')
    if isinstance(x, Fr):
        return mk('c', (x,), 'R')
    if isinstance(x, float):
        if x == float('inf'):
            return INF
        if x == float('-inf'):
            return neg(INF)
        if x != x:
            return fn('nan', sort='R')
        import math
        if x == math.pi:
            return PI
        return mk('c', (flit(x),), 'R')
    if isinstance(x, complex):
        return add(lit(x.real), mul(lit(x.imag), IU))
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return lit(bool(x))
        if isinstance(x, np.integer):
            return lit(int(x))
        if isinstance(x, np.floating):
            return lit(float(x))
        if isinstance(x, np.complexfloating):
            return lit(complex(x))
    except ImportError:
        pass
    raise Unsupported('not a number: %r' % (x,))


def flit(x):
    """A float literal stands for the decimal number the programmer wrote."""
    return Fr(repr(x))


def const(x, sort='R'):
    return mk('c', (Fr(x),), sort)


def sym(name, sort):
    return mk('v', (name,), sort)


_cnt = itertools.count()


def fresh(name, sort):
    return sym('%s!%d' % (name, next(_cnt)), sort)


def cval(t):
    return t.args[0] if t.op == 'c' else None


def as_int(t):
    if isinstance(t, bool):
        return None
    if isinstance(t, int):
        return t
    if isinstance(t, T) and t.op == 'c' and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


def unlit(t):
    """T constants of integer sort / bools back to Python values."""
    if isinstance(t, T):
        if t.op == 'c' and t.sort == 'I':
            return int(t.args[0])
        if t is TRUE:
            return True
        if t is FALSE:
            return False
    return t


def jsort(*ts):
    return max((t.sort for t in ts), key=lambda s: _ORD[s])


# ---- sums and products --------------------------------------------------
# '+' node: args = (('const', Fr), (mono, Fr), ...) flattened as tuples
# stored as: args = (Fr const, mono1, coef1, mono2, coef2, ...)
# '*' node: args = (atom1, exp1, atom2, exp2, ...), no coefficient

def _parts(t):
    """t -> (const, {mono: coef})"""
    if t.op == 'c':
        return t.args[0], {}
    if t.op == '+':
        a = t.args
        return a[0], {a[i]: a[i+1] for i in range(1, len(a), 2)}
    return Fr(0), {t: Fr(1)}


def _mksum(c, d, sort):
    items = sorted(((m, k) for m, k in d.items() if k != 0), key=lambda q: q[0].id)
    if not items:
        return mk('c', (c,), 'I' if (sort == 'I') else 'R') if sort != 'C' else mk('c', (c,), 'R')
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    args = [c]
    for m, k in items:
        args += [m, k]
    return mk('+', tuple(args), sort)


def _b2i(t):
    if t.sort == 'B':
        if t is TRUE:
            return lit(1)
        if t is FALSE:
            return lit(0)
        return ite(t, lit(1), lit(0))
    return t


def add(*ts):
    ts = [_b2i(lit(t)) for t in ts]
    sort = jsort(*ts)
    c, d = Fr(0), {}
    for t in ts:
        tc, td = _parts(t)
        c += tc
        for m, k in td.items():
            d[m] = d.get(m, 0) + k
    return _mksum(c, d, sort)


def neg(t):
    t = _b2i(lit(t))
    c, d = _parts(t)
    return _mksum(-c, {m: -k for m, k in d.items()}, t.sort)


def _facts(t):
    """mono term -> {atom: exp}"""
    if t.op == '*':
        a = t.args
        return {a[i]: a[i+1] for i in range(0, len(a), 2)}
    return {t: 1}


def _mkprod(coef, f, sort):
    # I^2 = -1
    if IU in f:
        e = f[IU] % 4
        del f[IU]
        if e == 1:
            f[IU] = 1
        elif e == 2:
            coef = -coef
        elif e == 3:
            coef = -coef
            f[IU] = 1
    items = sorted(((a, e) for a, e in f.items() if e != 0), key=lambda q: q[0].id)
    if not items or coef == 0:
        return mk('c', (coef,), 'I' if sort == 'I' else 'R')
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
    else:
        args = []
        for a, e in items:
            args += [a, e]
        m = mk('*', tuple(args), sort)
    if coef == 1:
        return m
    c, d = _parts(m)
    return _mksum(c*coef, {k: v*coef for k, v in d.items()}, sort)


def mul(*ts):
    ts = [_b2i(lit(t)) for t in ts]
    sort = jsort(*ts)
    coef, f = Fr(1), {}
    sums = []
    for t in ts:
        if t.op == 'c':
            coef *= t.args[0]
            continue
        c, d = _parts(t)
        if c == 0 and len(d) == 1:
            (m, k), = d.items()
            coef *= k
            for a, e in _facts(m).items():
                f[a] = f.get(a, 0) + e
        elif sort == 'I':
            sums.append((c, d))
        else:
            f[t] = f.get(t, 0) + 1
    if coef == 0:
        return mk('c', (Fr(0),), 'I' if sort == 'I' else 'R')
    out = _mkprod(coef, f, sort)
    for c, d in sums:      # integers: distribute
        oc, od = _parts(out)
        acc = [mk('c', (c*oc,), 'I')]
        for m, k in d.items():
            if oc:
                acc.append(_mksum(Fr(0), {m: k*oc}, 'I'))
            for m2, k2 in od.items():
                ff = dict(_facts(m))
                for a, e in _facts(m2).items():
                    ff[a] = ff.get(a, 0) + e
                acc.append(_mkprod(k*k2, ff, 'I'))
        for m2, k2 in od.items():
            if c:
                acc.append(_mksum(Fr(0), {m2: k2*c}, 'I'))
        out = add(*acc)
    return out


def inv(t):
    t = _b2i(lit(t))
    if t.op == 'c':
        if t.args[0] == 0:
            raise Unsupported('division by the constant zero')
        return mk('c', (1/t.args[0],), 'R')
    c, d = _parts(t)
    sort = 'R' if t.sort == 'I' else t.sort
    if t is INF or t is neg(INF):
        return mk('c', (Fr(0),), 'R')
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        return _mkprod(1/k, {a: -e for a, e in _facts(m).items()}, sort)
    return mk('*', (t, -1), sort)


def div(a, b):
    a, b = lit(a), lit(b)
    r = mul(toreal(a), inv(b))
    return r


def toreal(t):
    t = _b2i(lit(t))
    if t.op == 'c' and t.sort == 'I':
        return mk('c', t.args, 'R')
    return t


DIV0 = []


def power(b, e):
    b, e = lit(b), lit(e)
    if e.op == 'c':
        ev = e.args[0]
        if ev.denominator == 1:
            n = int(ev)
            if n == 0:
                return lit(1)
            if b.op == 'c':
                if b.args[0] == 0 and n < 0:
                    if DIV0:
                        return fn('1/0', sort='R')      # in a case the prover splits off: an unknown value, like every quotient by zero
                    raise Unsupported('0 ** negative')
                return mk('c', (b.args[0]**n,), b.sort if n > 0 else 'R')
            if n < 0:
                return power(inv(b), -n)
            c, d = _parts(b)
            if c == 0 and len(d) == 1:
                (m, k), = d.items()
                return _mkprod(k**n, {a: x*n for a, x in _facts(m).items()}, b.sort)
            if b.sort == 'I':
                r = b
                for _ in range(n-1):
                    r = mul(r, b)
                return r
            return mk('*', (b, n), b.sort)
        if ev.denominator == 2:
            s = sqrt_(b)
            return power(s, lit(int(ev*2)))
    if b.op == 'c' and b.args[0] == 10:
        return fn('exp', mul(fn('ln10', sort='R'), e), sort=e.sort if e.sort != 'I' else 'R')
    return fn('pow', b, e, sort=jsort(b, e, lit(1.0)))


def floordiv(a, b):
    a, b = lit(a), lit(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        r = ca // cb
        return mk('c', (Fr(r),), 'I' if a.sort == b.sort == 'I' else 'R')
    if cb == 1 and a.sort == 'I':
        return a
    return fn('floordiv', a, b, sort='I' if a.sort == b.sort == 'I' else 'R')


def mod(a, b):
    a, b = lit(a), lit(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        return mk('c', (ca % cb,), 'I' if a.sort == b.sort == 'I' else 'R')
    return fn('mod', a, b, sort='I' if a.sort == b.sort == 'I' else 'R')


# ---- functions ----------------------------------------------------------
REWRITE = {}      # name -> function of the arguments giving a term or None (definitions of symbols introduced by contracts)


def fn(name, *args, sort='C'):
    if name in REWRITE:
        r = REWRITE[name](*args)
        if r is not None:
            return r
    return mk('f', (name,) + tuple(lit(a) if not isinstance(a, str) else a for a in args), sort)


def _num(t):
    return t.op == 'c'


def exp_(t):
    t = _b2i(lit(t))
    if t.op == 'c' and t.args[0] == 0:
        return mk('c', (Fr(1),), 'R')
    return fn('exp', t, sort='R' if t.sort == 'I' else t.sort)


def sqrt_(t):
    t = _b2i(lit(t))
    if t.op == 'c' and t.args[0] >= 0:
        import math
        v = t.args[0]
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n*n == v.numerator and d*d == v.denominator:
            return mk('c', (Fr(n, d),), 'R')
    return fn('sqrt', t, sort='R' if t.sort == 'I' else t.sort)


def abs_(t):
    t = _b2i(lit(t))
    if t.op == 'c':
        return mk('c', (abs(t.args[0]),), t.sort)
    if t.sort == 'C':
        return fn('abs', t, sort='R')
    return ite(le(lit(0), t), t, neg(t))


def sign_(t):
    t = lit(t)
    if t.op == 'c':
        return lit((t.args[0] > 0) - (t.args[0] < 0))
    s = 'I' if t.sort == 'I' else 'R'
    one = mk('c', (Fr(1),), s)
    return ite(lt(0, t), one, ite(lt(t, 0), neg(one), mk('c', (Fr(0),), s)))


def conj_(t):
    t = lit(t)
    if t.sort in 'IRB':
        return t
    if t is IU:
        return neg(IU)
    if t.op == '+':
        c, d = _parts(t)
        return add(mk('c', (c,), 'R'), *[mul(mk('c', (k,), 'R'), conj_(m)) for m, k in d.items()])
    if t.op == '*':
        out = lit(1)
        for a, e in _facts(t).items():
            out = mul(out, power(conj_(a), lit(e)) if e > 0 else inv(power(conj_(a), lit(-e))))
        return out
    if t.op == 'ite':
        return ite(t.args[0], conj_(t.args[1]), conj_(t.args[2]))
    if t.op == 'f' and t.args[0] == 'conj':
        return t.args[1]
    if t.op == 'f' and t.args[0] in ('exp',):
        return fn('exp', conj_(t.args[1]), sort='C')
    if t.op == 'sum':
        return mk('sum', t.args[:3] + (conj_(t.args[3]),), 'C')
    return fn('conj', t, sort='C')


def re_(t):
    t = lit(t)
    if t.sort in 'IRB':
        return t
    if t is IU:
        return lit(0)
    if t.op == 'f' and t.args[0] == 'conj':
        return re_(t.args[1])
    if t.op == '+':
        c, d = _parts(t)
        return add(mk('c', (c,), 'R'), *[mul(mk('c', (k,), 'R'), re_(m)) for m, k in d.items()])
    if t.op == '*':
        f = _facts(t)
        real = {a: e for a, e in f.items() if a.sort in 'IR'}
        rest = {a: e for a, e in f.items() if a.sort == 'C'}
        if IU in rest and rest[IU] == 1:
            r2 = {a: e for a, e in rest.items() if a is not IU}
            m2 = _mkprod(Fr(1), dict(r2), 'C') if r2 else lit(1)
            v = neg(im_(m2))
        elif real:
            v = re_(_mkprod(Fr(1), dict(rest), 'C'))
        else:
            return fn('re', t, sort='R')
        return mul(_mkprod(Fr(1), dict(real), 'R'), v) if real else v
    if t.op == 'ite':
        return ite(t.args[0], re_(t.args[1]), re_(t.args[2]))
    if t.op == 'sum':
        return mk('sum', t.args[:3] + (re_(t.args[3]),), 'R')
    return fn('re', t, sort='R')


def im_(t):
    t = lit(t)
    if t.sort in 'IRB':
        return lit(0)
    if t is IU:
        return lit(1)
    if t.op == 'f' and t.args[0] == 'conj':
        return neg(im_(t.args[1]))
    if t.op == '+':
        c, d = _parts(t)
        return add(*[mul(mk('c', (k,), 'R'), im_(m)) for m, k in d.items()])
    if t.op == '*':
        f = _facts(t)
        real = {a: e for a, e in f.items() if a.sort in 'IR'}
        rest = {a: e for a, e in f.items() if a.sort == 'C'}
        if IU in rest and rest[IU] == 1:
            r2 = {a: e for a, e in rest.items() if a is not IU}
            m2 = _mkprod(Fr(1), dict(r2), 'C') if r2 else lit(1)
            v = re_(m2)
        elif real:
            v = im_(_mkprod(Fr(1), dict(rest), 'C'))
        else:
            return fn('im', t, sort='R')
        return mul(_mkprod(Fr(1), dict(real), 'R'), v) if real else v
    if t.op == 'ite':
        return ite(t.args[0], im_(t.args[1]), im_(t.args[2]))
    if t.op == 'sum':
        return mk('sum', t.args[:3] + (im_(t.args[3]),), 'R')
    return fn('im', t, sort='R')


# ---- booleans ----------------------------------------------------------
def tob(x):
    x = lit(x)
    if x.sort == 'B':
        return x
    return not_(cmp_eq(x, lit(0)))


def _inf_coef(t):
    """t = c*INF + finite  -> c (Fr) if it has INF linearly, else 0; None if unknown"""
    c, d = _parts(t)
    k = d.get(INF)
    if k is not None:
        return k
    for m in d:
        if m.op == '*' and INF in _facts(m):
            return None
    return 0


def _inf_ite(d):
    """an if-then-else with an infinite branch, linearly in d"""
    for m in _parts(d)[1]:
        if m.op == 'ite' and any(_inf_in(x) for x in m.args[1:]):
            return m
    return None


def _inf_in(t):
    return t is INF or t.op in ('+', '*', 'ite') and any(_inf_in(c) for c in children(t))


def lt(a, b):
    a, b = _b2i(lit(a)), _b2i(lit(b))
    if a.sort == 'C' or b.sort == 'C':
        raise Unsupported('ordering of complex numbers')
    d = add(b, neg(a))          # a < b  <=> 0 < d
    if d.op == 'c':
        return TRUE if d.args[0] > 0 else FALSE
    m = _inf_ite(d)
    if m is not None:
        c, x, y = m.args
        return or_(and_(c, lt(0, subst(d, {m: x}))), and_(not_(c), lt(0, subst(d, {m: y}))))
    k = _inf_coef(d)
    if k:
        return TRUE if k > 0 else FALSE
    if a.sort == 'I' and b.sort == 'I':
        return le0(add(1, neg(d)))          # 1 - d <= 0
    return not_(le0(d))                    # not (d <= 0)


def le(a, b):
    a, b = _b2i(lit(a)), _b2i(lit(b))
    if a.sort == 'C' or b.sort == 'C':
        raise Unsupported('ordering of complex numbers')
    d = add(a, neg(b))
    if d.op == 'c':
        return TRUE if d.args[0] <= 0 else FALSE
    m = _inf_ite(d)
    if m is not None:
        c, x, y = m.args
        return or_(and_(c, le(subst(d, {m: x}), 0)), and_(not_(c), le(subst(d, {m: y}), 0)))
    k = _inf_coef(d)
    if k:
        return TRUE if k < 0 else FALSE
    return le0(d)


def le0(d):
    """d <= 0, normalised by positive scaling."""
    c, p = _parts(d)
    if d.sort == 'I' and len(p) <= 2:
        # an index introduced by a contract, 0 <= i < n
        for x, k in p.items():
            if x.op == 'f' and x.args[0].startswith('index:'):
                if k == -1 and c <= 0 and len(p) == 1:
                    return TRUE
                if k == 1 and c <= 1 and p.get(x.args[1]) == -1:
                    return TRUE
    lead = p[min(p, key=lambda m: m.id)]
    s = abs(lead)
    d = _mksum(c/s, {m: k/s for m, k in p.items()}, d.sort)
    if d.sort == 'I':
        c, p = _parts(d)
        den = 1
        for k in list(p.values()) + [c]:
            den = den * k.denominator // __import__('math').gcd(den, k.denominator)
        d = _mksum(c*den, {m: k*den for m, k in p.items()}, 'I')
    return mk('<=0', (d,), 'B')


def cmp_eq(a, b):
    if a is b:
        return TRUE
    if b is None or a is None or isinstance(a, str) or isinstance(b, str):
        return FALSE
    if isinstance(b, (list, tuple, dict)) or isinstance(a, (list, tuple, dict)):
        return FALSE
    if not isinstance(b, T) and not isinstance(b, (int, float, complex, Fr)) and not hasattr(b, 'dtype'):
        return NotImplemented
    a, b = lit(a), lit(b)
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _b2i(a), _b2i(b)
    d = add(a, neg(b))
    if d.op == 'c':
        return TRUE if d.args[0] == 0 else FALSE
    z = a if b.op == 'c' and b.args[0] == 0 else b if a.op == 'c' and a.args[0] == 0 else None
    if z is not None and z.op == 'sum' and z.args[3].op == 'ite':
        # a number of true elements is zero
        c, x, y = z.args[3].args
        if x is lit(1) and y is lit(0):
            return all_(z.args[0], z.args[1], z.args[2], not_(c))
        if x is lit(0) and y is lit(1):
            return all_(z.args[0], z.args[1], z.args[2], c)
    if d.sort != 'C':
        m = _inf_ite(d)
        if m is not None:
            c, x, y = m.args
            return or_(and_(c, cmp_eq(subst(d, {m: x}), 0)), and_(not_(c), cmp_eq(subst(d, {m: y}), 0)))
        k = _inf_coef(d)
        if k:
            return FALSE
    c, p = _parts(d)
    lead = p[min(p, key=lambda m: m.id)]
    d = _mksum(c/lead, {m: k/lead for m, k in p.items()}, d.sort)
    if d.sort == 'I':
        c, p = _parts(d)
        den = 1
        for k in list(p.values()) + [c]:
            den = den * k.denominator // __import__('math').gcd(den, k.denominator)
        d = _mksum(c*den, {m: k*den for m, k in p.items()}, 'I')
    return mk('==0', (d,), 'B')


def not_(a):
    a = tob(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == '<=0' and a.args[0].sort == 'I':
        return le0(add(1, neg(a.args[0])))
    return mk('not', (a,), 'B')


def and_(*ts):
    out = {}
    for t in ts:
        t = tob(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for s in (t.args if t.op == 'and' else (t,)):
            out[s] = 1
    for s in out:
        if not_(s) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk('and', tuple(sorted(out, key=lambda q: q.id)), 'B')


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c = tob(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    a, b = lit(a), lit(b)
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a, b = _b2i(a), _b2i(b)
    if a.op == 'c' and b.op == 'c' and a.args[0] == b.args[0]:
        return a if a.sort == 'R' else b
    if jsort(a, b) != 'I':
        a, b = [mk('c', x.args, 'R') if x.op == 'c' and x.sort == 'I' else x for x in (a, b)]
    if c.op == 'not':
        return mk('ite', (c.args[0], b, a), jsort(a, b))
    return mk('ite', (c, a, b), jsort(a, b))


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(a, b), b, a)


def sum_(var, lo, hi, body):
    """Sum of body over var = lo .. hi-1."""
    body = lit(body)
    lo, hi = lit(lo), lit(hi)
    if body.op == 'c' and body.args[0] == 0:
        return lit(0.0)
    li, hj = as_int(lo), as_int(hi)
    if li is not None and hj is not None and hj-li <= 64:
        return add(lit(0), *[subst(body, {var: lit(k)}) for k in range(li, hj)])
    cv = sym('#%d' % _sdepth(body), 'I')
    if cv is not var:
        body = subst(body, {var: cv})
    return mk('sum', (cv, lo, hi, body), body.sort)


_SD = {}


def _sdepth(t):
    r = _SD.get(t)
    if r is None:
        r = max([0] + [_sdepth(c) for c in children(t)])
        if t.op in ('sum', 'all'):
            r += 1
        _SD[t] = r
    return r


def all_(var, lo, hi, body):
    body = tob(body)
    if body is TRUE:
        return TRUE
    li, hj = as_int(lit(lo)), as_int(lit(hi))
    if li is not None and hj is not None and hj-li <= 64:
        return and_(TRUE, *[subst(body, {var: lit(k)}) for k in range(li, hj)])
    cv = sym('#%d' % _sdepth(body), 'I')
    if cv is not var and var.sort == 'I':
        body = subst(body, {var: cv})
        var = cv
    return mk('all', (var, lit(lo), lit(hi), body), 'B')


# ---- traversal ----------------------------------------------------------
def children(t):
    if t.op == '+':
        return t.args[1::2]
    if t.op == '*':
        return t.args[0::2]
    return [a for a in t.args if isinstance(a, T)]


def fv(t):
    """ids of free symbols."""
    if t._fv is None:
        if t.op == 'v':
            t._fv = frozenset([t])
        else:
            s = set()
            for c in children(t):
                s |= fv(c)
            if t.op in ('sum', 'all'):
                s = (s - {t.args[0]})
            t._fv = frozenset(s)
    return t._fv


def rebuild(t, ch):
    """t with children replaced (dict-free helper)."""
    op = t.op
    if op == '+':
        a = t.args
        return add(mk('c', (a[0],), 'I' if t.sort == 'I' else 'R'),
                   *[mul(mk('c', (a[i+1],), 'I' if (t.sort == 'I' and a[i+1].denominator == 1) else 'R'), c)
                     for i, c in zip(range(1, len(a), 2), ch)])
    if op == '*':
        a = t.args
        return mul(*[power(c, lit(a[i+1])) if not isinstance(a[i+1], Fr) else power(c, lit(a[i+1]))
                     for i, c in zip(range(0, len(a), 2), ch)])
    if op == 'f':
        name = t.args[0]
        if name == 'sqrt':
            return sqrt_(ch[0])
        if name == 'exp':
            return exp_(ch[0])
        if name == 're':
            return re_(ch[0])
        if name == 'im':
            return im_(ch[0])
        if name == 'conj':
            return conj_(ch[0])
        if name == 'floordiv':
            return floordiv(*ch)
        if name == 'mod':
            return mod(*ch)
        it = iter(ch)
        if name in REWRITE:
            return fn(name, *[next(it) if isinstance(a, T) else a for a in t.args[1:]], sort=t.sort)
        return mk('f', tuple(next(it) if isinstance(a, T) else a for a in t.args), t.sort)
    if op == 'ite':
        return ite(*ch)
    if op == '<=0':
        return le(ch[0], lit(0))
    if op == '==0':
        return cmp_eq(ch[0], lit(0))
    if op == 'not':
        return not_(ch[0])
    if op == 'and':
        return and_(*ch)
    if op == 'sum':
        return sum_(t.args[0], ch[1], ch[2], ch[3])
    if op == 'all':
        return all_(t.args[0], ch[1], ch[2], ch[3])
    return t


def subst(t, m, memo=None):
    """Simultaneous substitution of terms for symbols (or any subterms)."""
    if not isinstance(t, T):
        return t
    if memo is None:
        memo = {}
        m = {k: lit(v) for k, v in m.items()}
    return _subst(t, m, memo, frozenset(k for k in m if k.op == 'v'),
                  any(k.op != 'v' for k in m))


def _subst(t, m, memo, keys, deep):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not deep and not (fv(t) & keys):
        r = t
    elif t.op in ('v', 'c', 'IU', 'pi', 'INF', 'true', 'false'):
        r = t
    elif t.op in ('sum', 'all'):
        if t.args[0] in m:
            m2 = {k: v for k, v in m.items() if k is not t.args[0]}
            return subst(t, m2)
        # avoid capture
        var = t.args[0]
        if any(var in fv(v) for v in m.values()):
            nv = fresh('b', var.sort)
            body = subst(t.args[3], {var: nv})
            t2 = mk(t.op, (nv, t.args[1], t.args[2], body), t.sort)
            r = rebuild(t2, [nv] + [_subst(c, m, memo, keys, deep) for c in t2.args[1:]])
        else:
            r = rebuild(t, [var] + [_subst(c, m, memo, keys, deep) for c in t.args[1:]])
    elif t.op == 'ite' and (lambda c: c is TRUE or c is FALSE)(c := _subst(t.args[0], m, memo, keys, deep)):
        r = _subst(t.args[1 if c is TRUE else 2], m, memo, keys, deep)      # the other branch need not have a value
    else:
        ch = children(t)
        nch = [_subst(c, m, memo, keys, deep) for c in ch]
        if all(a is b for a, b in zip(ch, nch)):
            r = t
        else:
            r = rebuild(t, nch)
    memo[t] = r
    return r


def ite_conds(t):
    """Set of all ite conditions inside t (memoised)."""
    if t._ites is None:
        s = frozenset()
        if t.op == 'ite':
            s |= {t.args[0]}
        for c in children(t):
            s |= ite_conds(c)
        if t.op in ('sum', 'all'):
            s = frozenset(c for c in s if t.args[0] not in fv(c))
        t._ites = s
    return t._ites


def has_inf(t, seen=None):
    seen = set() if seen is None else seen
    if t is INF:
        return True
    if t in seen:
        return False
    seen.add(t)
    return any(has_inf(c, seen) for c in children(t))


def atoms_of(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op in ('f', 'v'):
        acc.add(t)
    for c in children(t):
        atoms_of(c, acc, seen)
    return acc


def show(t, depth=12):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth-1)
    op = t.op
    if op == 'c':
        return str(t.args[0])
    if op == 'v':
        return t.args[0]
    if op == '+':
        a = t.args
        out = [str(a[0])] if a[0] else []
        for i in range(1, len(a), 2):
            k = a[i+1]
            out.append((('' if k == 1 else '-' if k == -1 else str(k)+'*') + s(a[i])))
        return '(' + ' + '.join(out) + ')'
    if op == '*':
        a = t.args
        return '*'.join(s(a[i]) + ('' if a[i+1] == 1 else '^%s' % a[i+1]) for i in range(0, len(a), 2))
    if op == 'f':
        return '%s(%s)' % (t.args[0], ', '.join(s(x) for x in t.args[1:]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s(x) for x in t.args)
    if op == '<=0':
        return '(%s <= 0)' % s(t.args[0])
    if op == '==0':
        return '(%s == 0)' % s(t.args[0])
    if op == 'not':
        return '!' + s(t.args[0])
    if op == 'and':
        return '(' + ' & '.join(s(x) for x in t.args) + ')'
    if op in ('sum', 'all'):
        return '%s[%s=%s..%s](%s)' % ((op,) + tuple(s(x) for x in t.args))
    return op


def _defer(f):
    """arrays decide their own operators"""
    def g(self, o):
        if hasattr(o, '_shape'):
            return NotImplemented
        return f(self, o)
    return g


for _n in ('eq ne add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow lt le gt ge and or rand ror').split():
    setattr(T, '__%s__' % _n, _defer(getattr(T, '__%s__' % _n)))
