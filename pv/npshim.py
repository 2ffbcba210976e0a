"""numpy / scipy as seen by the verified code.

Every function here is an ASSUMED contract on the dependency (listed in the
evidence as trusted): element-wise functions are the mathematical functions,
allocation/indexing/reduction functions have their documented meaning over
exact numbers.
"""
from fractions import Fraction
from . import terms as tm
from .terms import T, lit, as_int, Unsupported, TRUE, FALSE
from . import arrays as A
from .arrays import SArr, SymRange, DI, DF, DC, DB, DO, ew, build, arr, is_arr


class Opaque:
    """A value the verifier knows nothing about; any use of it is an error."""

    def __init__(self, why):
        self.why = why

    def _no(self, *a, **k):
        raise Unsupported('use of an unmodelled value: %s' % self.why)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __getitem__ = __len__ = __iter__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __pow__ = __call__ = _no
    __eq__ = _no
    __float__ = __int__ = __index__ = _no
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('use of an unmodelled value: %s' % self.why)

    def __repr__(self):
        return '<opaque %s>' % self.why


class Namespace:
    def __init__(self, name, d=None):
        self.__dict__['_name'] = name
        self.__dict__['_d'] = {} if d is None else d

    def __getattr__(self, n):
        if n in self.__dict__.get('_d', {}):
            return self._d[n]
        if n.startswith('__'):
            raise AttributeError(n)
        return Unmodelled('%s.%s' % (self._name, n))


class Unmodelled:
    """An external function without contract: calling it gives an Opaque value."""

    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        return Opaque(self.name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Unmodelled(self.name+'.'+n)


USED = set()


def reg(d, name):
    def dec(f):
        def g(*a, **k):
            USED.add(name)
            return f(*a, **k)
        g.__name__ = name
        d[name] = g
        return g
    return dec


NP = {}
np_ = lambda name: reg(NP, name)


def dt(x, default=DF):
    if x is None:
        return default
    if isinstance(x, A.DT):
        return x
    if isinstance(x, str):
        x = {'complex': complex, 'float': float, 'int': int, 'bool': bool, 'complex128': complex, 'float64': float}.get(x, x)
    n = getattr(x, 'pyname', None)
    m = {float: DF, int: DI, complex: DC, bool: DB, object: DO,
         'float': DF, 'int': DI, 'complex': DC, 'bool': DB, 'object': DO}
    if x in m:
        return m[x]
    if n in m:
        return m[n]
    raise Unsupported('dtype %r' % (x,))


def ident(name):
    return {'float64': DF, 'double': DF, 'complex128': DC, 'int64': DI, 'int32': DI, 'bool_': DB, 'intp': DI}[name]


for _n in ('float64', 'double', 'complex128', 'int64', 'bool_'):
    NP[_n] = ident(_n)


def _shape(s):
    if isinstance(s, SArr):
        return tuple(s)
    if isinstance(s, (tuple, list)):
        return tuple(A.dim(d) for d in s)
    return (A.dim(s),)


def _zero(d):
    return FALSE if d.kind == 'b' else lit(0) if d.kind == 'i' else lit(0.0)


def fullarr(shape, v, d):
    return build(_shape(shape), lambda *i: v, d)


@np_('zeros')
def zeros(shape, dtype=None, **k):
    d = dt(dtype)
    return fullarr(shape, _zero(d), d)


@np_('empty')
def empty(shape, dtype=None, **k):
    d = dt(dtype)
    u = [0]
    import itertools
    nm = 'uninit%d' % next(A._birth)
    return build(_shape(shape), lambda *i: tm.fn(nm, *i, sort={'f': 'R', 'c': 'C', 'i': 'I'}.get(d.kind, 'R')), d)


@np_('ones')
def ones(shape, dtype=None, **k):
    d = dt(dtype)
    return fullarr(shape, TRUE if d.kind == 'b' else lit(1) if d.kind == 'i' else lit(1.0), d)


@np_('zeros_like')
def zeros_like(a, dtype=None, **k):
    a = arr(a)
    d = dt(dtype, a.dtype)
    return fullarr(a._shape, _zero(d), d)


@np_('ones_like')
def ones_like(a, dtype=None, **k):
    a = arr(a)
    return ones(a._shape, dtype or a.dtype)


@np_('empty_like')
def empty_like(a, dtype=None, **k):
    a = arr(a)
    return empty(a._shape, dtype or a.dtype)


@np_('full')
def full_(shape, v, dtype=None, **k):
    v = lit(v)
    return fullarr(shape, v, dt(dtype, A.sortdt(v)))


@np_('full_like')
def full_like(a, v, dtype=None, **k):
    a = arr(a)
    return fullarr(a._shape, lit(v), dt(dtype, a.dtype))


class Ragged(list):
    """one-dimensional object array of arrays of different shape"""
    shape = property(lambda self: (len(self),))
    size = property(lambda self: len(self))
    ndim = 1


@np_('array')
def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, (list, tuple)) and dtype is not None and dt(dtype).kind == 'o':
        xs = [e if isinstance(e, SArr) else arr(e) for e in x]
        if any(e.ndim > 1 for e in xs) and len({len(e._shape) for e in xs}) > 1:
            raise Unsupported('array of objects')
        if len({len(e._shape) for e in xs}) > 1:
            return Ragged(xs)
        if xs and xs[0].ndim == 1 and not all(A.CUR.decide(tm.cmp_eq(lit(e._shape[0]), lit(xs[0]._shape[0]))) for e in xs[1:]):
            return Ragged(xs)
        return arr(x)
    if isinstance(x, (list, tuple)) or isinstance(x, SArr) or isinstance(x, SymRange) or isinstance(x, range):
        a = arr(list(x) if isinstance(x, range) else x)
    elif x is None or isinstance(x, (str, dict)):
        raise TypeError('float() argument must be a string or a real number')
    else:
        a = A.scalar_arr(x)
    d = dt(dtype, a.dtype)
    if d.kind == 'o':
        d = a.dtype
    if A._K[a.dtype.kind] > A._K[d.kind] and d.kind != 'b':
        if a.dtype.kind == 'c':
            raise TypeError('complex to real')
    a = a.astype(d)
    if not isinstance(a, SArr):
        a = A.scalar_arr(a)
    while a.ndim < ndmin:
        a = a[None] if a.ndim else atleast_1d(a)
    return a


@np_('asarray')
def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or dt(dtype) == x.dtype):
        return x
    return array(x, dtype)


NP['ascontiguousarray'] = asarray


@np_('atleast_1d')
def atleast_1d(x):
    a = arr(x)
    if a.ndim == 0:
        im = a.imap or (lambda i: i)
        return SArr(a.base, (1,), lambda idx: im(()))
    return a


@np_('atleast_2d')
def atleast_2d(x):
    a = atleast_1d(x)
    return a[None, :] if a.ndim == 1 else a


def ufunc(name, f, n=1):
    def g(*xs, **k):
        USED.add(name)
        out = k.pop('out', None)
        where = k.pop('where', None)
        if where is not None:
            raise Unsupported('ufunc where=')
        if set(k)-{'dtype', 'casting'}:
            raise Unsupported('option of a ufunc')
        xs = [x.toarr() if isinstance(x, SymRange) else x for x in xs]
        for x in xs:
            if isinstance(x, Opaque):
                x._no()
        if not any(isinstance(x, (SArr, list, tuple)) for x in xs):
            r = tm.unlit(lit(f(*[lit(x) for x in xs])))
        else:
            r = ew(lambda *a: lit(f(*a)), *xs)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out.assign(None, r)
            return out
        return r
    g.__name__ = name
    NP[name] = g
    return g


ufunc('sqrt', tm.sqrt_)
ufunc('exp', tm.exp_)


def log_(x):
    x = lit(x)
    if x.op == 'c' and x.args[0] == 1:
        return lit(0.0)
    if x.op == 'f' and x.args[0] == 'exp':
        if x.sort == 'R':
            return x.args[1]
    if x.op == '*' and x.sort == 'R' and all(isinstance(e, int) or getattr(e, 'denominator', 0) == 1 for e in x.args[1::2]) \
            and A.CUR is not None and all(A.CUR.ctx.entails(tm.lt(0, a)) for a in x.args[0::2]):
        # logarithm of a product of positive factors
        return tm.add(*[tm.mul(lit(int(e)), log_(a)) for a, e in zip(x.args[0::2], x.args[1::2])])
    return tm.fn('log', x, sort='R' if x.sort in 'IR' else 'C')


ufunc('log', log_)
def log10(x):
    return tm.div(log_(x), tm.fn('ln10', sort='R'))


ufunc('log10', log10)
ufunc('absolute', tm.abs_)
NP['abs'] = NP['absolute']
NP['fabs'] = NP['absolute']
ufunc('sign', tm.sign_)
ufunc('real', tm.re_)
ufunc('imag', tm.im_)
ufunc('conj', tm.conj_)
NP['conjugate'] = NP['conj']
ufunc('add', tm.add, 2)
ufunc('subtract', lambda a, b: tm.add(a, tm.neg(b)), 2)
ufunc('multiply', A.amul, 2)
ufunc('divide', tm.div, 2)
NP['true_divide'] = NP['divide']
ufunc('negative', tm.neg)
ufunc('square', lambda a: tm.mul(a, a))
ufunc('power', tm.power, 2)
ufunc('minimum', tm.min_, 2)
ufunc('maximum', tm.max_, 2)
ufunc('invert', tm.not_)
ufunc('logical_not', tm.not_)
ufunc('logical_and', tm.and_, 2)
ufunc('logical_or', tm.or_, 2)
ufunc('mod', tm.mod, 2)
ufunc('deg2rad', lambda a: tm.mul(a, tm.PI, tm.inv(180)))
ufunc('rad2deg', lambda a: tm.mul(a, 180, tm.inv(tm.PI)))
ufunc('round', lambda a, n=0: a if lit(a).sort == 'I' else tm.fn('round', a, n, sort='R'), 2)
NP['around'] = NP['round']
ufunc('floor', lambda a: tm.fn('floor', a, sort='R') if lit(a).sort != 'I' else a)
def ceil_(a):
    a = lit(a)
    if a.sort == 'I' or a.op == 'v' and a.args[0] in ():
        return a
    if a.op == 'c':
        return lit(-((-a.args[0].numerator)//a.args[0].denominator))
    return tm.fn('ceil', a, sort='I')


def ceil__(x, **k):
    x = arr(x)
    USED.add('ceil')
    if isinstance(x, A.SArr) and x.ndim:
        return ew(ceil_, x, dt=DF)
    return ceil_(x.item() if isinstance(x, A.SArr) else x)


NP['ceil'] = ceil__
ufunc('hypot', lambda a, b: tm.sqrt_(tm.add(tm.mul(a, a), tm.mul(b, b))), 2)
ufunc('less', tm.lt, 2)
ufunc('greater', lambda a, b: tm.lt(b, a), 2)
ufunc('less_equal', tm.le, 2)
ufunc('greater_equal', lambda a, b: tm.le(b, a), 2)
ufunc('equal', tm.cmp_eq, 2)
ufunc('not_equal', lambda a, b: tm.not_(tm.cmp_eq(a, b)), 2)


def trig(name):
    def f(x):
        x = lit(x)
        # exact values at integer multiples of pi/2
        c, d = tm._parts(x)
        if c == 0 and not d:
            return lit(0.0) if name == 'sin' else lit(1.0)
        if c == 0 and len(d) == 1 and tm.PI in d and (d[tm.PI]*2).denominator == 1:
            k = int(d[tm.PI]*2) % 4
            return lit(float({'sin': (0, 1, 0, -1), 'cos': (1, 0, -1, 0)}[name][k]))
        # shift by integer multiples of pi
        k = d.get(tm.PI)
        if k is not None and k.denominator == 1 and len(d) > 1:
            s = -1 if k % 2 else 1
            y = tm.add(x, tm.neg(tm.mul(tm.const(k), tm.PI)))
            return tm.mul(s, tm.fn(name, y, sort='R'))
        return tm.fn(name, x, sort='R')
    return f


ufunc('sin', trig('sin'))
ufunc('cos', trig('cos'))


def arctan2(y, x):
    y = lit(y)
    m = tm.neg(y)
    if m.op == 'f' and m.args[0] == 'im':   # odd in y, also on the cut thanks to signed zeros (conjugation)
        return tm.neg(tm.fn('arctan2', m, x, sort='R'))
    return tm.fn('arctan2', y, x, sort='R')


ufunc('arctan2', arctan2, 2)
ufunc('arccos', lambda y: tm.fn('arccos', y, sort='R'))
ufunc('arcsin', lambda y: tm.fn('arcsin', y, sort='R'))
ufunc('angle', lambda z: arctan2(tm.im_(z), tm.re_(z)))
_angle = NP['angle']


@np_('angle')
def angle(z, deg=False):
    a = _angle(z)
    return A.ew(lambda x: tm.mul(x, 180, tm.inv(tm.PI)), a) if isinstance(a, SArr) and deg else tm.mul(a, 180, tm.inv(tm.PI)) if deg else a


@np_('unwrap')
def unwrap(p, discont=None, axis=-1, **k):
    """adds to each entry a multiple of 2 pi, determined by the array and the axis"""
    if discont is not None or k:
        raise Unsupported('np.unwrap with options')
    p = arr(p)
    if p.ndim == 0:
        raise TypeError('unwrap of a scalar')
    ax = int(axis)
    if not -p.ndim <= ax < p.ndim:
        raise ValueError('axis')
    A.CUR.assumed.add('np.unwrap adds to each entry a multiple of 2 pi that depends on the whole array and the axis (uninterpreted)')
    im = p.copy()
    q = [tm.sym('unwrap#%d' % j, 'I') for j in range(p.ndim)]
    tag = [im.at(*q)] + [lit(x) for x in p._shape] + [lit(ax % p.ndim)]
    return A.build(tuple(p._shape), lambda *i: tm.add(im.at(*i), tm.ite(tm.cmp_eq(lit(i[ax]), 0), lit(0), tm.mul(
        2, tm.PI, tm.fn('turns', *tag, *[lit(x) for x in i], sort='R')))), A.DF)


def isfinite1(x):
    x = lit(x)
    if x.sort == 'I' or x.op == 'c':
        return TRUE
    # finite unless INF occurs (finite inputs are a precondition)
    cs = [c for c in tm.ite_conds(x)]
    if cs:
        c = min(cs, key=lambda q: q.id)
        return tm.ite(c, isfinite1(tm.subst(x, {c: TRUE})), isfinite1(tm.subst(x, {c: FALSE})))
    return FALSE if _has_inf(x) else TRUE


def _has_inf(t):
    return t is tm.INF or any(_has_inf(c) for c in tm.children(t))


ufunc('isfinite', isfinite1)
ufunc('isinf', lambda x: tm.not_(isfinite1(x)))
ufunc('isnan', lambda x: FALSE)


@np_('isclose')
def isclose(a, b, rtol=None, atol=None, **k):
    def f(x, y):
        x, y = lit(x), lit(y)
        if x is y:
            return TRUE
        if x.op == 'c' and y.op == 'c':
            r = lit(rtol if rtol is not None else 1e-5).args[0]
            at = lit(atol if atol is not None else 1e-8).args[0]
            return lit(abs(x.args[0]-y.args[0]) <= at + r*abs(y.args[0]))
        r = lit(1e-5 if rtol is None else rtol)
        at = lit(1e-8 if atol is None else atol)
        return tm.le(tm.abs_(tm.add(x, tm.neg(y))), tm.add(at, tm.mul(r, tm.abs_(y))))
    if any(isinstance(x, (SArr, list)) for x in (a, b)):
        return ew(f, a, b)
    return tm.unlit(f(a, b))


@np_('allclose')
def allclose(a, b, rtol=None, atol=None, **k):
    return A.reduce_all(arr(isclose(a, b, rtol, atol)))


@np_('array_equal')
def array_equal(a, b, **k):
    a, b = arr(a), arr(b)
    if a.ndim != b.ndim or not all(A.deq(p, q) for p, q in zip(a._shape, b._shape)):
        return False
    return A.reduce_all(ew(tm.cmp_eq, a, b))


@np_('where')
def where(c, *ab):
    if len(ab) == 2:
        return ew(lambda c, a, b: tm.ite(c, a, b), c, *ab)
    return A.CUR.np_where(arr(c))


@np_('arange')
def arange(*a, **k):
    a = list(a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi, st = lit(lo), lit(hi), lit(st)
    d = dt(k.get('dtype'), A.dtmax(A.sortdt(lo), A.sortdt(hi), A.sortdt(st)))
    if all(x.op == 'c' for x in (lo, hi, st)):
        out = []
        x = lo.args[0]
        while (x < hi.args[0]) if st.args[0] > 0 else (x > hi.args[0]):
            out.append(x)
            x += st.args[0]
        return A.mktab((len(out),), {(i,): tm.const(v, 'I' if d.kind == 'i' else 'R') for i, v in enumerate(out)}, d)
    if lo.sort == hi.sort == st.sort == 'I':
        r = SymRange(tm.unlit(lo), tm.unlit(hi), tm.unlit(st)).toarr()
        return r if d.kind == 'i' else r.astype(d)
    return A.CUR.np_arange(lo, hi, st)


@np_('linspace')
def linspace(start, stop, num=50, endpoint=True, **k):
    """num equally spaced values from start to stop"""
    if not endpoint or k:
        raise Unsupported('linspace with options')
    a, b, n = lit(start), lit(stop), lit(num)
    if n.sort == 'I' and getattr(A.CUR, 'points_given', None) and A.CUR.ctx.decide(tm.le(1, n)) is None:
        A.CUR.assume(tm.le(1, n), A.CUR.points_given)
    if n.sort != 'I' or not A.CUR.ctx.entails(tm.le(1, n)):
        raise Unsupported('linspace: number of values')
    st = tm.mul(tm.add(b, tm.neg(a)), tm.inv(tm.add(n, -1)))
    return build((tm.unlit(n),), lambda k: tm.ite(tm.le(lit(k), 0), a, tm.add(a, tm.mul(lit(k), st))), A.DF)


@np_('logspace')
def logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    if as_int(lit(base)) != 10 and lit(base) is not lit(10.0):
        raise Unsupported('logspace: base')
    return ew(lambda x: tm.exp_(tm.mul(tm.fn('ln10', sort='R'), x)), linspace(start, stop, num, endpoint, **k))


@np_('outer')
def outer(a, b):
    a, b = A.ravel(arr(atleast_1d(a))), A.ravel(arr(atleast_1d(b)))
    return build((a._shape[0], b._shape[0]), lambda i, j: tm.mul(a.at(i), b.at(j)))


@np_('concatenate')
def concatenate(xs, axis=0, **k):
    xs = [arr(x) for x in xs]
    ax = as_int(lit(axis)) % xs[0].ndim
    tot = lit(0)
    offs = []
    for x in xs:
        offs.append(tot)
        tot = tm.add(tot, lit(x._shape[ax]))
    shp = list(xs[0]._shape)
    shp[ax] = tm.unlit(tot)
    d = A.dtmax(*[x.dtype for x in xs])

    def f(*idx):
        i = idx[ax]
        r = None
        ci = as_int(lit(i))
        if ci is not None and all(as_int(o) is not None and as_int(lit(x._shape[ax])) is not None for x, o in zip(xs, offs)):
            for x, o in zip(xs, offs):
                if as_int(o) <= ci < as_int(o)+as_int(lit(x._shape[ax])):
                    j = list(idx)
                    j[ax] = lit(ci-as_int(o))
                    return x.at(*j)
        for x, o in zip(xs, offs):
            n = lit(x._shape[ax])
            if as_int(n) == 0:
                continue
            c = tm.le(o, i)
            dd = None
            if r is not None:
                dd = A.CUR.ctx.decide(c)
                if dd is False:
                    continue
            j = list(idx)
            j[ax] = tm.add(i, tm.neg(o))
            v = x.at(*j)
            r = v if (r is None or dd is True) else tm.ite(c, v, r)
        return r
    return build(tuple(shp), f, d)


class _R:
    def __getitem__(self, key):
        USED.add('r_')
        if not isinstance(key, tuple):
            key = (key,)
        return concatenate([atleast_1d(arr(k)) for k in key])


NP['r_'] = _R()


@np_('append')
def append(a, b, axis=None):
    return concatenate([atleast_1d(arr(a)), atleast_1d(arr(b))])


@np_('hstack')
def hstack(xs):
    return concatenate([atleast_1d(arr(x)) for x in xs])


@np_('stack')
def stack(xs, axis=0):
    assert as_int(lit(axis)) == 0
    return arr(list(xs))


@np_('tile')
def tile(a, n):
    a = atleast_1d(arr(a))
    if a.ndim != 1 or isinstance(n, (tuple, list)):
        if a.ndim == 2 and not isinstance(n, (tuple, list)):
            m = a._shape[1]
            return build((a._shape[0], tm.mul(lit(m), lit(n))), lambda i, j: a.at(i, A.CUR.divmod_sym(j, lit(m))[1]), a.dtype)
        if a.ndim == 3 and not isinstance(n, (tuple, list)):
            m = a._shape[2]
            return build((a._shape[0], a._shape[1], tm.mul(lit(m), lit(n))), lambda h, i, j: a.at(h, i, A.CUR.divmod_sym(j, lit(m))[1]), a.dtype)
        raise Unsupported('tile')
    m = a._shape[0]
    return build((tm.unlit(tm.mul(lit(m), lit(n))),), lambda i: a.at(A.CUR.divmod_sym(i, lit(m))[1]), a.dtype)


@np_('repeat')
def repeat(a, n, axis=None):
    a = arr(a)
    a = A.ravel(atleast_1d(a))
    if as_int(lit(a._shape[0])) == 1:
        return build((A.dim(n),), lambda i: a.at(lit(0)), a.dtype)
    return build((tm.unlit(tm.mul(lit(a._shape[0]), lit(n))),), lambda i: a.at(A.CUR.divmod_sym(i, lit(n))[0]), a.dtype)


@np_('dot')
def dot(a, b, out=None):
    r = A.dot(a, b)
    if out is not None:
        out.assign(None, r)
        return out
    return r


NP['matmul'] = dot


@np_('sum')
def sum_(a, axis=None, **k):
    return A.reduce_sum(a, axis)


@np_('all')
def all__(a, axis=None, **k):
    return A.reduce_all(arr(a), axis)


@np_('any')
def any__(a, axis=None, **k):
    return A.reduce_any(arr(a), axis)


@np_('max')
def max__(a, **k):
    return A.extremum(a, 'max')


@np_('min')
def min__(a, **k):
    return A.extremum(a, 'min')


NP['amax'], NP['amin'] = max__, min__


@np_('argmax')
def argmax(a, axis=None, **k):
    """contract: the first index with the largest value (truth values of an array of known length only)"""
    a = arr(a)
    if axis is not None or a.ndim != 1 or a.dtype.kind != 'b' or not a.concrete():
        raise Unsupported('argmax')
    r = lit(0)
    for q in reversed(list(a.indices())):
        r = tm.ite(tm.tob(a.at(*q)), lit(q[0]), r)
    return r


@np_('shape')
def shape(a):
    if isinstance(a, Ragged):
        return a.shape
    return arr(a).shape


@np_('ndim')
def ndim(a):
    return arr(a).ndim


@np_('size')
def size(a):
    if isinstance(a, (A.WhereIdx, A.WhereVec)):
        return a.size
    return arr(a).size


@np_('squeeze')
def squeeze(a, axis=None):
    if isinstance(a, Ragged):
        return a
    if not isinstance(a, SArr):
        a = arr(a)
    return A.squeeze(a, axis)


@np_('reshape')
def reshape(a, shape, order='C', **k):
    return A.reshape(arr(a), shape, order)


@np_('ravel')
def ravel(a, order='C'):
    return A.ravel(arr(a), order)


@np_('diff')
def diff(a, **k):
    a = arr(a)
    return ew(lambda x, y: tm.add(x, tm.neg(y)), a[1:], a[:-1])


_NUNIQUE = [0]


@np_('unique')
def unique(a, return_inverse=False, **k):
    """u, inv with u[inv] == a, of an unknown length (zero exactly if a is empty); the order is not used"""
    if not return_inverse or k:
        raise Unsupported('np.unique')
    a = arr(a)
    if any(isinstance(d, A.MaskDim) for d in a._shape):
        raise Unsupported('np.unique of a masked array')
    _NUNIQUE[0] += 1
    i = _NUNIQUE[0]
    nu = tm.sym('unique%d.n' % i, 'I')
    N = lit(1)
    for d in a._shape:
        N = tm.mul(N, lit(d))
    A.CUR.ctx.add(tm.and_(tm.le(0, nu), tm.le(nu, N), tm.or_(tm.lt(0, nu), tm.cmp_eq(N, 0))))
    u, iv = 'unique%d' % i, 'index:unique%d' % i
    tm.REWRITE[u] = lambda k: a.at(*k.args[2:]) if isinstance(k, tm.T) and k.op == 'f' and k.args[0] == iv else None
    a = a.copy()
    return (build((nu,), lambda k: tm.fn(u, k, sort={'b': 'B', 'i': 'I', 'f': 'R', 'c': 'C'}[a.dtype.kind]), a.dtype),
            build(a._shape, lambda *j: tm.fn(iv, nu, *j, sort='I'), A.DI))


@np_('moveaxis')
def moveaxis(a, source, destination):
    a = arr(a)
    s, d = as_int(lit(source)), as_int(lit(destination))
    if s is None or d is None:
        raise Unsupported('np.moveaxis')
    n = a.ndim
    if not (-n <= s < n and -n <= d < n):
        raise ValueError('axis out of bounds')
    order = [k for k in range(n) if k != s % n]
    order.insert(d % n, s % n)
    im = a.imap or (lambda i: i)

    def mp(idx):
        out = [None]*n
        for k, x in zip(order, idx):
            out[k] = x
        return im(tuple(out))
    return A.SArr(a.base, tuple(a._shape[k] for k in order), mp)


@np_('transpose')
def transpose(a):
    return arr(a).T


@np_('copy')
def copy(a, **k):
    return arr(a).copy()


@np_('isrealobj')
def isrealobj(a):
    return arr(a).dtype.kind != 'c'


@np_('iscomplexobj')
def iscomplexobj(a):
    return arr(a).dtype.kind == 'c'


@np_('isscalar')
def isscalar(a):
    return isinstance(a, (int, float, complex, T)) and not isinstance(a, SArr)


@np_('flip')
def flip(a, axis=None):
    return arr(a)[::-1]


@np_('expand_dims')
def expand_dims(a, axis):
    a = arr(a)
    ax = as_int(lit(axis)) % (a.ndim+1)
    return a[(slice(None),)*ax + (None,)]


@np_('broadcast_to')
def broadcast_to(a, shape):
    a = arr(a)
    return build(_shape(shape), lambda *i: a.at(*A.bidx(a, i)), a.dtype)


class _Lin(Namespace):
    pass


def norm(a, axis=None, **k):
    USED.add('linalg.norm')
    if isinstance(a, Ragged):
        if axis is None or as_int(lit(axis)) != 0:
            raise Unsupported('norm of an object array')
        return NP['sqrt'](ew(lambda *x: tm.add(*[tm.mul(e, e) for e in x]), *a))
    a = arr(a)
    s = A.reduce_sum(ew(lambda x: tm.mul(x, x), a), axis)
    return NP['sqrt'](s)


NP['linalg'] = Namespace('np.linalg', {'norm': norm})
NP['pi'] = tm.PI
NP['inf'] = tm.INF
NP['newaxis'] = None
NP['ndarray'] = SArr
NP['errstate'] = None      # set by interp


class Finfo:
    def __init__(self, *a):
        self.eps = tm.fn('eps', sort='R')
        self.tiny = lit(2.2250738585072014e-308)
        self.max = lit(1.7976931348623157e308)


NP['finfo'] = Finfo


class Ctxm:
    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


NP['errstate'] = Ctxm()


def bessel(name, n=None):
    def f(*xs):
        USED.add('sp.special.'+name)
        return ew(lambda *a: tm.fn(name, *a, sort=tm.jsort(lit(1.0), a[-1])), *xs) if any(isinstance(x, SArr) for x in xs) \
            else tm.fn(name, *xs, sort=tm.jsort(lit(1.0), lit(xs[-1])))
    return f


SPECIAL = {n: bessel(n) for n in ('j0', 'j1', 'jv', 'erfc', 'ive', 'kve', 'iv', 'kv', 'factorial', 'loggamma')}


def roots_legendre(n):
    """Gauss-Legendre nodes and weights: n of each, functions of n and of their number"""
    USED.add('sp.special.roots_legendre')
    n = tm.unlit(n.item() if isinstance(n, A.SArr) else lit(n))
    return tuple(build((n,), lambda k, f=f: tm.fn(f, n, k, sort='R'), A.DF) for f in ('legendre_x', 'legendre_w'))


SPECIAL['roots_legendre'] = roots_legendre


class Spline:
    """interpolating spline through (x, y): linear in y, with weights that depend on
    all x (entering by their generic element) and on the point z; nothing else is used"""

    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, check_finite=False):
        if w is not None or bbox is not None:
            raise Unsupported('weighted spline')
        x, y = A.ravel(A.squeeze(arr(x))), A.ravel(A.squeeze(arr(y)))
        if y.dtype.kind == 'c':
            raise Unsupported('spline of complex values')
        n = lit(y._shape[0])
        if not A.deq(x._shape[0], y._shape[0]):
            raise Unsupported('spline: lengths of x and y')
        USED.add('InterpolatedUnivariateSpline')
        g = tm.fn('K*', n, sort='I')
        A.CUR.ctx.add(tm.and_(tm.le(0, g), tm.lt(g, n)))
        self.n, self.args, self.y = n, (n, lit(k), lit(ext), x.at(g)), y

    def __call__(self, z, nu=0, ext=None):
        if ext is not None or as_int(lit(nu)) != 0:
            raise Unsupported('spline: derivative')
        return ew(lambda t: spline_value(self.n, self.args, self.y.at, t), z)


def spline_value(n, args, y, z):
    return A.gen_sum(n, lambda k: tm.mul(tm.fn('splineweight', *args, k, z, sort='R'), y(k)))


def _count(x):
    n = as_int(lit(x._shape[0]))
    if x.ndim != 1 or n is None:
        raise Unsupported('transform of an array of unknown length')
    return n


def _linear(name, sort):
    """discrete transform of a vector: some fixed linear map of that length (real for rfft/irfft of real input, complex otherwise)"""
    def f(x, n=None, axis=-1, overwrite_x=False):
        x = arr(x)
        m = _count(x)
        if n is not None and as_int(lit(n)) != m or overwrite_x or as_int(lit(axis)) not in (0, -1):
            raise Unsupported('discrete transform with options')
        if sort == 'R' and x.dtype.kind == 'c':
            raise Unsupported('real transform of complex values')
        USED.add('sp.fftpack.'+name)
        w = lambda k, j: tm.fn(name+'weight', lit(m), lit(k), lit(j), sort='R')
        xs = [x.at(lit(j)) for j in range(m)]
        return A.mktab((m,), {(k,): tm.add(*[tm.mul(w(k, j), v) for j, v in enumerate(xs)]) for k in range(m)}, DF if sort == 'R' else DC)
    return f


def fftshift(x, axes=None):
    x = arr(x)
    n = _count(x)
    return A.mktab((n,), {(k,): x.at(lit((k-n//2) % n)) for k in range(n)}, x.dtype)


@np_('pad')
def pad(x, width, mode='constant'):
    """one-dimensional; constant zeros or a linear ramp down to zero"""
    x = arr(x)
    n = _count(x)
    if isinstance(width, SArr) or not isinstance(width, (tuple, list)) or len(width) != 2 or mode not in ('constant', 'linear_ramp'):
        raise Unsupported('pad')
    a, b = [as_int(lit(w)) for w in width]
    if a is None or b is None or a < 0 or b < 0 or n == 0:
        raise Unsupported('pad: widths')
    ramp = lambda e, i, m: lit(0) if mode == 'constant' else tm.mul(e, lit(Fraction(i, m)))
    xs = [ramp(x.at(lit(0)), i, a) for i in range(a)] + [x.at(lit(i)) for i in range(n)] + [ramp(x.at(lit(n-1)), b-1-i, b) for i in range(b)]
    return A.mktab((n+a+b,), {(k,): v for k, v in enumerate(xs)}, x.dtype)


FFTPACK = {'ifft': _linear('ifft', 'C'), 'fft': _linear('fft', 'C'), 'rfft': _linear('rfft', 'R'), 'irfft': _linear('irfft', 'R'), 'fftshift': fftshift}


def module_np():
    return Namespace('np', NP)


def module_sp():
    return Namespace('sp', {'special': Namespace('sp.special', SPECIAL),
                            'interpolate': Namespace('sp.interpolate', {'InterpolatedUnivariateSpline': Spline}),
                            'integrate': Namespace('sp.integrate'),
                            'fftpack': Namespace('sp.fftpack', FFTPACK),
                            'constants': Namespace('sp.constants', {'mu_0': Opaque('mu_0')})})
