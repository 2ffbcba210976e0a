"""Symbolic arrays: any (possibly symbolic) shape, element-wise content as terms.

An array is a view (shape, index map) onto a Base; a Base has a content
(generic index variables + body term, or a table for small concrete shapes) and
a list of stores.  A store writes `val` at `idx` for all values of its bound
variables within their ranges, where `guard` holds.
"""
import itertools
from . import terms as tm
from .terms import T, lit, as_int, Unsupported, TRUE, FALSE

CUR = None            # the running interpreter (set by interp)
_birth = itertools.count()
TABMAX = 600


class DT:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __eq__(self, o):
        return isinstance(o, DT) and o.kind == self.kind

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'dtype(%s)' % self.name

    def __call__(self, x):
        if isinstance(x, SArr):
            return x.astype(self)
        if self.kind == 'i':
            return to_int(x)
        return tm.unlit(lit(x))

    @property
    def type(self):
        return self


DI, DF, DC, DB, DO = DT('i', 'int64'), DT('f', 'float64'), DT('c', 'complex128'), DT('b', 'bool'), DT('o', 'object')
_K = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'o': 4}


def to_int(x):
    x = lit(x)
    if x.sort == 'B':
        return tm._b2i(x)
    if x.sort == 'I':
        return tm.unlit(x)
    if x.op == 'c':
        return int(x.args[0])
    # truncation toward zero of a real: int(x)
    return tm.fn('trunc', x, sort='I')


def dtmax(*ds):
    return max(ds, key=lambda d: _K[d.kind])


def sortdt(t):
    return {'I': DI, 'R': DF, 'C': DC, 'B': DB}[t.sort]


class MaskDim:
    """Length of a boolean selection along one axis (elements keep their places)."""

    def __init__(self, n, mask):
        self.n = n
        self.mask = mask          # (var, body)

    def cond(self, i):
        return tm.subst(self.mask[1], {self.mask[0]: i})

    def counts(self, e):
        """is e the number of selected places"""
        return not isinstance(e, MaskDim) and lit(e) is gen_sum(lit(self.n), lambda k: tm._b2i(self.cond(k)))

    def same(self, o):
        return isinstance(o, MaskDim) and deq(self.n, o.n) and self.cond(self.mask[0]) is o.cond(self.mask[0])


def dim(d):
    if isinstance(d, MaskDim):
        return d
    return tm.unlit(lit(d))


def deq(a, b):
    """are two dimensions provably equal"""
    if isinstance(a, MaskDim) or isinstance(b, MaskDim):
        return isinstance(a, MaskDim) and a.same(b)
    a, b = lit(a), lit(b)
    if a is b:
        return True
    if a.op == 'c' and b.op == 'c':
        return False
    return CUR is not None and CUR.ctx.entails(tm.cmp_eq(a, b))


def full(d):
    return d.n if isinstance(d, MaskDim) else d


class Store:
    __slots__ = ('vars', 'idx', 'val', 'guard')

    def __init__(self, vars, idx, val, guard):
        self.vars, self.idx, self.val, self.guard = vars, idx, val, guard

    def at(self, r):
        """(condition, value) for reading index r."""
        if not self.vars:
            c = [self.guard]
            for e, x in zip(self.idx, r):
                if e is not x:
                    c.append(tm.cmp_eq(e, x))
            return tm.and_(*c), self.val
        m = {}
        names = {v for v, _, _ in self.vars}
        todo = list(zip(self.idx, r))
        pairs = []
        for _ in range(len(todo)+1):
            rest = []
            prog = False
            for e, x in todo:
                fr = (tm.fv(e) & names) - set(m)
                if not fr:
                    rest.append((e, x))
                    continue
                if len(fr) == 1:
                    v, = fr
                    e2 = tm.subst(e, m) if m else e
                    c, d = tm._parts(e2)
                    k = d.get(v)
                    if k in (1, -1) and not any(v in tm.fv(mm) for mm in d if mm is not v):
                        others = tm.add(e2, tm.neg(tm.mul(tm.const(k, 'I'), v)))
                        m[v] = tm.mul(tm.const(k, 'I'), tm.add(x, tm.neg(others)))
                        prog = True
                        continue
                rest.append((e, x))
            todo = rest
            if not prog:
                t2 = self.quotients(todo, m, names, pairs)
                todo = t2 if t2 is not None else self.blocks(todo, m, names)
                if todo is None:
                    break
        if set(m) != names:
            raise Unsupported('store index not invertible')
        c = [tm.subst(self.guard, m)]
        for e, x in zip(self.idx, r):
            if any(e is a for a, _, _ in pairs):
                continue
            c.append(tm.cmp_eq(tm.subst(e, m), x))
        for e, x, n in pairs:
            if n is not None:
                c += [tm.le(0, x), tm.lt(x, n)]
        for v, lo, hi in self.vars:
            x = m[v]
            c.append(tm.le(tm.subst(lit(lo), m), x))
            c.append(tm.lt(x, tm.subst(lit(hi), m)))
        return tm.and_(*c), tm.subst(self.val, m)


    def quotients(self, todo, m, names, pairs):
        """indices v div n and v mod n: v is quotient*n + remainder"""
        part = lambda e: e.args if isinstance(e, tm.T) and e.op == 'f' and e.args[0] in ('divq', 'divr') and len(e.args) == 3 else None
        for i, (e, x) in enumerate(todo):
            p = part(e)
            if p is None or p[0] != 'divq' or p[1] not in names-set(m) or tm.fv(p[2]) & names:
                continue
            for j, (e2, x2) in enumerate(todo):
                p2 = part(e2)
                if p2 is not None and p2[0] == 'divr' and p2[1] is p[1] and p2[2] is p[2]:
                    m[p[1]] = tm.add(tm.mul(x, p[2]), x2)
                    pairs += [(e, x, None), (e2, x2, p[2])]
                    return [t for k, t in enumerate(todo) if k not in (i, j)]
        return None

    def blocks(self, todo, m, names):
        """index v*M + r with 0 <= r < M: v and r are the quotient and the remainder"""
        if CUR is None:
            return None
        for i, (e, x) in enumerate(todo):
            e2 = tm.subst(e, m) if m else e
            for v in (tm.fv(e2) & names) - set(m):
                b = split_block(e2, v)
                if b is None or tm.fv(b[0]) & names or tm.fv(b[2]) & names:
                    continue
                CUR.ctx.push()
                try:
                    for w, lo, hi in self.vars:
                        CUR.ctx.add(tm.le(tm.subst(lit(lo), m), w))
                        CUR.ctx.add(tm.lt(w, tm.subst(lit(hi), m)))
                    ok = CUR.ctx.entails(tm.and_(tm.le(0, b[1]), tm.lt(b[1], b[0])))
                finally:
                    CUR.ctx.pop()
                if ok and CUR.ctx.entails(tm.lt(0, b[0])):
                    q, r = CUR.divmod_sym(x, b[0])
                    m[v] = tm.add(q, tm.neg(b[2]))
                    return todo[:i] + [(b[1], r)] + todo[i+1:]
        return None


def split_block(e, v):
    """(M, r, c) with e = (v + c)*M + r; M, r and c free of v"""
    c, d = tm._parts(e)
    out, rest = [], [tm.const(c, 'I')]
    for mon, k in d.items():
        t = tm._mksum(tm.Fr(0), {mon: k}, 'I')
        if v not in tm.fv(mon):
            rest.append(t)
            continue
        f = dict(tm._facts(mon))
        if f.pop(v, 0) != 1 or any(v in tm.fv(x) for x in f) or k.denominator != 1:
            return None
        out.append(tm._mkprod(k, f, 'I'))
    if not out:
        return None
    M = tm.add(lit(0), *out)
    if M is lit(1) or CUR is None:
        return M, tm.add(*rest), lit(0)
    sh, r = [lit(0)], [lit(0)]
    for t in rest:
        q = CUR.exact_quotient(t, M) if t.op != 'c' else None
        (r if q is None else sh).append(t if q is None else q)
    return M, tm.add(*r), tm.add(*sh)


class Base:
    def __init__(self, shape, dtype, vars=None, body=None, tab=None):
        self.shape, self.dtype = tuple(shape), dtype
        self.vars, self.body, self.tab = vars, body, tab
        self.stores = []
        self.birth = next(_birth)
        self.name = None
        self.readonly = None       # name of the argument this belongs to (frame condition)
        self.written = False
        self.part = None

    def init(self, idx):
        if self.tab is not None:
            ci = tuple(as_int(i) for i in idx)
            if None not in ci:
                return self.tab[ci]
            r = None
            for k, v in self.tab.items():
                c = tm.and_(*[tm.cmp_eq(i, lit(j)) for i, j in zip(idx, k)])
                if c is FALSE:
                    continue
                if c is TRUE:
                    return v
                if CUR is not None:
                    d = CUR.ctx.decide(c)
                    if d is False:
                        continue
                    if d is True:
                        return v
                r = v if r is None else tm.ite(c, v, r)
            if r is None:
                raise Unsupported('empty array read')
            return r
        if not self.vars:
            return self.body
        return tm.subst(self.body, dict(zip(self.vars, idx)))

    def read(self, idx, stores=None):
        idx = tuple(lit(i) for i in idx)
        if CUR is not None and stores is None:
            CUR.note_read(self, idx)
        st = self.stores if stores is None else stores
        out = []
        for k in range(len(st)-1, -1, -1):
            c, v = st[k].at(idx)
            if c is FALSE:
                continue
            if c is not TRUE and CUR is not None:
                d = CUR.ctx.decide(c)
                if d is False:
                    continue
                if d is True:
                    c = TRUE
                elif c.op == 'and' and st[k].vars:
                    c = tm.and_(*[x for x in c.args if CUR.ctx.decide(x) is not True])
            out.append((c, v))
            if c is TRUE:
                break
        else:
            out.append((TRUE, self.init(idx)))
        r = lit(out[-1][1])
        for c, v in reversed(out[:-1]):
            r = tm.ite(c, v, r)
        return r


class SArr:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, base, shape=None, imap=None):
        self.base = base
        self._shape = tuple(base.shape if shape is None else shape)
        self.imap = imap

    # ---- basic attributes
    @property
    def shape(self):
        return tuple(dim(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self.base.dtype

    @property
    def size(self):
        r = 1
        for d in self._shape:
            if isinstance(d, MaskDim):
                return CUR.np_masksize(d)
            r = tm.unlit(tm.mul(lit(r), lit(d)))
        return r

    def at(self, *idx):
        idx = tuple(lit(i) for i in idx)
        return self.base.read(self.imap(idx) if self.imap else idx)

    def __len__(self):
        n = as_int(lit(self._shape[0]))
        if n is None:
            raise Unsupported('len() of an array with symbolic length')
        return n

    def slen(self):
        return self.shape[0]

    def __bool__(self):
        if all(as_int(lit(full(d))) == 1 for d in self._shape):
            return bool(self.item())
        raise ValueError('truth value of an array is ambiguous')

    def item(self):
        return tm.unlit(self.at(*([lit(0)]*self.ndim)))

    def concrete(self):
        return all(not isinstance(d, MaskDim) and as_int(lit(d)) is not None for d in self._shape)

    def indices(self):
        return itertools.product(*[range(as_int(lit(d))) for d in self._shape])

    def __iter__(self):
        n = as_int(lit(self._shape[0]))
        if n is None:
            raise Unsupported('iteration over an array with symbolic length')
        return iter([self[i] for i in range(n)])

    def __hash__(self):
        return id(self)

    # ---- element-wise operators
    def __add__(s, o): return arith(tm.add, s, o)
    def __radd__(s, o): return arith(tm.add, o, s)
    def __sub__(s, o): return arith(lambda a, b: tm.add(a, tm.neg(b)), s, o)
    def __rsub__(s, o): return arith(lambda a, b: tm.add(a, tm.neg(b)), o, s)
    def __mul__(s, o): return arith(amul, s, o)
    def __rmul__(s, o): return arith(amul, o, s)
    def __truediv__(s, o): return arith(tm.div, s, o)
    def __rtruediv__(s, o): return arith(tm.div, o, s)
    def __floordiv__(s, o): return ew(tm.floordiv, s, o)
    def __mod__(s, o): return ew(tm.mod, s, o)
    def __rmod__(s, o): return ew(tm.mod, o, s)
    def __pow__(s, o): return arith(tm.power, s, o)
    def __rpow__(s, o): return arith(tm.power, o, s)
    def __neg__(s): return arith(tm.neg, s)
    def __pos__(s): return s.copy()
    def __abs__(s): return ew(tm.abs_, s)
    def __lt__(s, o): return ew(tm.lt, s, o)
    def __le__(s, o): return ew(tm.le, s, o)
    def __gt__(s, o): return ew(lambda a, b: tm.lt(b, a), s, o)
    def __ge__(s, o): return ew(lambda a, b: tm.le(b, a), s, o)
    def __eq__(s, o): return ew(tm.cmp_eq, s, o)
    def __ne__(s, o): return ew(lambda a, b: tm.not_(tm.cmp_eq(a, b)), s, o)
    def __and__(s, o): return ew(tm.and_, s, o)
    def __or__(s, o): return ew(tm.or_, s, o)
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(s): return ew(tm.not_, s)

    def __matmul__(s, o): return dot(s, o)

    # in place
    def _iop(s, f, o):
        s.assign(None, ew(f, s, o))
        return s

    def __iadd__(s, o): return s._iop(tm.add, o)
    def __isub__(s, o): return s._iop(lambda a, b: tm.add(a, tm.neg(b)), o)
    def __imul__(s, o): return s._iop(amul, o)
    def __itruediv__(s, o): return s._iop(tm.div, o)
    def __ipow__(s, o): return s._iop(tm.power, o)

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        return self._part(tm.re_, 're')

    @property
    def imag(self):
        return self._part(tm.im_, 'im') if self.dtype.kind == 'c' else ew(tm.im_, self)

    def _part(self, f, which):
        r = ew(f, self)
        if isinstance(r, SArr):
            r.base.part = (self, which)       # what is stored in a part is stored in the whole
        return r

    @property
    def T(self):
        n = self.ndim
        im = self.imap or (lambda i: i)
        return SArr(self.base, self._shape[::-1], lambda idx: im(tuple(idx[::-1])))

    def conj(self): return ew(tm.conj_, self)
    conjugate = conj

    def copy(self):
        return ew(lambda a: a, self, dt=self.dtype)

    def tofile(self, f, sep='', format='%s'):
        if format != '%s' or not hasattr(f, 'put_array'):
            raise Unsupported('tofile')
        f.put_array(self.copy(), sep)

    def view(self, *a, **k):
        if a or k:
            dt = None
            if len(a) == 1 and not k:
                try:
                    dt = CUR.np.dt(a[0])
                except Exception:
                    dt = None
            if dt is None or (dt.kind != self.dtype.kind and (dt.kind, self.dtype.kind) != ('c', 'f')):
                if len(a) == 1 and getattr(a[0], '__name__', None) == 'EMArray':
                    return SArr(self.base, self._shape, self.imap)
                raise Unsupported('view as another type')
            if dt.kind != self.dtype.kind:   # pairs of real numbers as complex ones (of a copy: not written through)
                n = as_int(lit(self._shape[-1])) if self._shape and not isinstance(self._shape[-1], MaskDim) else None
                if n is None or n % 2:
                    raise Unsupported('view as complex')
                return build(self._shape[:-1]+(n//2,), lambda *i: tm.add(self.at(*i[:-1], tm.mul(2, i[-1])), tm.mul(tm.IU, self.at(*i[:-1], tm.add(tm.mul(2, i[-1]), 1)))), DC)
        return SArr(self.base, self._shape, self.imap)

    def astype(self, dt, **k):
        dt = CUR.np.dt(dt) if CUR is not None else dt
        if dt.kind == 'i':
            return ew(lambda a: lit(to_int(a)), self, dt=dt)
        if dt.kind == 'b':
            return ew(tm.tob, self, dt=dt)
        return ew(lambda a: a, self, dt=dt)

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def assign(self, key, val):
        setitem(self, Ellipsis if key is None else key, val)

    def sum(self, axis=None): return reduce_sum(self, axis)
    def all(self, axis=None): return reduce_all(self, axis)
    def any(self, axis=None): return reduce_any(self, axis)
    def ravel(self, order='C'): return ravel(self, order)
    def flatten(self, order='C'): return ravel(self, order).copy()
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)
    def min(self): return extremum(self, 'min')
    def max(self): return extremum(self, 'max')
    def squeeze(self): return squeeze(self)
    def tolist(self):
        if self.ndim == 0:
            return tm.unlit(self.at())
        if not self.concrete():
            raise Unsupported('tolist of an array of any length')

        def rec(i):
            return tm.unlit(self.at(*i)) if len(i) == self.ndim else [rec(i+(lit(k),)) for k in range(as_int(lit(self._shape[len(i)])))]
        return rec(())

    def __repr__(self):
        return 'SArr%r' % (self.shape,)


def amul(a, b):
    """product; on booleans: conjunction (numpy semantics of bool*bool)"""
    a, b = lit(a), lit(b)
    if a.sort == 'B' and b.sort == 'B':
        return tm.and_(a, b)
    return tm.mul(a, b)


def isbool(x):
    return x is TRUE or x is FALSE


def is_arr(x):
    return isinstance(x, SArr)


def arr(x, dtype=None):
    """asarray of nested lists / scalars / SArr."""
    if isinstance(x, SArr):
        return x
    if hasattr(x, '__array__') and not isinstance(x, T) and hasattr(x, 'tolist'):
        x = x.tolist()
    if isinstance(x, SymRange):
        return x.toarr()
    if isinstance(x, (list, tuple)):
        xs = [arr(e) if isinstance(e, (list, tuple, SArr)) else e for e in x]
        if any(isinstance(e, SArr) for e in xs):
            xs = [e if isinstance(e, SArr) else scalar_arr(e) for e in xs]
            shp = xs[0]._shape
            for e in xs:
                if len(e._shape) != len(shp) or not all(deq(p, q) for p, q in zip(e._shape, shp)):
                    raise Unsupported('ragged array')
            if all(e.concrete() for e in xs):
                tab = {(k,)+i: e.at(*i) for k, e in enumerate(xs) for i in e.indices()}
                return mktab((len(xs),)+tuple(shp), tab, dtmax(*[e.dtype for e in xs]))
            n = len(xs)
            def f(i, *r):
                out = xs[-1].at(*r)
                for k in range(n-2, -1, -1):
                    out = tm.ite(tm.cmp_eq(i, lit(k)), xs[k].at(*r), out)
                return out
            return build((n,)+tuple(shp), f, dtmax(*[e.dtype for e in xs]))
        if any(isinstance(e, str) or e is None for e in xs):
            raise Unsupported('array of objects')
        xs = [lit(e) for e in xs]
        d = dtype or (dtmax(*[sortdt(e) for e in xs]) if xs else DF)
        return mktab((len(xs),), {(k,): e for k, e in enumerate(xs)}, d)
    return scalar_arr(x)


def scalar_arr(x):
    x = lit(x)
    return mktab((), {(): x}, sortdt(x))


def mktab(shape, tab, dtype):
    if dtype.kind in 'fc':
        tab = {k: tm.toreal(lit(v)) for k, v in tab.items()}
    return SArr(Base(shape, dtype, tab=dict(tab)))


def build(shape, f, dtype=None):
    """New array with elements f(*idx)."""
    shape = tuple(shape)
    conc = [as_int(lit(d)) if not isinstance(d, MaskDim) else None for d in shape]
    if None not in conc:
        n = 1
        for d in conc:
            n *= d
        if n <= TABMAX:
            tab = {i: lit(f(*[lit(k) for k in i])) for i in itertools.product(*[range(d) for d in conc])}
            if dtype is None:
                dtype = dtmax(*[sortdt(v) for v in tab.values()]) if tab else DF
            return mktab(shape, tab, dtype)
    vs = [tm.fresh('x', 'I') for _ in shape]
    ctx = CUR.ctx
    ctx.push()
    try:
        for v, d in zip(vs, shape):
            ctx.add(tm.le(0, v))
            ctx.add(tm.lt(v, lit(full(d))))
            if isinstance(d, MaskDim):
                ctx.add(d.cond(v))
        CUR.gen_vars.append(vs)
        try:
            body = lit(f(*vs))
        finally:
            CUR.gen_vars.pop()
    finally:
        ctx.pop()
    if dtype is None:
        dtype = sortdt(body)
    if dtype.kind in 'fc':
        body = tm.toreal(body)
    return SArr(Base(shape, dtype, vars=tuple(vs), body=body))


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if not isinstance(e, MaskDim) and as_int(lit(e)) == 1:
                continue
            if not isinstance(d, MaskDim) and as_int(lit(d)) == 1:
                d = e
            elif isinstance(e, MaskDim) and e.counts(d):
                d = e
            elif isinstance(d, MaskDim) and d.counts(e):
                continue
            elif not deq(d, e):
                de = [as_int(lit(x)) if not isinstance(x, MaskDim) else None for x in (d, e)]
                if None not in de:
                    raise ValueError('operands could not be broadcast together')
                raise Unsupported('broadcast of unrelated lengths %s, %s' % (tm.show(lit(full(d))), tm.show(lit(full(e)))))
        out.append(d)
    return tuple(out)


def bidx(a, idx):
    """index into a (SArr) when broadcast to an index tuple"""
    k = len(idx) - a.ndim
    return tuple(lit(0) if (not isinstance(d, MaskDim) and as_int(lit(d)) == 1) else i
                 for d, i in zip(a._shape, idx[k:]))


def packed(a, shp):
    """an array with one entry per selected place can only be combined with a selection (whose elements keep their places) if it is uniform along that axis"""
    k = len(shp) - a.ndim
    for j, d in enumerate(a._shape):
        if isinstance(shp[k+j], MaskDim) and not isinstance(d, MaskDim) and as_int(lit(d)) != 1:
            vs = [tm.fresh('p', 'I') for _ in a._shape]
            w = tm.fresh('p', 'I')
            CUR.gen_vars.append(vs+[w])
            try:
                same = a.at(*vs) is a.at(*vs[:j], w, *vs[j+1:])
            finally:
                CUR.gen_vars.pop()
            if not same:
                raise Unsupported('selection combined with an array of its length')
    return a


def ew(f, *xs, dt=None):
    xs = [x if isinstance(x, SArr) else (arr(x) if isinstance(x, (list, tuple)) else lit(x)) for x in xs]
    shp = bshape([x._shape for x in xs if isinstance(x, SArr)] or [()])
    if any(isinstance(d, MaskDim) for d in shp):
        for x in xs:
            if isinstance(x, SArr):
                packed(x, shp)

    def g(*idx):
        return f(*[x.at(*bidx(x, idx)) if isinstance(x, SArr) else x for x in xs])
    r = build(shp, g, dt)
    if dt is None and not r.base.shape == () and r.base.tab == {}:
        r.base.dtype = dtmax(*[x.dtype for x in xs if isinstance(x, SArr)])
    if r.base.dtype.kind in 'if' and dt is None:
        # keep complex/float kind of the operands (re/im etc. excluded by body sort)
        pass
    if r._shape == ():
        return r.item() if not any(isinstance(x, SArr) and x._shape == () and len(xs) == 1 for x in xs) else r
    return r


def arith(f, *xs):
    """sums, products and quotients: complex if an operand is"""
    r = ew(f, *xs)
    if isinstance(r, SArr) and r.base.dtype.kind in 'bif' and any(x.dtype.kind == 'c' if isinstance(x, SArr) else lit(x).sort == 'C' for x in xs if x is not None):
        r.base.dtype = DC
    return r


class SymRange:
    """range/arange with symbolic bounds, step +-1 or a constant."""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lit(lo), lit(hi), step
        s = as_int(lit(step))
        if s is None or s == 0:
            raise Unsupported('range step')
        if s in (1, -1):
            d = tm.add(self.hi, tm.neg(self.lo)) if s == 1 else tm.add(self.lo, tm.neg(self.hi))
            self.n = tm.max_(d, lit(0))
        else:
            d = tm.add(self.hi, tm.neg(self.lo)) if s > 0 else tm.add(self.lo, tm.neg(self.hi))
            self.n = tm.max_(tm.floordiv(tm.add(d, abs(s)-1), abs(s)), lit(0))
        self.s = s
        if CUR is not None:
            for c in (tm.le(d, 0), tm.le(0, d)):
                if CUR.ctx.decide(c):
                    self.n = tm.subst(self.n, {})  # keep
            if s in (1, -1):
                dd = CUR.ctx.decide(tm.le(d, 0))
                if dd is not None:
                    self.n = lit(0) if dd else d

    def elem(self, k):
        return tm.add(self.lo, tm.mul(lit(self.s), lit(k)))

    def toarr(self):
        return build((tm.unlit(self.n),), lambda k: self.elem(k), DI)

    def __len__(self):
        raise Unsupported('len of symbolic range')


# ---- indexing ------------------------------------------------------------
def _norm_index(e, n):
    e = lit(e)
    n = lit(n)
    if e.op == 'f' and e.args[0].startswith('index:') and e.args[1] is n:
        return e            # an index into an array of that length, by the contract which introduced it
    ci, cn = as_int(e), as_int(n)
    if ci is not None and cn is not None:
        if not -cn <= ci < cn:
            raise IndexError('index %d out of bounds for axis with size %d' % (ci, cn))
        return lit(ci % cn if cn else 0)
    if ci is not None and ci < 0:
        e = tm.add(n, e)
        CUR.require(tm.le(0, e), 'index within array bounds')
        return e
    neg = CUR.ctx.decide(tm.lt(e, 0))
    if neg is None:
        if CUR.loop_free(e):
            neg = CUR.decide(tm.lt(e, 0))
        else:
            e = tm.ite(tm.lt(e, 0), tm.add(e, n), e)
            neg = False
    if neg:
        e = tm.add(n, e)
        CUR.require(tm.le(0, e), 'index within array bounds')
    else:
        CUR.require(tm.lt(e, n), 'index within array bounds')
    return e


def _decided(c):
    return CUR.ctx.decide(c) if CUR is not None else None


def _smin(a, b):
    d = _decided(tm.le(a, b))
    if d is None and _decided(tm.le(b, a)):
        d = False
    return lit(a) if d is True else lit(b) if d is False else tm.min_(lit(a), lit(b))


def _smax(a, b):
    d = _decided(tm.le(a, b))
    if d is None and _decided(tm.le(b, a)):
        d = False
    return lit(b) if d is True else lit(a) if d is False else tm.max_(lit(a), lit(b))


def slice_dim(s, n):
    """slice on a dimension of length n -> (start, step, length)"""
    if isinstance(n, MaskDim):
        if s.start is None and s.stop is None and s.step is None:
            return lit(0), 1, n
        raise Unsupported('slice of a masked axis')
    st = 1 if s.step is None else as_int(lit(s.step))
    if st is None:
        # symbolic positive step: x[k::m]
        return _strided(s, n)
    n = lit(n)
    cn = as_int(n)
    a = None if s.start is None else lit(s.start)
    b = None if s.stop is None else lit(s.stop)
    if cn is not None and (a is None or as_int(a) is not None) and (b is None or as_int(b) is not None):
        lo, hi, st = slice(None if a is None else as_int(a), None if b is None else as_int(b), st).indices(cn)
        return lit(lo), st, len(range(lo, hi, st))

    def norm(x):
        if as_int(x) is not None:
            neg = as_int(x) < 0
        else:
            neg = _decided(tm.lt(x, 0))
            if neg is None:
                neg = CUR.decide(tm.lt(x, 0)) if CUR.loop_free(x) else None
            if neg is None:
                raise Unsupported('slice bound of unknown sign')
        return tm.add(x, n) if neg else x
    if st > 0:
        lo = lit(0) if a is None else _smin(_smax(norm(a), 0), n)
        hi = n if b is None else _smin(_smax(norm(b), 0), n)
        d = tm.add(hi, tm.neg(lo))
        if st == 1:
            ln = _smax(d, 0)
        else:
            ln = _smax(tm.floordiv(tm.add(d, st-1), st), 0)
        return lo, st, tm.unlit(ln)
    if st == -1:
        hi = tm.add(n, -1) if a is None else _smin(norm(a), tm.add(n, -1))
        lo = lit(-1) if b is None else _smax(norm(b), -1)
        return hi, -1, tm.unlit(_smax(tm.add(hi, tm.neg(lo)), 0))
    raise Unsupported('slice step')


def _strided(s, n):
    step = lit(s.step)
    if s.stop is not None:
        if not deq(s.stop, n):
            raise Unsupported('symbolic stride with stop')
        n = s.stop
    a = lit(0) if s.start is None else lit(s.start)
    n = lit(n)
    # length ceil((n-a)/step); only exact multiples n = q*step with 0<=a<step supported
    q = CUR.exact_quotient(n, step)
    if q is None or not CUR.ctx.entails(tm.and_(tm.le(0, a), tm.lt(a, step))):
        raise Unsupported('symbolic stride')
    return a, step, tm.unlit(q)


class WhereIdx:
    """np.where(mask): the index tuple selecting the true elements of mask."""

    def __init__(self, mask):
        self.mask = mask
        self.cnt = None

    def count(self):
        """number of selected elements (zero exactly if no element is true)"""
        if self.cnt is None:
            c = tm.fresh('nsel', 'I')
            CUR.assume(tm.le(0, c))
            none = reduce_all(ew(tm.not_, self.mask))
            none = none.item() if isinstance(none, SArr) else lit(none)
            z = tm.cmp_eq(c, 0)
            CUR.assume(tm.and_(tm.implies(z, none), tm.implies(none, z)))
            self.cnt = c
        return self.cnt

    @property
    def size(self):
        return tm.unlit(tm.mul(lit(self.mask.ndim), self.count()))

    def __len__(self):
        return self.mask.ndim

    def item(self, k):
        if self.mask.ndim == 1:
            return WhereVec(self)
        w = getattr(CUR, 'where_witness', None)
        if w is None or self.mask.ndim != 2:
            raise Unsupported('np.where(mask)[k]')
        return self.by_row(w, getattr(CUR, 'where_hints', None))[k]

    def by_row(self, w, hints):
        """exactly one true element per row, in column w(row): proved here, then
        np.where gives (0..n-1, w)"""
        n, nc = self.mask._shape
        i, j = (lit(0) if as_int(lit(d)) == 1 else tm.fresh('x', 'I') for d in (n, nc))
        CUR.ctx.push()
        try:
            for v, d in ((i, n), (j, nc)):
                CUR.ctx.add(tm.le(0, v))
                CUR.ctx.add(tm.lt(v, lit(d)))
            if hints:
                CUR.ctx.add(hints(i, j))
            CUR.gen_vars.append([v for v in (i, j) if v is not lit(0)])
            try:
                c = tm.tob(self.mask.at(i, j))
            finally:
                CUR.gen_vars.pop()
            e = tm.cmp_eq(j, w(i))
            ok = CUR.ctx.entails(tm.and_(tm.le(0, w(i)), tm.lt(w(i), lit(nc)))) and CUR.ctx.entails(tm.implies(c, e)) \
                and CUR.ctx.entails(tm.implies(e, c))
        finally:
            CUR.ctx.pop()
        if not ok:
            raise Unsupported('np.where(mask): the true elements are not the expected ones')
        return build((n,), lambda k: k, DI), build((n,), w, DI)


class WhereVec:
    """np.where(mask)[0] of a one-dimensional mask"""

    def __init__(self, w):
        self.w = w

    @property
    def size(self):
        return self.w.size

    def __iter__(self):
        """the selected places one after the other (each place decided)"""
        m = self.w.mask
        n = as_int(lit(full(m._shape[0]))) if m.ndim == 1 and not isinstance(m._shape[0], MaskDim) else None
        if n is None or n > 8:
            raise Unsupported('loop over the places of a mask')
        for k in range(n):
            if CUR.decide(tm.tob(lit(m.at(lit(k))))):
                yield k


def unwhere(k):
    if isinstance(k, (WhereIdx, WhereVec)):
        return k.mask if isinstance(k, WhereIdx) else k.w.mask
    return k


def expand_key(a, key):
    if isinstance(key, tuple):
        key = tuple(unwhere(k) for k in key)
    else:
        key = unwhere(key)
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nspec = 0
    for k in key:
        if k is None:
            continue
        if k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.dtype.kind == 'b':
            nspec += k.ndim
        else:
            nspec += 1
    if any(k is Ellipsis for k in key):
        j = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[j:j+1] = [slice(None)]*(a.ndim-nspec)
    else:
        key += [slice(None)]*(a.ndim-nspec)
    if nspec > a.ndim:
        raise IndexError('too many indices')
    return key


def view_of(a, key):
    """(shape, imap) for a key; imap maps view index to index of `a`."""
    key = expand_key(a, key)
    shape, maps = [], []
    d = 0
    fancy = None
    masked = False
    pos = 0
    for k in key:
        if k is None:
            shape.append(1)
            pos += 1
            continue
        n = a._shape[d]
        if isinstance(k, SArr) and k._shape == () and k.dtype.kind in 'ib':
            k = k.item()
        if isinstance(k, list):
            k = arr(k)
        if isinstance(k, range):
            k = arr(list(k))
        if isinstance(k, SymRange):
            k = k.toarr()
        if isinstance(k, slice):
            lo, st, ln = slice_dim(k, n)
            shape.append(ln)
            maps.append((lambda idx, p=pos, lo=lo, st=st: tm.add(lo, tm.mul(lit(st), idx[p]))) if not (lo is lit(0) and st == 1)
                        else (lambda idx, p=pos: idx[p]))
            pos += 1
            d += 1
        elif isinstance(k, SArr):
            if k.dtype.kind == 'b':
                if k.ndim != 1:
                    if k.ndim == a.ndim and len(key) == 1:
                        raise NDMask(k)
                    raise Unsupported('multi-dimensional mask')
                if isinstance(n, MaskDim):
                    if not deq(k._shape[0], n):
                        raise Unsupported('mask of a masked axis')
                    v = tm.fresh('m', 'I')
                    CUR.ctx.push()
                    CUR.ctx.add(tm.le(0, v)); CUR.ctx.add(tm.lt(v, lit(n.n))); CUR.ctx.add(n.cond(v))
                    CUR.gen_vars.append([v])
                    body = k.at(v)
                    CUR.gen_vars.pop()
                    CUR.ctx.pop()
                    shape.append(MaskDim(n.n, (v, tm.and_(n.cond(v), body))))
                    maps.append(lambda idx, p=pos: idx[p])
                    pos += 1
                    d += 1
                    continue
                if k.concrete() and all(isbool(k.at(*i)) for i in k.indices()):
                    sel = [i[0] for i in k.indices() if k.at(*i) is TRUE]
                    k = mktab((len(sel),), {(j,): lit(s) for j, s in enumerate(sel)}, DI)
                else:
                    v = tm.fresh('m', 'I')
                    if not deq(k._shape[0], n):
                        raise Unsupported('mask length')
                    CUR.ctx.push()
                    CUR.ctx.add(tm.le(0, v)); CUR.ctx.add(tm.lt(v, lit(n)))
                    CUR.gen_vars.append([v])
                    body = k.at(v)
                    CUR.gen_vars.pop()
                    CUR.ctx.pop()
                    if body is TRUE:
                        shape.append(n)
                        masked = True
                    else:
                        shape.append(MaskDim(n, (v, body)))
                    maps.append(lambda idx, p=pos: idx[p])
                    pos += 1
                    d += 1
                    continue
            if fancy is not None:
                # second fancy index: paired with the first
                fp, fk = fancy
                if not (k.ndim == fk.ndim == 1 and deq(k._shape[0], fk._shape[0])):
                    raise Unsupported('fancy indexing')
                maps.append(lambda idx, k=k, p=fp, n=n: _norm_index(k.at(idx[p]), n))
                d += 1
                continue
            fancy = (pos, k)
            shape += list(k._shape)
            maps.append(lambda idx, k=k, p=pos, n=n: _norm_index(k.at(*idx[p:p+k.ndim]), n))
            pos += k.ndim
            d += 1
        else:
            if isinstance(n, MaskDim):
                raise Unsupported('element of a masked axis')
            if isinstance(k, (bool,)) or k is TRUE or k is FALSE:
                raise Unsupported('boolean scalar index')
            e = _norm_index(k, n)
            maps.append(lambda idx, e=e: e)
            d += 1
    return tuple(shape), (lambda idx: tuple(m(idx) for m in maps)), fancy is not None or masked


class NDMask(Exception):
    def __init__(self, mask):
        self.mask = mask


def getitem(a, key):
    try:
        shape, mp, fancy = view_of(a, key)
    except NDMask as e:
        m = e.mask
        if m.concrete() and all(isbool(m.at(*i)) for i in m.indices()):
            sel = [i for i in m.indices() if m.at(*i) is TRUE]
            return mktab((len(sel),), {(j,): a.at(*i) for j, i in enumerate(sel)}, a.dtype)
        raise Unsupported('multi-dimensional mask read')
    im = a.imap
    comp = (lambda idx: im(mp(idx))) if im else mp
    if shape == ():
        return tm.unlit(a.base.read(comp(())))
    v = SArr(a.base, shape, comp)
    if fancy or any(isinstance(d, MaskDim) for d in shape):
        return v.copy()
    return v


def setitem(a, key, val):
    part = a.base.part
    if part is None:
        return _setitem(a, key, val)
    if a.imap is not None:
        raise Unsupported('store to a view of the real or imaginary part')
    whole, which = part
    if isinstance(val, (list, tuple)):
        val = arr(val)
    now = whole[key]
    new = (lambda v, x: tm.add(v, tm.mul(lit(1j), tm.im_(x)))) if which == 're' else (lambda v, x: tm.add(tm.re_(x), tm.mul(lit(1j), v)))
    now = ew(new, val, now, dt=DC) if isinstance(val, SArr) or isinstance(now, SArr) else new(lit(val), lit(now))
    _setitem(a, key, val)
    _setitem(whole, key, now)


def _setitem(a, key, val):
    key = unwhere(key)
    if isinstance(key, SArr) and key.dtype.kind == 'b' and key.ndim == a.ndim and a.ndim != 1:
        m = key
        shape, mp = a._shape, (lambda idx: idx)
        gf = lambda idx: m.at(*idx)
    else:
        shape, mp, fancy = view_of(a, key)
        gf = None
    base = a.base
    CUR.note_write(base)
    im = a.imap
    comp = (lambda idx: im(mp(idx))) if im else mp
    if isinstance(val, (list, tuple)):
        val = arr(val)
    if not isinstance(val, SArr):
        val = lit(val)
    if isinstance(val, SArr):
        if val.ndim > len(shape):
            # allow leading unit dims
            extra = val.ndim - len(shape)
            if all(as_int(lit(d)) == 1 for d in val._shape[:extra]):
                v0 = val
                val = SArr(v0.base, v0._shape[extra:], (lambda idx, v0=v0, e=extra: (v0.imap or (lambda q: q))((lit(0),)*e + tuple(idx))))
            else:
                raise ValueError('could not broadcast input array')
        bs = bshape([tuple(shape), val._shape])
        if len(bs) != len(shape) or not all(deq(p, q) for p, q in zip(bs, shape)):
            raise ValueError('could not broadcast input array into shape')
        if any(isinstance(d, MaskDim) for d in shape):
            packed(val, tuple(shape))
    conc = all(not isinstance(d, MaskDim) and as_int(lit(d)) is not None for d in shape)
    n = 1
    if conc:
        for d in shape:
            n *= as_int(lit(d))
    if conc and n <= TABMAX:
        items = []
        for i in itertools.product(*[range(as_int(lit(d))) for d in shape]):
            idx = tuple(lit(k) for k in i)
            v = val.at(*bidx(val, idx)) if isinstance(val, SArr) else val
            items.append((comp(idx), conv(base, v), gf(idx) if gf else TRUE))
        for bi, v, g in items:
            put(base, (), bi, v, g)
        return
    vs = [lit(0) if as_int(lit(full(d))) == 1 else tm.fresh('s', 'I') for d in shape]
    CUR.ctx.push()
    try:
        guard = TRUE
        for v, d in zip(vs, shape):
            if v is not lit(0):
                CUR.ctx.add(tm.le(0, v))
                CUR.ctx.add(tm.lt(v, lit(full(d))))
            if isinstance(d, MaskDim):
                g = d.cond(v)
                CUR.ctx.add(g)
                guard = tm.and_(guard, g)
        CUR.gen_vars.append([v for v in vs if v is not lit(0)])
        try:
            if gf:
                guard = gf(tuple(vs))
                CUR.ctx.add(guard)
            v = val.at(*bidx(val, tuple(vs))) if isinstance(val, SArr) else val
            bi = comp(tuple(vs))
        finally:
            CUR.gen_vars.pop()
    finally:
        CUR.ctx.pop()
    put(base, tuple((x, lit(0), lit(full(d))) for x, d in zip(vs, shape) if x is not lit(0)), bi, conv(base, v), guard)


def conv(base, v):
    v = lit(v)
    k = base.dtype.kind
    if k == 'b' and v.sort != 'B':
        v = tm.tob(v)
    elif k in 'fc':
        v = tm.toreal(v)
        if k == 'f' and v.sort == 'C':
            CUR.require_real(v)
    elif k == 'i' and v.sort in 'RC':
        v = lit(to_int(v))
    return v


def put(base, vars, idx, val, guard):
    guard = tm.and_(guard, *CUR.guards)
    idx = tuple(lit(i) for i in idx)
    st = Store(vars, idx, val, guard)
    if (base.tab is not None and not vars and guard is TRUE and not base.stores
            and not CUR.loops and all(as_int(i) is not None for i in idx)):
        CUR.journal_tab(base, tuple(as_int(i) for i in idx))
        base.tab[tuple(as_int(i) for i in idx)] = val
        return
    base.stores.append(st)
    CUR.note_store(base, st)


# ---- reductions and shape functions ---------------------------------------
def _axis(a, axis):
    ax = as_int(lit(axis))
    return ax % a.ndim


def reduce_sum(a, axis=None):
    a = arr(a)
    if axis is None:
        r = a
        for _ in range(a.ndim):
            r = reduce_sum(r, 0)
            if not isinstance(r, SArr):
                return r
        return r.item() if isinstance(r, SArr) else r
    ax = _axis(a, axis)
    n = a._shape[ax]
    shp = a._shape[:ax]+a._shape[ax+1:]

    def f(*idx):
        cn = as_int(lit(full(n)))
        if cn is not None and cn <= 64:
            out = lit(0)
            for k in range(cn):
                x = tm._b2i(a.at(*idx[:ax], lit(k), *idx[ax:]))
                if isinstance(n, MaskDim):
                    x = tm.ite(n.cond(lit(k)), x, lit(0))
                out = tm.add(out, x)
            return out
        return gen_sum(lit(full(n)), lambda k: (lambda x: tm.ite(n.cond(k), x, lit(0)) if isinstance(n, MaskDim) else x)(
            tm._b2i(a.at(*idx[:ax], k, *idx[ax:]))))
    r = build(shp, f, None)
    return r.item() if shp == () else r


def gen_sum(n, f):
    v = tm.fresh('k', 'I')
    CUR.ctx.push()
    CUR.ctx.add(tm.le(0, v))
    CUR.ctx.add(tm.lt(v, lit(n)))
    CUR.gen_vars.append([v])
    try:
        body = lit(f(v))
    finally:
        CUR.gen_vars.pop()
        CUR.ctx.pop()
    if body.op == 'c' and CUR.ctx.decide(tm.le(0, n)):
        return tm.mul(body, n)
    return tm.sum_(v, lit(0), lit(n), body)


def gen_all(n, f):
    v = tm.fresh('k', 'I')
    CUR.ctx.push()
    CUR.ctx.add(tm.le(0, v))
    CUR.ctx.add(tm.lt(v, lit(n)))
    CUR.gen_vars.append([v])
    try:
        body = tm.tob(f(v))
    finally:
        CUR.gen_vars.pop()
        CUR.ctx.pop()
    return tm.all_(v, lit(0), lit(n), body)


def reduce_all(a, axis=None):
    a = arr(a)
    if axis is None:
        def rec(idx):
            if len(idx) == a.ndim:
                return tm.tob(a.at(*idx))
            d = a._shape[len(idx)]
            cn = as_int(lit(full(d)))
            if cn is not None and cn <= 64:
                return tm.and_(*[tm.implies(d.cond(lit(k)), rec(idx+(lit(k),))) if isinstance(d, MaskDim) else rec(idx+(lit(k),))
                                 for k in range(cn)])
            return gen_all(full(d), lambda k: tm.implies(d.cond(k), rec(idx+(k,))) if isinstance(d, MaskDim) else rec(idx+(k,)))
        return tm.unlit(rec(()))
    ax = _axis(a, axis)
    n = a._shape[ax]
    shp = a._shape[:ax]+a._shape[ax+1:]
    r = build(shp, lambda *idx: gen_all(full(n), lambda k: a.at(*idx[:ax], k, *idx[ax:])) if as_int(lit(full(n))) is None
              else tm.and_(*[a.at(*idx[:ax], lit(k), *idx[ax:]) for k in range(as_int(lit(n)))]), DB)
    return r.item() if shp == () else r


def reduce_any(a, axis=None):
    r = reduce_all(ew(tm.not_, arr(a)) if is_arr(arr(a)) else a, axis)
    if isinstance(r, SArr):
        return ew(tm.not_, r)
    return tm.unlit(tm.not_(r))


def extremum(a, which):
    """min/max: an uninterpreted value bounded by every element (assumed contract)."""
    a = arr(a)
    if a.concrete():
        xs = [a.at(*i) for i in a.indices()]
        if not xs:
            raise ValueError('zero-size array')
        r = xs[0]
        for x in xs[1:]:
            r = (tm.min_ if which == 'min' else tm.max_)(r, x)
        return tm.unlit(r)
    return CUR.np_extremum(a, which)


def ravel(a, order='C'):
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return reshape(a, (1,), order)
    return reshape(a, (-1,), order)


def squeeze(a, axis=None):
    if not isinstance(a, SArr):
        return a
    if axis is not None:
        ax = [as_int(lit(x)) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        ax = [x+a.ndim if x < 0 else x for x in ax]
        if any(isinstance(a._shape[x], MaskDim) or not CUR.decide_dim1(a._shape[x]) for x in ax):
            raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        keep = [i for i in range(a.ndim) if i not in ax]
    else:
        keep = [i for i, d in enumerate(a._shape) if not (not isinstance(d, MaskDim) and CUR.decide_dim1(d))]
    if len(keep) == a.ndim:
        return a
    im = a.imap or (lambda i: i)

    def mp(idx):
        full_ = [lit(0)]*a.ndim
        for k, i in zip(keep, idx):
            full_[k] = i
        return im(tuple(full_))
    return SArr(a.base, tuple(a._shape[k] for k in keep), mp)


def reshape(a, shape, order='C'):
    shape = [dim(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,))]
    if a.ndim > 1 and len(shape) > 1 and isinstance(a._shape[0], MaskDim) and a._shape[0].counts(shape[0]):
        # each selected row by itself, in either order
        im0 = a.imap or (lambda i: i)
        keep = []
        one = reshape(SArr(a.base, a._shape[1:], lambda idx: im0((keep[-1],)+tuple(idx))), shape[1:], order)

        def rows(idx):
            keep.append(idx[0])
            try:
                return one.imap(tuple(idx[1:]))
            finally:
                keep.pop()
        return SArr(a.base, (a._shape[0],)+tuple(one._shape), rows)
    if order == 'F':
        r = reshape(a.T, tuple(shape[::-1]), 'C')
        return r.T
    tot = a.size
    if any(as_int(lit(d)) == -1 for d in shape):
        known = lit(1)
        for d in shape:
            if as_int(lit(d)) != -1:
                known = tm.mul(known, lit(d))
        q = CUR.exact_quotient(lit(tot), known)
        if q is None:
            raise Unsupported('reshape with unknown size')
        shape = [tm.unlit(q) if as_int(lit(d)) == -1 else d for d in shape]
    old = list(a._shape)
    # drop unit dims; match groups
    if all(as_int(lit(d)) is not None for d in list(shape)+old if not isinstance(d, MaskDim)) and not any(isinstance(d, MaskDim) for d in old):
        oc = [as_int(lit(d)) for d in old]
        ncs = [as_int(lit(d)) for d in shape]
        import math
        if math.prod(oc) != math.prod(ncs):
            raise ValueError('cannot reshape array of size %d into shape %r' % (math.prod(oc), tuple(ncs)))

        def mp(idx):
            lin = lit(0)
            for i, n in zip(idx, ncs):
                lin = tm.add(tm.mul(lin, lit(n)), i)
            out = []
            for n in reversed(oc):
                out.append(tm.mod(lin, lit(n)) if n != 1 else lit(0))
                lin = tm.floordiv(lin, lit(n))
            return tuple(reversed(out))
        im = a.imap or (lambda i: i)
        return SArr(a.base, tuple(ncs), lambda idx: im(mp(idx)))
    if any(isinstance(d, MaskDim) for d in old):
        raise Unsupported('reshape of a selection')
    no = [i for i, d in enumerate(old) if as_int(lit(d)) != 1]
    nn = [i for i, d in enumerate(shape) if as_int(lit(d)) != 1]
    # strip: match leading dims that are equal; remaining must be a merge or split of two dims
    maps = {}
    if len(no) == 1 and len(nn) > 2:      # one axis into many: linear index
        tot2 = lit(1)
        for k in nn:
            tot2 = tm.mul(tot2, lit(shape[k]))
        if deq(tot2, old[no[0]]):
            ax = no[0]

            def mp1(idx):
                lin = lit(0)
                for k in nn:
                    lin = tm.add(tm.mul(lin, lit(shape[k])), idx[k])
                return tuple(lin if q == ax else lit(0) for q in range(len(old)))
            im = a.imap or (lambda i: i)
            return SArr(a.base, tuple(shape), lambda idx: im(mp1(idx)))
    i = j = 0
    while i < len(no) and j < len(nn):
        if deq(old[no[i]], shape[nn[j]]):
            maps[no[i]] = ('id', nn[j])
            i += 1
            j += 1
            continue
        # merge old i,i+1 (all remaining) -> new j : new index = q*n2 + r
        if i+1 < len(no) and deq(tm.mul(lit(old[no[i]]), lit(old[no[i+1]])), shape[nn[j]]):
            maps[no[i]] = ('q', nn[j], old[no[i+1]])
            maps[no[i+1]] = ('r', nn[j], old[no[i+1]])
            i += 2
            j += 1
            continue
        if j+1 < len(nn) and deq(tm.mul(lit(shape[nn[j]]), lit(shape[nn[j+1]])), old[no[i]]):
            maps[no[i]] = ('lin', nn[j], nn[j+1], shape[nn[j+1]])
            i += 1
            j += 2
            continue
        raise Unsupported('reshape %r -> %r' % (old, shape))
    if i < len(no) or j < len(nn):
        raise Unsupported('reshape %r -> %r' % (old, shape))

    def mp(idx):
        out = []
        for k in range(len(old)):
            m = maps.get(k)
            if m is None:
                out.append(lit(0))
            elif m[0] == 'id':
                out.append(idx[m[1]])
            elif m[0] == 'lin':
                out.append(tm.add(tm.mul(idx[m[1]], lit(m[3])), idx[m[2]]))
            else:
                q, r = CUR.divmod_sym(idx[m[1]], lit(m[2]))
                out.append(q if m[0] == 'q' else r)
        return tuple(out)
    im = a.imap or (lambda i: i)
    return SArr(a.base, tuple(shape), lambda idx: im(mp(idx)))


def dot(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(tm.mul, a, b)
    n = a._shape[-1]
    m = b._shape[0] if b.ndim == 1 else b._shape[-2]
    if not deq(n, m):
        raise ValueError('shapes not aligned')
    shp = a._shape[:-1] + (() if b.ndim == 1 else b._shape[:-2]+b._shape[-1:])
    na = a.ndim-1

    def f(*idx):
        ai, bi = idx[:na], idx[na:]
        g = lambda k: tm.mul(a.at(*ai, k), b.at(*bi[:-1], k, *bi[-1:]) if b.ndim > 1 else b.at(k))
        cn = as_int(lit(n))
        if cn is not None and cn <= 64:
            return tm.add(lit(0), *[g(lit(k)) for k in range(cn)])
        return gen_sum(n, g)
    r = build(shp, f, None)
    return r.item() if shp == () else r
