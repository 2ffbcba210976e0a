"""Contracts of empymod.utils (input handling, geometry, material parameters)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, INF
from pv.arrays import SArr
from pv import verify as vf, npshim
from pv.interp import PyRaise, Obligation
from pv.terms import Unsupported



def vec(I, name, n, sort='R', f=None, lo=None):
    a = A.build((tm.unlit(lit(n)),), f or (lambda k: fn(name, k, sort=sort)), A.DF if sort == 'R' else A.DC)
    vf.frame(I, name, a)
    return a


# printing helpers: results are text only, nothing is returned to the model
PRINT = {'utils._strvar': lambda I, a: '<text>', 'utils._prnt_min_max_val': lambda I, a: None}


def size(I, name, lo=1):
    n = sym(name, 'I')
    I.assume(tm.le(lo, n))
    return n


def expect_raise(I, name, f, exc):
    """the call must raise exc on this path"""
    try:
        r = f()
    except PyRaise as e:
        ok = isinstance(e.exc, exc)
        I.obls.append(Obligation(name, 'proved' if ok else 'refuted', '' if ok else 'raises %r | path: %s' % (e.exc, vf.path_text(I)), 'symbolic execution'))
        return
    I.obls.append(Obligation(name, 'refuted', 'not refused, returns %r | path: %s' % (r, vf.path_text(I)), 'symbolic execution'))


# ------------------------------------------------------------------ C09
VALID = [r*10+s for r in range(1, 7) for s in range(1, 7)]


def unit_check_ab(valid=True):
    def run(I):
        ab, verb = sym('ab', 'I'), sym('verb', 'I')
        f = I.module('utils').check_ab
        ok = tm.or_(*[tm.cmp_eq(ab, k) for k in VALID])
        v = vf.V(I)
        if not valid:
            I.assume(tm.not_(ok))
            expect_raise(I, 'every other code is refused', lambda: I.call_body(f, [ab, verb], {}), ValueError)
            return
        I.assume(ok)
        out = I.call_body(f, [ab, verb], {})
        v.fact('three results', isinstance(out, tuple) and len(out) == 3, repr(out))
        cab, ms, mr = out
        s, r = sym('s', 'I'), sym('r', 'I')
        for x in (s, r):
            I.assume(tm.and_(tm.le(1, x), tm.le(x, 6)))
        I.assume(tm.cmp_eq(ab, tm.add(tm.mul(10, r), s)))
        v.true('magnetic source exactly if the source digit exceeds 3', iff(tm.tob(ms), tm.lt(3, s)))
        v.true('magnetic receiver exactly if the receiver digit exceeds 3', iff(tm.tob(mr), tm.lt(3, r)))
        both = tm.and_(tm.lt(3, s), tm.lt(3, r))
        want = tm.ite(both, tm.add(tm.mul(10, tm.add(r, -3)), s, -3), tm.ite(tm.lt(3, r), tm.add(tm.mul(10, s), r), ab))
        v.true('computed component: dual code for magnetic pairs, transposed code for mixed pairs with magnetic receiver', tm.cmp_eq(cab, want))
    return vf.verify('utils.check_ab (%s codes)' % ('valid' if valid else 'other'), run, {}, {}, 60)


def iff(a, b):
    return tm.and_(tm.implies(a, b), tm.implies(b, a))


# ------------------------------------------------------------------ C10
def minvec(f, m):
    """contract of _check_min with a configured minimum m"""
    return lambda k: tm.ite(tm.lt(f(k), m), m, f(k))


def unit_check_frequency(laplace, asdict):
    def run(I):
        n, N = size(I, 'nf'), size(I, 'N')
        f = lambda k: fn('freq', k, sort='R')
        m = sym('min_freq', 'R')
        I.assume(tm.lt(0, m))
        mod = I.module('utils')
        setglob(I, 'utils', '_min_freq', m)
        # any frequency positive <=> frequency domain
        k0 = sym('k0', 'I')
        if laplace:
            q = tm.fresh('q', 'I')
            I.assume(tm.all_(q, lit(0), n, tm.le(f(q), 0)))
        else:
            I.assume(tm.and_(tm.le(0, k0), tm.lt(k0, n), tm.lt(0, f(k0))))
        par = {p: vec(I, p, N) for p in ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')}
        res = {'res': par['res'], 'other': 3} if asdict else par['res']
        out = I.call_body(mod.check_frequency, [vec(I, 'freq', n), res] + [par[p] for p in ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')] + [sym('verb', 'I')], {})
        v = vf.V(I)
        v.fact('five results', isinstance(out, tuple) and len(out) == 5, repr(out))
        fr = minvec((lambda k: tm.neg(f(k))) if laplace else f, m)
        v.array('frequencies: clamped to the minimum', out[0], (n,), fr)
        s = fr if laplace else lambda k: tm.mul(2, lit(1j), tm.PI, fr(k))
        P = {p: (lambda l, p=p: fn(p, l, sort='R')) for p in par}
        mu0 = tm.mul(tm.flit(4e-7), tm.PI)
        eps0 = tm.div(1, tm.mul(mu0, 299792458, 299792458))
        v.array('etaH = 1/res + s eps0 epermH', out[1], (n, N), lambda i, l: tm.add(tm.div(1, P['res'](l)), tm.mul(s(i), P['epermH'](l), eps0)))
        v.array('etaV = 1/(res aniso^2) + s eps0 epermV', out[2], (n, N), lambda i, l: tm.add(tm.div(1, tm.mul(P['res'](l), P['aniso'](l), P['aniso'](l))), tm.mul(s(i), P['epermV'](l), eps0)))
        v.array('zetaH = s mu0 mpermH', out[3], (n, N), lambda i, l: tm.mul(s(i), mu0, P['mpermH'](l)))
        v.array('zetaV = s mu0 mpermV', out[4], (n, N), lambda i, l: tm.mul(s(i), mu0, P['mpermV'](l)))
    return vf.verify('utils.check_frequency (%s%s)' % ('Laplace' if laplace else 'frequency', ', dict' if asdict else ''), run, PRINT, {}, 90)


def setglob(I, mod, name, val):
    I.module(mod)._d[name] = val


def main(g):
    W = int(os.environ.get('W', 500))
    for u in eval(sys.argv[1], g):
        d = u.as_dict()
        print(d['name'], d['paths'], d['obligations'], d['status'], d['wall_s'])
        for x in d['limits'][:3]:
            print('   LIMIT', x[:W])
        for o in d['open'][:6]:
            print('   ', o['status'], o['name'], '|', o['detail'][:W])


# ------------------------------------------------------------------ C25
MINS = ('min_freq', 'min_time', 'min_off', 'min_res', 'min_angle')


def unit_minimum(given):
    """set_minimum changes exactly the given settings; get_minimum reports all five"""
    def run(I):
        old = {k: sym('old_'+k, 'R') for k in MINS}
        new = {k: sym('new_'+k, 'R') for k in MINS}
        for k in MINS:
            setglob(I, 'utils', '_'+k, old[k])
        mod = I.module('utils')
        I.call_body(mod.set_minimum, [], {k: new[k] for k in given})
        out = I.call_body(mod.get_minimum, [], {})
        v = vf.V(I)
        v.fact('a dictionary with the five settings', isinstance(out, dict) and set(out) == set(MINS), repr(out))
        for k in MINS:
            v.eq('%s is %s' % (k, 'the new value' if k in given else 'unchanged'), out[k], new[k] if k in given else old[k])
            v.eq('%s: setting' % k, mod._d['_'+k], new[k] if k in given else old[k])
    return vf.verify('utils.set_minimum/get_minimum (%s)' % (', '.join(given) or 'nothing given'), run, PRINT, {}, 30)


def unit_check_min(scalar, none=False):
    def run(I):
        m = None if none else sym('minimum', 'R')
        mod = I.module('utils')
        n = size(I, 'n', 0)
        if scalar:
            x = A.build((), lambda: sym('x', 'R'), A.DF)
        else:
            x = A.build((tm.unlit(n),), lambda k: fn('x', k, sort='R'), A.DF)
        out = I.call_body(mod._check_min, [x, m, 'name', 'unit', sym('verb', 'I')], {})
        v = vf.V(I)
        f = lambda q: q if none else tm.ite(tm.lt(q, m), m, q)
        if scalar:
            v.array('the value, or the minimum if it is smaller', out, (), lambda: f(sym('x', 'R')))
        else:
            v.array('exactly the entries below the minimum are replaced by it', out, (n,), lambda k: f(fn('x', k, sort='R')))
    return vf.verify('utils._check_min (%s%s)' % ('scalar' if scalar else 'array', ', no minimum' if none else ''), run, PRINT, {}, 30)


# contract of _check_min, proved by unit_check_min
def check_min_contract(I, a):
    x, m = list(a.values())[:2]
    if not isinstance(x, SArr):
        x = A.scalar(x) if hasattr(A, 'scalar') else A.build((), lambda: tm.unlit(lit(x)), A.DF)
    if m is None:
        return x
    x = x.copy(); g = x.at
    return A.build(x._shape, lambda *k: tm.ite(tm.lt(g(*k), m), m, g(*k)), A.DF)


# ------------------------------------------------------------------ C12
def unit_layer(kind):
    """kind: 'one' a single depth, 'many' a vector"""
    def run(I):
        N, n = size(I, 'N'), size(I, 'n')
        if kind == 'one':
            n = lit(1)
        dep = lambda l: tm.ite(tm.le(lit(l), 0), tm.neg(INF), fn('depth', l, sort='R'))
        z = lambda k: fn('z', k, sort='R')
        w = lambda k: fn('layer', z(k), sort='I')
        top = lambda l: dep(l)
        # definition of the layer of a depth (exists and is unique for increasing depths, by induction on the number of layers)
        a, b = tm.fresh('a', 'I'), tm.fresh('b', 'I')
        I.assumed.add('depth[0] = -inf, depths increase weakly (C11), the given depths are finite')
        q = tm.fresh('q', 'I')
        lay = lambda k: tm.and_(tm.lt(z(k), INF), tm.lt(tm.neg(INF), z(k)), tm.le(0, w(k)), tm.lt(w(k), N), tm.or_(tm.cmp_eq(w(k), 0), tm.lt(fn('depth', w(k), sort='R'), z(k))),
                                tm.or_(tm.cmp_eq(w(k), tm.add(N, -1)), tm.le(z(k), fn('depth', tm.add(w(k), 1), sort='R'))))
        I.assume(tm.all_(q, lit(0), n, lay(q)))
        I.assume(tm.all_(a, lit(1), N, tm.all_(b, a, N, tm.le(fn('depth', a, sort='R'), fn('depth', b, sort='R')))))
        D = lambda l: fn('depth', l, sort='R')
        mono = lambda x, y: tm.implies(tm.and_(tm.le(1, x), tm.le(x, y), tm.lt(y, N)), tm.le(D(x), D(y)))
        I.where_witness = w
        # instances of the assumptions above for a row k and a column j
        I.where_hints = lambda k, j: tm.and_(lay(k), *[mono(x, y) for p in (j, tm.add(j, 1)) for x, y in ((p, w(k)), (w(k), p), (tm.add(w(k), 1), p), (p, tm.add(w(k), 1)))])
        d = A.build((tm.unlit(N),), dep, A.DF)
        vf.frame(I, 'depth', d)
        zz = A.build((tm.unlit(n),), z, A.DF)
        vf.frame(I, 'z', zz)
        out = I.call_body(I.module('utils').get_layer_nr, [[None, None, zz], d], {})
        v = vf.V(I)
        v.fact('two results', isinstance(out, tuple) and len(out) == 2, repr(out))
        one = I.decide_dim1(tm.unlit(n)) if kind != 'one' else True
        shp, at = ((), lambda f: (lambda: f(lit(0)))) if one else ((n,), lambda f: f)
        v.array('the layer above whose upper and not below whose lower interface the depth lies', out[0], shp, at(w))
        v.array('the depths', out[1], shp, at(z))
    return vf.verify('utils.get_layer_nr (%s)' % kind, run, PRINT, {}, 60)


# ------------------------------------------------------------------ C13
def unit_off_ang():
    def run(I):
        ns, nr = size(I, 'nsrc'), size(I, 'nrec')
        m = sym('min_off', 'R')
        I.assume(tm.lt(0, m))
        setglob(I, 'utils', '_min_off', m)
        src = [vec(I, 'xs', ns), vec(I, 'ys', ns)]
        rec = [vec(I, 'xr', nr), vec(I, 'yr', nr)]
        out = I.call_body(I.module('utils').get_off_ang, [src, rec, tm.unlit(ns), tm.unlit(nr), sym('verb', 'I')], {})
        v = vf.V(I)
        v.fact('two results', isinstance(out, tuple) and len(out) == 2, repr(out))

        def dxy(k):
            s, r = I.divmod_sym(k, nr)
            return tm.add(fn('xr', r, sort='R'), tm.neg(fn('xs', s, sort='R'))), tm.add(fn('yr', r, sort='R'), tm.neg(fn('ys', s, sort='R')))

        def off(k):
            x, y = dxy(k)
            o = tm.sqrt_(tm.add(tm.mul(x, x), tm.mul(y, y)))
            return tm.ite(tm.lt(o, m), m, o)
        n = tm.mul(ns, nr)
        v.array('offset: horizontal distance, at least the minimum; receivers vary fastest', out[0], (n,), off)
        v.array('angle of the vector from source to receiver', out[1], (n,), lambda k: fn('arctan2', dxy(k)[1], dxy(k)[0], sort='R'))
    return vf.verify('utils.get_off_ang', run, PRINT, {}, 60)


def unit_angle_factor(ab, msrc, mrec):
    """factor = cos/sin of the (doubled) angle, turned by pi for magnetic receivers of electric sources"""
    def run(I):
        n = size(I, 'n')
        out = I.call_body(I.module('kernel').angle_factor, [vec(I, 'angle', n), ab, msrc, mrec], {})
        v = vf.V(I)
        ang = lambda k: fn('angle', k, sort='R')
        two = ab in (11, 12, 14, 15, 21, 22, 24, 25)
        c = ab in (11, 22, 15, 24, 13, 31, 26, 35)
        turn = mrec and not msrc and not two
        if ab == 33:
            want = lambda k: lit(1)
        else:
            want = lambda k: tm.mul(-1 if turn else 1, fn('cos' if c else 'sin', tm.mul(2, ang(k)) if two else ang(k), sort='R'))
        # entries whose angle lies within rounding of a zero of the function are set to zero
        e = lambda k: tm.add(tm.mul(2 if two else 1, ang(k)), tm.mul(2 if two else 1, tm.PI) if mrec and not msrc else lit(0))
        close = lambda k, t: tm.le(tm.abs_(tm.add(tm.abs_(e(k)), tm.neg(t))), tm.add(tm.flit(1e-14), tm.mul(tm.flit(1e-10), tm.abs_(t))))
        t1, t2 = (tm.mul(tm.PI, tm.inv(2)), tm.mul(3, tm.PI, tm.inv(2))) if c else (tm.PI, tm.mul(2, tm.PI))
        w = (lambda k: lit(1)) if ab == 33 else (lambda k: tm.ite(tm.or_(close(k, t1), close(k, t2)), lit(0), want(k)))
        v.array('factor', out, (n,), w)
    return vf.verify('kernel.angle_factor (ab=%d, msrc=%s, mrec=%s)' % (ab, msrc, mrec), run, {}, {}, 60)


# ------------------------------------------------------------------ C11
PARS = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def unit_check_model(given=PARS, depth='many', isdict=False, fits=True, ends='', order='increasing'):
    """given: parameters provided; the others are None.  depth: None, 'one' or 'many' interfaces.  fits: the parameters have the right number of entries
    ends: 't' the topmost listed interface is -inf, 'b' the lowest is +inf; the other interfaces are finite"""
    def run(I):
        n = lit(0) if depth is None else lit(1) if depth == 'one' else size(I, 'n', 2)
        m = sym('min_res', 'R')
        I.assume(tm.lt(0, m))
        setglob(I, 'utils', '_min_res', m)
        top, end = 't' in ends, 'b' in ends
        q = tm.fresh('q', 'I')
        fin = lambda k: fn('depth', k, sort='R')
        step = lambda D, k: tm.add(D(tm.add(k, 1)), tm.neg(D(k)))
        # order in which the interfaces are listed; infinite ones lie at the outside
        first, last = lit(1 if top else 0), tm.add(n, -1, -1 if end else 0)      # finite interfaces: first <= k <= last (from the top)
        bad = dec = False
        if depth == 'many':
            case = order
            dec, bad = case == 'decreasing', case == 'neither'
            I.assume(tm.le(first, last) if bad else tm.le(first, tm.add(last, 1)))
        pos = lambda k: tm.add(n, -1, tm.neg(lit(k))) if dec else lit(k)
        D = lambda k: tm.ite(tm.lt(lit(k), first), tm.neg(INF), tm.ite(tm.lt(last, lit(k)), INF, fin(lit(k)))) if ends else fin(lit(k))      # from the top
        inp = lambda k: D(pos(k))
        if depth == 'many':
            if dec:
                I.assume(tm.all_(q, first, last, tm.lt(0, step(fin, q))))
            elif bad:
                I.assume(tm.not_(tm.all_(q, first, last, tm.le(0, step(fin, q)))))
                I.assume(tm.not_(tm.all_(q, first, last, tm.lt(step(fin, q), 0))))
            else:
                I.assume(tm.all_(q, first, last, tm.le(0, step(fin, q))))
        N = tm.add(n, 0 if top else 1, -1 if end else 0)
        L = N if fits else size(I, 'L')
        if not fits:
            I.assume(tm.not_(tm.cmp_eq(L, N)))
        raw = {p: vec(I, p, L) if p in given else None for p in PARS}
        if isdict:
            extra = vec(I, 'extra', L)
            res = {'res': raw['res'], 'extra': extra, 'func_eta': 'hook'}
        else:
            res = raw['res']
        xd = sym('xdirect', 'B')
        call = lambda: I.call_body(I.module('utils').check_model, [None if depth is None else vec(I, 'depth', n, f=inp), res] + [raw[p] for p in PARS[1:]] + [xd, lit(0)], {})
        if bad:
            expect_raise(I, 'interfaces that neither increase nor decrease are refused', call, ValueError)
            return
        if not fits:
            expect_raise(I, 'parameter vectors of the wrong length are refused', call, ValueError)
            return
        v = vf.V(I)
        try:
            out = call()
        except PyRaise as e:
            I.obls.append(Obligation('valid models are accepted', 'refuted', 'raises %r | path: %s' % (e.exc, vf.path_text(I)), 'symbolic execution'))
            return
        if not isinstance(out, tuple) or len(out) != 8:
            raise Unsupported('eight results expected')
        v.array('interfaces from the top, the first at -inf, without +inf', out[0], (N,), lambda k: tm.ite(tm.cmp_eq(k, 0), tm.neg(INF), D(k if top else tm.add(k, -1))))
        at = lambda l: tm.add(N, -1, tm.neg(lit(l))) if dec else lit(l)
        cl = lambda x, mn: tm.ite(tm.lt(x, mn), mn, x)
        r = lambda l: cl(fn('res', at(l), sort='R'), m)
        f = {'res': r}
        a = lambda l: fn('aniso', at(l), sort='R')
        f['aniso'] = (lambda l: tm.sqrt_(tm.div(cl(tm.mul(a(l), a(l), r(l)), m), r(l)))) if 'aniso' in given else (lambda l: lit(1))
        for k in ('eperm', 'mperm'):
            f[k+'H'] = (lambda l, k=k: cl(fn(k+'H', at(l), sort='R'), lit(0))) if k+'H' in given else (lambda l: lit(1))
            f[k+'V'] = (lambda l, k=k: cl(fn(k+'V', at(l), sort='R'), lit(0))) if k+'V' in given else f[k+'H']
        for p, x in zip(PARS, out[1:7]):
            if p == 'res' and isdict:
                v.fact('the dictionary with its hooks is returned', isinstance(x, dict) and set(x) == {'res', 'extra', 'func_eta'} and x['func_eta'] == 'hook', repr(x))
                v.array('additional parameter, attached to its layer', x['extra'], (N,), lambda l: fn('extra', at(l), sort='R'))
                x = x['res']
            v.array('%s, attached to its layer' % p, x, (N,), f[p])
        z = tm.fresh('z', 'I')
        same = tm.and_(*[tm.all_(z, lit(0), N, tm.cmp_eq(tm.add(g(z), tm.neg(g(0))), 0)) for g in f.values()])
        if isdict:
            v.true('a model with hooks counts as layered', tm.not_(tm.tob(out[7])))
        else:
            v.true('homogeneous exactly when every parameter is equal in all layers', iff(tm.tob(out[7]), same))
    return vf.verify('utils.check_model (%s interfaces; given: %s%s%s)' % ({None: 'no', 'one': 'one'}.get(depth, 'several'), ', '.join(given), '; with hooks' if isdict else '', '' if fits else '; wrong length') + ({'': '', 't': '; first -inf', 'b': '; last +inf', 'tb': '; -inf and +inf'}[ends]) + (', '+order if depth == 'many' else ''),
                     run, {**PRINT, 'utils._check_min': check_min_contract}, {}, 200)


if __name__ == '__main__':
    main(globals())
