"""Contracts of empymod.transform: digital linear filters (C18)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A, npshim
from pv.terms import lit, fn, sym, Unsupported
from pv.arrays import SArr
from pv import verify as vf
from uspec import vec, size, PRINT, main

OFFSET = (11, 12, 21, 22, 14, 24, 15, 25)


def filter_(I, nb):
    """a digital filter with nb points; column x of it is fn(x, k)"""
    f = vf_obj('filter')
    for c in ('base', 'j0', 'j1', 'sin', 'cos'):
        f.__dict__[c] = vec(I, 'filter_'+c, nb)
    return f


class vf_obj:
    def __init__(self, name):
        self.__dict__['_name'] = name


def elem(I, a, k):
    """element k of the vector a, using that it lies between the extrema of a taken so far"""
    for e in (k, lit(0)):
        for v, which, b in I.extrema:
            if b.base is a.base and not b.base.stores:
                I.ctx.add(tm.le(v, a.at(e)) if which == 'min' else tm.le(a.at(e), v))
    r = a.at(lit(0)) if I.ctx.entails(tm.cmp_eq(a.at(k), a.at(lit(0)))) else a.at(k)
    return lit(1) if I.ctx.entails(tm.cmp_eq(r, 1)) else r


def unit_dlf(used, ab, ang=True, real=False):
    """standard method, Hankel: used = which of PJ0, PJ1, PJ0b are given"""
    def run(I):
        nf, no, nb = size(I, 'nf'), size(I, 'noff'), size(I, 'nb')
        s, d = ('R', A.DF) if real else ('C', A.DC)
        flt = filter_(I, nb)
        off = vec(I, 'off', no)
        ang_ = vec(I, 'angfact', no) if ang else None
        names = ('PJ0', 'PJ1', 'PJ0b')
        PJ = tuple(A.build((tm.unlit(nf), tm.unlit(no), tm.unlit(nb)), lambda i, j, k, n=n: fn(n, i, j, k, sort=s), d) if u else None for n, u in zip(names, used))
        for n, p in zip(names, PJ):
            if p is not None:
                vf.frame(I, n, p)
        lam = A.build((tm.unlit(no), tm.unlit(nb)), lambda j, k: fn('lam', j, k, sort='R'), A.DF)
        out = I.call_body(I.module('transform').dlf, [PJ, lam, off, flt, 0], dict(ang_fact=ang_, ab=ab, int_pts=off))
        v = vf.V(I)

        def want(i, j):
            S = lambda n, h: A.gen_sum(nb, lambda k: tm.mul(fn(n, i, j, k, sort=s), fn('filter_'+h, k, sort='R')))
            o = fn('off', j, sort='R')
            f = elem(I, ang_, j) if ang else lit(1)
            r = [S('PJ0', 'j0')] if used[0] else []
            if used[1]:
                r.append(tm.mul(f, S('PJ1', 'j1'), tm.inv(o) if ab in OFFSET else lit(1)))
            if used[2]:
                r.append(tm.mul(f, S('PJ0b', 'j0')))
            return tm.mul(tm.add(*r) if len(r) > 1 else r[0], tm.inv(o))
        v.array('sum over the filter of the three kernels, J1 and J0b with the angle factor, divided by the offset', out, (nf, no), want)
    n = 'transform.dlf (standard, kernels %s, component %s%s%s)' % (''.join('01b'[k] for k in range(3) if used[k]), ab, '' if ang else ', no angle', ', Laplace' if real else '')
    return vf.verify(n, run, {}, {}, 60)


def spl(n, x, y, z):
    """contract of InterpolatedUnivariateSpline through (x(k), y(k)) at z"""
    f = lambda y: npshim.spline_value(n, (lit(n), lit(3), lit(0), x(fn('K*', n, sort='I'))), y, z)
    return f(y) if y(fn('K*', n, sort='I')).sort != 'C' else tm.add(f(lambda k: y(k).real), tm.mul(tm.IU, f(lambda k: y(k).imag)))


def ln(t):
    return npshim.log_(t)


def unit_dlf_interp(lag, used, ab, ang=True, given=True, real=False):
    """lagged (spline of the convolution) and splined (spline of the kernel) methods, Hankel"""
    def run(I):
        no, nb, L = size(I, 'noff'), size(I, 'nb', 2), size(I, 'npoints', 2)
        s, d = ('R', A.DF) if real else ('C', A.DC)
        flt = filter_(I, nb)
        off = vec(I, 'off', no)
        ang_ = vec(I, 'angfact', no) if ang else None
        names = ('PJ0', 'PJ1', 'PJ0b')
        PJ = tuple(A.build((1, 1, tm.unlit(L)), lambda i, j, k, n=n: fn(n, k, sort=s), d) if u else None for n, u in zip(names, used))
        for n, p in zip(names, PJ):
            if p is not None:
                vf.frame(I, n, p)
        lam = A.build((1, tm.unlit(L)), lambda j, k: fn('lam', k, sort='R'), A.DF)
        if lag:
            K = size(I, 'nint', 4)
            I.assume(tm.le(tm.add(K, nb, -1), L))
            ip = vec(I, 'int_pts', K)
            zp = lambda k: fn('int_pts', k, sort='R')
        else:
            ip = A.build((tm.unlit(no), tm.unlit(nb)), lambda j, k: tm.mul(fn('filter_base', k, sort='R'), tm.inv(fn('off', j, sort='R'))), A.DF)
        ppd = sym('pts_per_dec', 'R')
        I.assume(tm.lt(ppd, 0) if lag else tm.lt(0, ppd))
        if lag and not given:
            def pts(I, a):
                if a['filt'] is not flt or a['inp'] is not off or lit(a['nr_per_dec']) is not ppd:
                    raise Unsupported('get_dlf_points: arguments')
                return (vf_obj('grid'), ip)
            I.contracts['transform.get_dlf_points'] = pts
        out = I.call_body(I.module('transform').dlf, [PJ, lam, off, flt, ppd], dict(ang_fact=ang_, ab=ab, int_pts=ip if given else None))
        v = vf.V(I)
        lamf = lambda k: ln(fn('lam', k, sort='R'))

        def parts(j, k):
            """filter sums of the three kernels at interpolation point k (lagged) / offset j (splined), with 1/offset of J1"""
            if lag:
                S = lambda n, h: A.gen_sum(nb, lambda q: tm.mul(fn(n, tm.add(q, k), sort=s), fn('filter_'+h, q, sort='R')))
                r = zp(k)
            else:
                r = fn('off', j, sort='R')
                S = lambda n, h: A.gen_sum(nb, lambda q: tm.mul(spl(L, lamf, lambda m: fn(n, m, sort=s), ln(tm.mul(fn('filter_base', q, sort='R'), tm.inv(r)))), fn('filter_'+h, q, sort='R')))
            z = lit(0)
            return (S('PJ0', 'j0') if used[0] else z, tm.mul(S('PJ1', 'j1'), tm.inv(r) if ab in OFFSET else lit(1)) if used[1] else z, S('PJ0b', 'j0') if used[2] else z)

        def want(j):
            f = elem(I, ang_, j) if ang else lit(1)
            tot = lambda k: (lambda p: tm.add(p[0], tm.mul(f, p[1]), tm.mul(f, p[2])))(parts(j, k))
            if lag:
                rev = lambda k: tm.add(K, tm.neg(k), -1)
                r = spl(K, lambda k: ln(zp(rev(k))), lambda k: tot(rev(k)), ln(fn('off', j, sort='R')))
            else:
                r = tot(None)
            return tm.mul(r, tm.inv(fn('off', j, sort='R')))
        v.array('spline through the convolution at the interpolation points' if lag else 'sum over the filter of the spline through the kernel', out, (no,), want)
    n = 'transform.dlf (%s, kernels %s, component %s%s%s%s)' % ('lagged' if lag else 'splined', ''.join('01b'[k] for k in range(3) if used[k]), ab, '' if ang else ', no angle',
                                                             '' if given else ', points not given', ', Laplace' if real else '')
    return vf.verify(n, run, {}, {}, 60)


def unit_dlf_fourier(kind, mode='standard', given=True, real=False):
    """Fourier: minus the imaginary part with the sine filter, the real part with the cosine filter"""
    def run(I):
        nt, nb = size(I, 'ntime'), size(I, 'nb', 2)
        s, d = ('R', A.DF) if real else ('C', A.DC)
        flt = filter_(I, nb)
        t = vec(I, 'time', nt)
        o = lambda j: fn('time', j, sort='R')
        comp = lambda z: tm.neg(z.imag) if kind == 'sin' else z.real
        std = mode == 'standard'
        ppd = sym('pts_per_dec', 'R')
        I.assume(tm.lt(ppd, 0) if mode == 'lagged' else tm.lt(0, ppd))
        L = None if std else size(I, 'npoints', 2)
        if std:
            F = A.build((tm.unlit(nt), tm.unlit(nb)), lambda j, k: fn('F', j, k, sort=s), d)
            w = A.build((tm.unlit(tm.mul(nt, nb)),), lambda k: fn('omega', k, sort='R'), A.DF)
            ip = t
        else:
            F, w = vec(I, 'F', L, s), vec(I, 'omega', L)
            if mode == 'lagged':
                K = size(I, 'nint', 4)
                I.assume(tm.le(tm.add(K, nb, -1), L))
                ip = vec(I, 'int_pts', K)
            else:
                ip = A.build((tm.unlit(nt), tm.unlit(nb)), lambda j, k: tm.mul(fn('filter_base', k, sort='R'), tm.inv(o(j))), A.DF)
        vf.frame(I, 'F', F)
        if mode == 'lagged' and not given:
            def pts(I, a):
                if a['filt'] is not flt or a['inp'] is not t or lit(a['nr_per_dec']) is not ppd:
                    raise Unsupported('get_dlf_points: arguments')
                return (vf_obj('grid'), ip)
            I.contracts['transform.get_dlf_points'] = pts
        out = I.call_body(I.module('transform').dlf, [F, w, t, flt, 0 if std else ppd], dict(kind=kind, int_pts=ip if given else None))
        v = vf.V(I)
        h = lambda q: fn('filter_'+kind, q, sort='R')
        Z = lambda *k: comp(fn('F', *k, sort=s))

        def want(j):
            if std:
                r = A.gen_sum(nb, lambda q: tm.mul(h(q), Z(j, q)))
            elif mode == 'lagged':
                rev = lambda k: tm.add(K, tm.neg(k), -1)
                r = spl(K, lambda k: ln(fn('int_pts', rev(k), sort='R')), lambda k: A.gen_sum(nb, lambda q: tm.mul(h(q), Z(tm.add(q, rev(k))))), ln(o(j)))
            else:
                r = A.gen_sum(nb, lambda q: tm.mul(h(q), spl(L, lambda k: ln(fn('omega', k, sort='R')), Z, ln(tm.mul(fn('filter_base', q, sort='R'), tm.inv(o(j)))))))
            return tm.mul(r, tm.inv(o(j)))
        v.array('filter-weighted sum of the %s divided by time' % ('negative imaginary part' if kind == 'sin' else 'real part'), out, (nt,), want)
    return vf.verify('transform.dlf (Fourier, %s, %s%s%s)' % (kind, mode, '' if given else ', points not given', ', Laplace' if real else ''), run, {}, {}, 60)


def unit_dlf_points(mode):
    """get_dlf_points: the grid, the interpolation points, and that the grid covers what is needed"""
    def run(I):
        n, nb = size(I, 'n'), size(I, 'nb', 2)
        flt = filter_(I, nb)
        inp = vec(I, 'inp', n)
        b, x = (lambda k: fn('filter_base', k, sort='R')), (lambda j: fn('inp', j, sort='R'))
        P = sym('pts_per_dec', 'R')
        lf = sym('log factor', 'R')
        if mode == 'standard':
            out, ip = I.call_body(I.module('transform').get_dlf_points, [flt, inp, 0], {})
            v = vf.V(I)
            v.array('abscissae: base / value', out, (n, nb), lambda j, k: tm.mul(b(k), tm.inv(x(j))))
            v.array('points: the values', ip, (n,), x)
            return
        lag = mode == 'lagged'
        I.assume(tm.lt(P, 0) if lag else tm.lt(0, P))
        if lag:
            I.assume(tm.lt(0, lf))
            flt.__dict__['factor'] = A.build((1,), lambda k: tm.exp_(lf), A.DF)
        last = tm.add(nb, -1)
        lo, hi = A.extremum(inp, 'min'), A.extremum(inp, 'max')
        for t in (b(lit(0)), b(last), lo, hi):
            I.assume(tm.lt(0, t))
        out, ip = I.call_body(I.module('transform').get_dlf_points, [flt, inp, P], {})
        v = vf.V(I)
        lb, lx, ll, lh = (lambda k: ln(b(k))), (lambda j: ln(x(j))), ln(lo), ln(hi)
        start = tm.add(lb(lit(0)), tm.neg(lh))
        m = out._shape[1]
        step = lf if lag else tm.mul(fn('ln10', sort='R'), tm.inv(P))
        v.array('grid: logarithmic, from the smallest abscissa', out, (lit(1), m), lambda i, k: tm.exp_(tm.add(start, tm.mul(k, step))))
        # every abscissa base(k)/value(j) lies on the grid's range
        k, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
        I.assumed.add('log is increasing (at the base of the filter and the values)')
        I.assume(tm.lt(0, fn('ln10', sort='R')))
        I.assume(tm.and_(tm.le(lb(lit(0)), lb(k)), tm.le(lb(k), lb(last)), tm.le(ll, lx(j)), tm.le(lx(j), lh)))
        need = tm.add(lb(k), tm.neg(lx(j)))
        v.true('the grid starts at or below every abscissa', tm.le(start, need))
        if lag:
            I.assumed.add('the base of the filter is logarithmic with its factor (see C27)')
            I.assume(tm.cmp_eq(lb(last), tm.add(lb(lit(0)), tm.mul(last, lf))))
        r = tm.add(lb(last), tm.neg(ll), tm.neg(start))         # range needed
        cnt = tm.mul(r, tm.inv(step))
        v.true('the grid ends at or above every abscissa', tm.le(cnt, tm.add(lit(m), -1)))
        if lag:
            I.assume(tm.cmp_eq(cnt, tm.add(last, tm.mul(tm.add(lh, tm.neg(ll)), tm.inv(lf)))))
            K = ip._shape[0]
            v.array('interpolation points: from the largest value downwards, spaced as the filter', ip, (K,), lambda k: tm.mul(hi, tm.exp_(tm.neg(tm.mul(k, lf)))))
            v.true('interpolation points reach the smallest value', tm.le(tm.mul(tm.add(lh, tm.neg(ll)), tm.inv(lf)), tm.add(lit(K), -1)))
            v.true('at least four interpolation points', tm.le(4, lit(K)))
            v.true('the grid has a point for every filter point of every interpolation point', tm.le(tm.add(lit(K), nb, -1), lit(m)))
        else:
            v.true('at least four points', tm.le(4, lit(m)))
            v.array('points: base / value', ip, (n, nb), lambda j, k: tm.mul(b(k), tm.inv(x(j))))
    return vf.verify('transform.get_dlf_points (%s)' % mode, run, {}, {}, 60)


def unit_hankel_dlf(ab):
    """hankel_dlf: kernels at the required wavenumbers, through dlf with this filter, offset, angle factor and component"""
    def run(I):
        seen = {}
        marks = {k: vf_obj(k) for k in ('lambd', 'int_pts', 'PJ', 'fEM', 'filter', 'pts')}
        P = {k: vf_obj(k) for k in ('zsrc', 'zrec', 'lsrc', 'lrec', 'off', 'ang_fact', 'depth', 'etaH', 'etaV', 'zetaH', 'zetaV', 'xdirect', 'msrc', 'mrec')}

        def points(I, a):
            seen['points'] = a
            return (marks['lambd'], marks['int_pts'])

        def wn(I, a):
            seen['wavenumber'] = a
            return marks['PJ']

        def dlf(I, a):
            seen['dlf'] = a
            return marks['fEM']
        I.contracts.update({'transform.get_dlf_points': points, 'kernel.wavenumber': wn, 'transform.dlf': dlf})
        ht = {'dlf': marks['filter'], 'pts_per_dec': marks['pts']}
        vf.frame(I, 'htarg', ht)
        out = I.call_body(I.module('transform').hankel_dlf, [P['zsrc'], P['zrec'], P['lsrc'], P['lrec'], P['off'], P['ang_fact'], P['depth'], ab, P['etaH'], P['etaV'], P['zetaH'], P['zetaV'],
                                                             P['xdirect'], ht, P['msrc'], P['mrec']], {})
        v = vf.V(I)
        def same(n, a, **k):
            for x, y in k.items():
                g = a.get(x)
                if not (g is y or isinstance(y, int) and lit(g) is lit(y)):
                    if not isinstance(g, (vf_obj, int)):
                        raise Unsupported('%s: %s' % (n, x))
                    return v.fact(n, False, '%s is %r' % (x, getattr(g, '_name', g)))
            v.fact(n, True)
        if set(seen) != {'points', 'wavenumber', 'dlf'}:
            raise Unsupported('steps %s' % sorted(seen))
        same('points for this filter, offsets and density', seen['points'], filt=marks['filter'], inp=P['off'], nr_per_dec=marks['pts'])
        same('kernels of this model at these wavenumbers', seen['wavenumber'], lambd=marks['lambd'], ab=ab, **{k: P[k] for k in P if k not in ('off', 'ang_fact')})
        same('filter over these kernels with this offset and angle factor', seen['dlf'], signal=marks['PJ'], points=marks['lambd'], out_pts=P['off'], filt=marks['filter'],
             pts_per_dec=marks['pts'], ang_fact=P['ang_fact'], ab=ab, int_pts=marks['int_pts'])
        if out[0] is not marks['fEM']:
            raise Unsupported('result of dlf')
        v.true('converged', tm.tob(lit(out[2])))
    return vf.verify('transform.hankel_dlf (component %d)' % ab, run, {}, {}, 60)


def unit_fourier_dlf(mode):
    def run(I):
        seen = {}
        nt, nb = size(I, 'ntime'), size(I, 'nb', 2)
        n = tm.mul(nt, nb) if mode == 'standard' else size(I, 'nfreq', 2)
        flt, kind = vf_obj('filter'), vf_obj('kind')
        t, fr, F = vec(I, 'time', nt), vec(I, 'freq', n), vec(I, 'F', n, 'C')
        ppd = sym('pts_per_dec', 'R')
        I.assume(tm.lt(ppd, 0) if mode == 'lagged' else tm.lt(0, ppd))
        ppd = 0 if mode == 'standard' else ppd
        res = vec(I, 'res', nt)

        def dlf(I, a):
            seen['dlf'] = a
            return res
        I.contracts.update({'transform.dlf': dlf})
        ft = {'dlf': flt, 'pts_per_dec': ppd, 'kind': kind}
        out = I.call_body(I.module('transform').fourier_dlf, [F, t, fr, ft], {})
        v = vf.V(I)
        a = seen['dlf']
        v.array('result', out[0], (nt,), lambda k: fn('res', k, sort='R'))
        v.true('converged', tm.tob(lit(out[1])))
        if a['filt'] is not flt or a['kind'] is not kind:
            raise Unsupported('filter or kind of dlf')
        v.eq('density', a['pts_per_dec'], lit(ppd))
        v.array('angular frequencies', a['points'], (n,), lambda k: tm.mul(2, tm.PI, fn('freq', k, sort='R')))
        v.array('times', a['out_pts'], (nt,), lambda k: fn('time', k, sort='R'))
        if mode == 'standard':
            v.array('response at base/time, one row per time', a['signal'], (nt, nb), lambda j, k: fn('F', tm.add(tm.mul(j, nb), k), sort='C'))
        else:
            v.array('response at the frequencies', a['signal'], (n,), lambda k: fn('F', k, sort='C'))
    return vf.verify('transform.fourier_dlf (%s)' % mode, run, {}, {}, 60)


if __name__ == '__main__':
    main(globals())
