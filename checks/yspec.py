"""Contract of the quadrature with extrapolation (C19, C16): transform.qwe."""
import os, sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A, npshim
from pv.terms import lit, fn, sym, Unsupported
from pv.arrays import SArr
from pv import verify as vf
from pv.npshim import Namespace
from qspec import scipy_with, quadpack, equal, KAPPA
from kspec import need
from uspec import vec, size, PRINT, main, iff


def shanks(s, tiny, big):
    """epsilon algorithm: from the partial sums s[0..n], the estimate of the limit after each of them (from s[1] on)"""
    e, est = [], []
    for n, x in enumerate(s):
        e.append(x)
        if n == 0:
            continue
        aux2 = lit(0)
        for k in range(n, 0, -1):
            aux1, aux2 = aux2, e[k-1]
            d = tm.add(e[k], tm.neg(aux2))
            e[k-1] = tm.ite(tm.lt(tm.abs_(d), tiny), big, tm.add(aux1, tm.inv(d)))
        est.append(e[n % 2])
    return est


def unit_qwe(maxint, call=False, real=False):
    """each offset is extrapolated by itself until two estimates in a row agree; flag: true only if every one of them did"""
    def run(I):
        no = size(I, 'noff')
        s, d = ('R', A.DF) if real else ('C', A.DC)
        itv = A.build((no, maxint+1), lambda j, k: fn('interval', j, k, sort='R'), A.DF)
        rtol, atol = sym('rtol', 'R'), sym('atol', 'R')
        I.assume(tm.and_(tm.lt(0, rtol), tm.le(0, atol)))
        off, ang = vec(I, 'off', no), vec(I, 'ang', no)
        lam = A.build((no, 3), lambda j, k: fn('lam', j, k, sort='R'), A.DF)
        val = lambda i, *x: fn('inp', lit(i), *x, sort=s)
        if call:
            def inp(i, l, o, a):
                i = A.as_int(lit(i))
                l, o, a = A.arr(l), A.arr(o), A.arr(a)
                if i is None or l.ndim != 2 or o.ndim != 1 or a.ndim != 1:
                    raise Unsupported('kernel')
                return A.build(o._shape, lambda j: val(i, l.at(j, lit(0)), l.at(j, lit(1)), o.at(j), a.at(j)), d)
            args = [inp, itv, lam, off, ang]
            V = lambda i, j: val(i, fn('lam', j, lit(0), sort='R'), fn('lam', j, lit(1), sort='R'), fn('off', j, sort='R'), fn('ang', j, sort='R'))
        else:
            arr = A.build((no, maxint), lambda j, i: fn('inp', i, j, sort=s), d)
            vf.frame(I, 'inp', arr)
            args = [arr, itv]
            V = lambda i, j: fn('inp', lit(i), j, sort=s)
        vf.frame(I, 'intervals', itv)
        out = I.call_body(I.module('transform').qwe, [rtol, atol, maxint, *args], {})
        if not isinstance(out, tuple) or len(out) != 3:
            raise Unsupported('three results')
        fi = npshim.NP['finfo'](float)
        tiny, big = lit(fi.tiny), lit(fi.max)
        w = lambda k, j: tm.mul(tm.add(fn('interval', j, lit(k+1), sort='R'), tm.neg(fn('interval', j, lit(k), sort='R'))), lit(0.5))

        def of(j):
            """(estimate at the stop, some two estimates in a row agree) for one offset"""
            first = tm.mul(V(0, j), w(0, j))
            sums, acc = [lit(0)], lit(0)
            for k in range(1, maxint):
                acc = tm.add(acc, tm.mul(V(k, j), w(k, j)))
                sums.append(acc)
            est = [tm.add(x, first) for x in shanks(sums, tiny, big)]
            agree = [tm.lt(tm.abs_(tm.mul(tm.add(y, tm.neg(x)), tm.inv(y))), tm.add(rtol, tm.mul(atol, tm.inv(tm.abs_(y))))) for x, y in zip(est, est[1:])]
            res = est[-1]
            for a, y in list(zip(agree, est[1:]))[::-1]:
                res = tm.ite(a, y, res)
            return res, tm.or_(*agree)

        def result(j):
            r, _ = of(j)
            if real:
                return tm.ite(tm.cmp_eq(r, big), lit(0), r)
            return tm.ite(tm.cmp_eq(tm.re_(r), big), tm.mul(lit(1j), tm.im_(r)), r)
        v = vf.V(I)
        v.array('the first estimate which agrees with the one before it, or the last one, of each offset by itself', out[0], (no,), result)
        conv = tm.tob(lit(out[2]))
        j = tm.fresh('j', 'I')
        v.true('converged only if two estimates in a row agree for every offset', tm.implies(conv, tm.all_(j, lit(0), lit(no), of(j)[1])))
        if maxint > 3:
            early = lambda j: tm.or_(*[x for x in [of(j)[1]]])
        v.fact('number of kernel calculations', A.as_int(lit(out[1])) is not None and 1 <= A.as_int(lit(out[1])) <= maxint)
    return vf.verify('transform.qwe (at most %d intervals%s%s)' % (maxint, ', kernel given as function' if call else '', ', real' if real else ''), run, PRINT, {}, 90)


def unit_fourier_qwe(kind, nt, given=False):
    """each time by itself: scipy's quad where the response decays steeply, the quadrature with extrapolation of the node sums elsewhere; the flag collects all"""
    def run(I):
        mod = I.module('transform')
        maxint, nquad = 2, 2
        ts = [sym('t%d' % k, 'R') for k in range(nt)]
        for t in ts:
            I.assume(tm.lt(0, t))
        time = A.mktab((nt,), {(k,): t for k, t in enumerate(ts)}, A.DF)
        nf = size(I, 'nf')
        freq = vec(I, 'freq', nf)
        s = A.build((nf,), lambda k: fn('fEM', k, sort='C'), A.DC)
        for n, x in (('time', time), ('freq', freq), ('fEM', s)):
            vf.frame(I, n, x)
        h = dict(rtol=sym('rtol', 'R'), atol=sym('atol', 'R'), nquad=nquad, maxint=maxint, diff_quad=sym('diff_quad', 'R'))
        h.update({k: (sym(k, 'R') if given else None) for k in ('a', 'b', 'limit')})
        if given:
            I.assume(tm.and_(*[tm.lt(0, h[k]) for k in ('a', 'b', 'limit')]))
        trig = npshim.NP[kind]
        h['sincos'] = trig
        vf.frame(I, 'ftarg', h)

        def spl(I, a):
            b = list(a.values())
            x, y = A.arr(b[0]), A.arr(b[1])
            g = tm.fresh('k', 'I')
            I.ctx.push()
            I.ctx.add(tm.and_(tm.le(0, g), tm.lt(g, lit(nf))))
            try:
                need(I, 'spline over the logarithm of the angular frequencies', A.deq(x._shape[0], nf) and equal(I, x.at(g), npshim.NP['log'](tm.mul(2, tm.PI, fn('freq', g, sort='R')))))
                for p, w in (('re', tm.re_(fn('fEM', g, sort='C'))), ('im', tm.neg(tm.im_(fn('fEM', g, sort='C'))))):
                    if equal(I, y.at(g), w):
                        return lambda z, p=p: A.ew(lambda q: fn('spline_'+p, q, sort='R'), z) if isinstance(z, SArr) else fn('spline_'+p, lit(z), sort='R')
            finally:
                I.ctx.pop()
            raise Unsupported('spline of something else')
        calls, qcalls = [], []
        mod._d['sp'] = scipy_with({'quad': quadpack(calls)})

        def qwe(I, a):
            b = list(a.values())
            need(I, 'qwe: tolerances and number of intervals', lit(b[0]) is h['rtol'] and lit(b[1]) is h['atol'] and A.as_int(lit(b[2])) == maxint)
            x, itv = A.arr(b[3]), A.arr(b[4])
            n = A.as_int(lit(x._shape[1]))
            need(I, 'qwe: one column per interval', n == maxint and A.as_int(lit(itv._shape[1])) == maxint+1)
            f = lambda p, j: fn(p, *[x.at(j, lit(k)) for k in range(maxint)], *[itv.at(j, lit(k)) for k in range(maxint+1)], sort='R')
            ok = tm.fresh('qwe:ok', 'B') if False else tm.cmp_eq(sym('qweok', 'I'), 1)
            qcalls.append((x, itv, ok))
            return A.build((x._shape[0],), lambda j: f('qwe', j), A.DF), 3, ok
        I.contracts.update({'transform.iuSpline': spl, 'transform.qwe': qwe})
        out = I.call_body(mod.fourier_qwe, [s, time, freq, h], {})
        if not isinstance(out, tuple) or len(out) != 2:
            raise Unsupported('two results')
        v = vf.V(I)
        S = lambda p, w: fn('spline_'+p, npshim.NP['log'](w), sort='R')
        part = 're' if kind == 'cos' else 'im'
        x0 = [lit(1e-20)] + [tm.mul(tm.PI, lit(k) if kind == 'sin' else lit(Fraction(2*k-1, 2))) for k in range(1, maxint+1)]
        gx, gw = npshim.roots_legendre(nquad)
        for k, t in enumerate(ts):
            itv = [tm.mul(x, tm.inv(t)) for x in x0]
            mag = lambda w: tm.abs_(tm.add(S('re', w), tm.mul(lit(1j), S('im', w))))
            smooth = tm.and_(*[tm.lt(tm.mul(mag(p), tm.inv(mag(q))), h['diff_quad']) for p, q in zip(itv, itv[1:])])
            def node(i, q):
                bx = tm.add(tm.mul(tm.add(x0[i+1], tm.neg(x0[i])), lit(Fraction(1, 2)), tm.add(gx.at(lit(q)), 1)), x0[i])
                return tm.mul(S(part, tm.mul(bx, tm.inv(t))), trig(bx), gw.at(lit(q)))
            want = fn('qwe', *[tm.add(*[node(i, q) for q in range(nquad)]) for i in range(maxint)], *itv, sort='R')
            ab = (h['a'], h['b']) if given else (itv[0], itv[-1])
            body = tm.mul(S(part, KAPPA), trig(tm.mul(KAPPA, t)))
            quad = fn('integral', body, *ab, h['atol'], h['rtol'], h['limit'] if given else lit(maxint), sort='R')
            okq = tm.cmp_eq(fn('integral:ok', quad, sort='I'), 1)
            v.eq('time %d: quadrature with extrapolation or quad' % k, A.arr(out[0]).at(lit(k)), tm.ite(smooth, want, quad))
            v.true('time %d: converged only if its quadrature did' % k, tm.implies(tm.tob(lit(out[1])), tm.ite(smooth, tm.cmp_eq(sym('qweok', 'I'), 1), okq)))
    return vf.verify('transform.fourier_qwe (%s, %d times%s)' % (kind, nt, ', limits given' if given else ''), run, PRINT, {}, 120)


NAMES = ('PJ0', 'PJ1', 'PJ0b')
J2 = (11, 12, 21, 22, 14, 24, 15, 25)


def unit_hankel_qwe(used, ab, no=None, real=False, given=False):
    """no=None: any number of offsets, the kernel as function; otherwise: splined, steep offsets by quad, the others by extrapolation of the node sums.
    For whatever values the search for the zeros of J1 arrives at"""
    spline = no is not None

    def run(I):
        mod = I.module('transform')
        maxint, nquad = 2, 2
        N = size(I, 'N')
        s, d = ('R', A.DF) if real else ('C', A.DC)
        if spline:
            off, ang = [A.mktab((no,), {(k,): sym('%s%d' % (n, k), 'R') for k in range(no)}, A.DF) for n in ('off', 'ang')]
            for k in range(no):
                I.assume(tm.lt(0, sym('off%d' % k, 'R')))
            O, F = lambda k: sym('off%d' % k, 'R'), lambda k: sym('ang%d' % k, 'R')
            n = no
        else:
            n = size(I, 'noff')
            off, ang = vec(I, 'off', n), vec(I, 'ang', n)
            O, F = lambda k: fn('off', k, sort='R'), lambda k: fn('ang', k, sort='R')
        depth = vec(I, 'depth', N)
        med = [A.build((1, tm.unlit(N)), lambda i, l, p=p: fn(p, i, l, sort=s), d) for p in ('etaH', 'etaV', 'zetaH', 'zetaV')]
        h = dict(rtol=sym('rtol', 'R'), atol=sym('atol', 'R'), nquad=nquad, maxint=maxint, pts_per_dec=sym('ppd', 'I') if spline else 0, diff_quad=sym('diff_quad', 'R'))
        h.update({k: (sym(k, 'R') if given else None) for k in ('a', 'b', 'limit')})
        if given:
            I.assume(tm.and_(*[tm.lt(0, h[k]) for k in ('a', 'b', 'limit')]))
        if spline:
            I.assume(tm.lt(0, h['pts_per_dec']))
            I.points_given = 'the logarithm is increasing: the grid from the smallest to the largest wavenumber has at least one value'
        for nm, x in (('etaH', med[0]), ('zetaV', med[3]), ('off', off), ('ang_fact', ang), ('htarg', h)):
            vf.frame(I, nm, x)
        zs, zr, ls, lr, xd, ms, mr = [fn('c_'+k, sort='R') for k in ('zs', 'zr', 'ls', 'lr', 'xd', 'ms', 'mr')]
        seen = []

        def wn(I, a):
            b = list(a.values())
            need(I, 'wavenumber: arguments of the caller', len(b) == 14 and all(x is y for x, y in zip(b[:5], [zs, zr, ls, lr, depth])) and lit(b[10]) is lit(ab) and all(x is y for x, y in zip(b[11:], [xd, ms, mr])))
            g = tm.fresh('l', 'I')
            need(I, 'wavenumber: medium of the caller', all(A.arr(x).ndim == 2 and lit(A.arr(x).at(lit(0), g)) is lit(m.at(lit(0), g)) for x, m in zip(b[5:9], med)))
            lam = A.arr(b[9])
            need(I, 'wavenumber: wavenumbers', lam.ndim == 2)
            seen.append(lam)
            return tuple(A.build((1, lam._shape[0], lam._shape[1]), lambda i, j, k, n=n: fn(n, lam.at(j, k), sort=s), d) if u else None for n, u in zip(NAMES, used))

        def spl(I, a):
            b = list(a.values())
            x, y = A.arr(b[0]), A.ravel(A.squeeze(A.arr(b[1])))
            lam = seen[0]
            g = tm.fresh('k', 'I')
            I.ctx.push()
            I.ctx.add(tm.and_(tm.le(0, g), tm.lt(g, lit(lam._shape[1]))))
            try:
                need(I, 'spline over the logarithm of the wavenumbers', A.deq(x._shape[0], lam._shape[1]) and equal(I, x.at(g), npshim.NP['log'](lam.at(lit(0), g))))
                for i, nm in enumerate(NAMES):
                    for p in 'ri':
                        z = fn(nm, lam.at(lit(0), g), sort=s)
                        if used[i] and equal(I, y.at(g), tm.re_(z) if p == 'r' else tm.im_(z)):
                            return Spline('zero' if real and p == 'i' else nm+p)
            finally:
                I.ctx.pop()
            raise Unsupported('spline of something else')
        rec = {}

        def quad(I, a):
            b = list(a.values())
            for i, nm in enumerate(NAMES):
                for j, p in enumerate('ri'):
                    x = b[2*i+j]
                    need(I, 'quad: splines of the kernels', (x is None) if not used[i] else isinstance(x, Spline) and x.name == ('zero' if real and p == 'i' else nm+p))
            need(I, 'quad: component', lit(b[6]) is lit(ab))
            c = lambda x: lit(x.at() if isinstance(x, SArr) else x)
            it = b[9]
            q = fn('quad', c(b[7]), c(b[8]), *[c(it[k]) for k in ('a', 'b', 'epsabs', 'epsrel', 'limit')], sort='C')
            return q, tm.cmp_eq(fn('quad:ok', q, sort='I'), 1)

        def qwe(I, a):
            b = list(a.values())
            need(I, 'qwe: tolerances and number of intervals', lit(b[0]) is h['rtol'] and lit(b[1]) is h['atol'] and A.as_int(lit(b[2])) == maxint)
            itv = A.arr(b[4])
            need(I, 'qwe: intervals', itv.ndim == 2 and A.as_int(lit(itv._shape[1])) == maxint+1)
            rec.setdefault('itv', itv)
            ok = tm.cmp_eq(sym('qweok', 'I'), 1)
            if spline:
                x = A.arr(b[3])
                need(I, 'qwe: one column per interval', x.ndim == 2 and A.as_int(lit(x._shape[1])) == maxint)
                return A.build((x._shape[0],), lambda j: fn('qwe', *[x.at(j, lit(k)) for k in range(maxint)], *[itv.at(j, lit(k)) for k in range(maxint+1)], sort='C'), A.DC), 3, ok
            rec.update(f=b[3], lam=A.arr(b[5]), off=A.arr(b[6]), ang=A.arr(b[7]))
            return A.build((n,), lambda j: fn('qwe', j, sort='C'), A.DC), 3, ok
        I.contracts.update({'kernel.wavenumber': wn, 'transform.iuSpline': spl, 'transform.quad': quad, 'transform.qwe': qwe})
        zero = [lit(1e-20)] + [sym('Z%d' % k, 'R') for k in range(1, maxint+1)]
        for p, q in zip(zero, zero[1:]):
            I.assume(tm.lt(p, q))
        mod._d['sp'] = bessel_zero(zero[1:])
        out = I.call_body(mod.hankel_qwe, [zs, zr, ls, lr, off, ang, depth, ab, *med, xd, h, ms, mr], {})
        if not isinstance(out, tuple) or len(out) != 3:
            raise Unsupported('three results')
        v = vf.V(I)
        gx, gw = npshim.roots_legendre(nquad)
        bx = lambda i, q: tm.add(tm.mul(tm.add(zero[i+1], tm.neg(zero[i])), lit(Fraction(1, 2)), tm.add(gx.at(lit(q)), 1)), zero[i])
        J = lambda m, i, q: tm.mul(npshim.SPECIAL['j%d' % m](bx(i, q)), gw.at(lit(q)))
        part = lambda x: tm.re_(x) if real else x

        def total(K, o, a, i):
            """sum over the nodes of interval i"""
            r = lit(0)
            if used[1]:
                t = tm.add(*[tm.mul(K('PJ1', i, q), J(1, i, q)) for q in range(nquad)])
                r = tm.add(r, tm.mul(a, t, tm.inv(o)) if ab in J2 else tm.mul(a, t))
            if used[2]:
                r = tm.add(r, tm.mul(a, tm.add(*[tm.mul(K('PJ0b', i, q), J(0, i, q)) for q in range(nquad)])))
            if used[0]:
                r = tm.add(r, *[tm.mul(K('PJ0', i, q), J(0, i, q)) for q in range(nquad)])
            return r
        if not spline:
            v.array('result of the quadrature with extrapolation', out[0], (n,), lambda j: part(fn('qwe', j, sort='C')))
            v.true('converged exactly if the quadrature did', iff(tm.tob(lit(out[2])), tm.cmp_eq(sym('qweok', 'I'), 1)))
            v.array('intervals: between the zeros, over the offset', rec['itv'], (n, maxint+1), lambda j, k: tm.mul(pick(zero, k), tm.inv(O(j))))
            v.array('wavenumbers: nodes of the intervals, over the offset', rec['lam'], (n, maxint*nquad), lambda j, k: tm.mul(pick([bx(i, q) for i in range(maxint) for q in range(nquad)], k), tm.inv(O(j))))
            v.array('offsets handed on', rec['off'], (n,), O)
            v.array('factors handed on', rec['ang'], (n,), F)
            m = size(I, 'nsel')
            L = A.build((m, maxint*nquad), lambda j, k: fn('lam', j, k, sort='R'), A.DF)
            o2, a2 = vec(I, 'osel', m), vec(I, 'asel', m)
            for i in range(maxint):
                g = I.call(rec['f'], [i, L, o2, a2], {})
                v.array('kernel of interval %d for any selection of offsets' % i, g, (m,), lambda j: total(lambda nm, i, q: fn(nm, fn('lam', j, lit(i*nquad+q), sort='R'), sort=s), fn('osel', j, sort='R'), fn('asel', j, sort='R'), i))
            return
        S = lambda nm, w: fn('spline_'+nm+'r', npshim.NP['log'](w), sort='R') if real else tm.add(fn('spline_'+nm+'r', npshim.NP['log'](w), sort='R'), tm.mul(lit(1j), fn('spline_'+nm+'i', npshim.NP['log'](w), sort='R')))
        for k in range(no):
            o = O(k)
            itv = [tm.mul(x, tm.inv(o)) for x in zero]
            mag = lambda w: tm.abs_(tm.add(*[S(nm, w) for nm, u in zip(NAMES, used) if u]))
            smooth = tm.and_(*[tm.lt(tm.mul(mag(p), tm.inv(mag(q))), h['diff_quad']) for p, q in zip(itv, itv[1:])])
            want = fn('qwe', *[total(lambda nm, i, q: S(nm, tm.mul(bx(i, q), tm.inv(o))), o, F(k), i) for i in range(maxint)], *itv, sort='C')
            lim = (h['a'], h['b']) if given else (itv[0], itv[-1])
            quad_ = fn('quad', o, F(k), *lim, h['atol'], h['rtol'], h['limit'] if given else lit(maxint), sort='C')
            okq = tm.cmp_eq(fn('quad:ok', quad_, sort='I'), 1)
            v.eq('offset %d: quadrature with extrapolation or quad' % k, A.arr(out[0]).at(lit(k)), part(tm.ite(smooth, want, quad_)))
            v.true('offset %d: converged only if its quadrature did' % k, tm.implies(tm.tob(lit(out[2])), tm.ite(smooth, tm.cmp_eq(sym('qweok', 'I'), 1), okq)))
    return vf.verify('transform.hankel_qwe (kernels %s, ab=%d, %s%s)' % (', '.join(n for n, u in zip(NAMES, used) if u), ab, 'splined, %d offsets' % no if spline else 'not splined', ', Laplace' if real else ''), run, PRINT, {}, 120)


def bessel_zero(Z):
    """stand-ins of j1 and j2 with which the Newton iteration arrives at Z, whatever Z is (the points of evaluation of the iteration: one per zero);
    elsewhere the uninterpreted functions"""
    sp = npshim.module_sp()
    spec = dict(npshim.SPECIAL)

    def newton(x):
        return isinstance(x, SArr) and x.ndim == 1 and A.as_int(lit(x._shape[0])) == len(Z)

    def j1(x):
        if not newton(x):
            return npshim.SPECIAL['j1'](x)
        at = [x.at(lit(k)) for k in range(len(Z))]
        return A.mktab((len(Z),), {(k,): tm.add(z, tm.neg(b)) for k, (z, b) in enumerate(zip(Z, at))}, A.DF)

    def jv(n, x):
        if not newton(x) or A.as_int(lit(n)) != 2:
            return npshim.SPECIAL['jv'](n, x)
        at = [x.at(lit(k)) for k in range(len(Z))]
        return A.mktab((len(Z),), {(k,): tm.add(tm.mul(tm.add(z, tm.neg(b)), tm.inv(b)), 1) for k, (z, b) in enumerate(zip(Z, at))}, A.DF)
    spec.update(j1=j1, jv=jv)
    return Namespace('sp', {**sp._d, 'special': Namespace('sp.special', spec)})


class Spline:
    def __init__(self, name):
        self.name = name

    def __call__(self, z):
        if self.name == 'zero':
            return A.ew(lambda q: tm.const(0, 'R'), z) if isinstance(z, SArr) else lit(0)
        return A.ew(lambda q: fn('spline_'+self.name, q, sort='R'), z) if isinstance(z, SArr) else fn('spline_'+self.name, lit(z), sort='R')


def pick(xs, k):
    r = lit(xs[-1])
    for i, x in list(enumerate(xs))[-2::-1]:
        r = tm.ite(tm.cmp_eq(k, lit(i)), x, r)
    return r


if __name__ == '__main__':
    main(globals())
