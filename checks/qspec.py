"""Contracts of the adaptive quadratures and their convergence flags (C19)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A, npshim
from pv.terms import lit, fn, sym, Unsupported
from pv.arrays import SArr
from pv import verify as vf
from pv.interp import Namespace
from uspec import vec, size, PRINT, main, iff
from kspec import need, same_arr

OFFSET = (11, 12, 21, 22, 14, 24, 15, 25)
KAPPA = sym('kappa', 'R')      # a wavenumber/frequency: the integration variable
NAMES = ('PJ0', 'PJ1', 'PJ0b')


def scipy_with(integrate):
    sp = npshim.module_sp()
    d = dict(sp._d)
    d['integrate'] = Namespace('sp.integrate', integrate)
    return Namespace('sp', d)


def quadpack(calls, long=False):
    """contract of scipy.integrate.quad: (value, error, information[, message[, explanation]]); it did not converge exactly if a message is returned;
    the value is a functional of the integrand and of the settings"""
    def q(func, a, b, args=(), full_output=0, epsabs=1.49e-8, epsrel=1.49e-8, limit=50, **kw):
        I = A.CUR
        if kw or not full_output:
            raise Unsupported('quad without full output')
        if not isinstance(args, tuple):
            args = (args,)
        body = I.call(func, [KAPPA, *args], {})
        body = lit(body.at() if isinstance(body, SArr) and body.ndim == 0 else body)
        if isinstance(body, SArr):
            raise Unsupported('vector integrand')
        c = lambda x: lit(x.at() if isinstance(x, SArr) else x)
        val = fn('integral', body, c(a), c(b), c(epsabs), c(epsrel), c(limit), sort='R')
        ok = tm.cmp_eq(fn('integral:ok', val, sort='I'), 1)
        calls.append((val, ok))
        out = (val, fn('integral:err', val, sort='R'), {})
        if I.decide(ok):
            return out
        if long and I.decide(tm.cmp_eq(fn('integral:long', val, sort='I'), 1)):
            return out + ('message', {})
        return out + ('message',)
    return q


def unit_quad(used, ab):
    """value: the integrals of the used kernels with their Bessel functions; flag: false if any real part, true if every part converged"""
    def run(I):
        off, ang = sym('off', 'R'), sym('ang', 'R')
        I.assume(tm.lt(0, off))
        mod = I.module('transform')
        calls = []
        mod._d['sp'] = scipy_with({'quad': quadpack(calls, sum(used) == 1)})
        spl = {}
        for n, u in zip(NAMES, used):
            for p in 'ri':
                spl[n+p] = (lambda x, n=n, p=p: fn('spline_'+n+p, x.at() if isinstance(x, SArr) else x, sort='R')) if u else None
        st = {k: sym(k, 'R') for k in ('a', 'b', 'epsabs', 'epsrel', 'limit')}
        out = I.call_body(mod.quad, [spl[n+p] for n in NAMES for p in 'ri'] + [ab, off, ang, dict(st)], {})
        if not isinstance(out, tuple) or len(out) != 2:
            raise Unsupported('two results')
        v = vf.V(I)
        J = lambda m: fn('besselj', lit(m), tm.mul(off, KAPPA), sort='R') if False else npshim.SPECIAL['j%d' % m](tm.mul(off, KAPPA))
        ints, total = {}, lit(0)
        for n, u in zip(NAMES, used):
            if u:
                for p in 'ri':
                    s = fn('spline_'+n+p, tm.log_(KAPPA) if hasattr(tm, 'log_') else fn('log', KAPPA, sort='R'), sort='R')
                    body = {'PJ0': lambda: tm.mul(s, J(0)), 'PJ1': lambda: tm.mul(ang, s, J(1), tm.inv(off) if ab in OFFSET else lit(1)), 'PJ0b': lambda: tm.mul(ang, s, J(0))}[n]()
                    got = [c for c in calls if I.ctx.entails(tm.cmp_eq(c[0].args[1], body)) or equal(I, c[0].args[1], body)]
                    if not got:
                        val = fn('integral', body, *[st[k] for k in ('a', 'b', 'epsabs', 'epsrel', 'limit')], sort='R')
                        got = [(val, tm.cmp_eq(fn('integral:ok', val, sort='I'), 1))]
                    ints[n+p] = got[0]
                    v.true('%s: integrated over the wanted range with the wanted tolerances' % (n+p), tm.and_(*[tm.cmp_eq(x, st[k]) for x, k in zip(got[0][0].args[2:], ('a', 'b', 'epsabs', 'epsrel', 'limit'))]))
                    total = tm.add(total, tm.mul(got[0][0], lit(1j) if p == 'i' else lit(1)))
        x = out[0]
        v.eq('sum of the integrals of the kernels with their Bessel functions', x.at() if isinstance(x, SArr) else x, total)
        conv = tm.tob(lit(out[1].at() if isinstance(out[1], SArr) else out[1]))
        v.true('converged only if every real part converged', tm.implies(conv, tm.and_(*[ints[k][1] for k in ints if k[-1] == 'r'])))
        v.true('not converged only if some part did not converge', tm.implies(tm.and_(*[ints[k][1] for k in ints]), conv))
    return vf.verify('transform.quad (kernels %s; ab=%d)' % (', '.join(n for n, u in zip(NAMES, used) if u), ab), run, PRINT, {}, 90)


def equal(I, a, b):
    from pv.prover import Prover, PROVED
    return Prover(I.ctx, maxsplit=200, deadline=I.deadline).equal(lit(a), lit(b)) == PROVED


class Spl:
    def __init__(self, x, y):
        self.x, self.y = x, y


def unit_hankel_quad(used, real=False):
    """every offset is transformed by itself, with its own offset and angle factor; the flag collects all of them"""
    def run(I):
        N, no = size(I, 'N'), size(I, 'noff')
        s, d = ('R', A.DF) if real else ('C', A.DC)
        off, ang = vec(I, 'off', no), vec(I, 'ang', no)
        depth = vec(I, 'depth', N)
        med = [A.build((1, tm.unlit(N)), lambda i, l, p=p: fn(p, i, l, sort=s), d) for p in ('etaH', 'etaV', 'zetaH', 'zetaV')]
        for n, m in zip(('etaH', 'etaV', 'zetaH', 'zetaV'), med):
            vf.frame(I, n, m)
        h = {k: sym(k, 'R') for k in ('a', 'b', 'atol', 'rtol', 'limit', 'pts_per_dec')}
        I.assume(tm.and_(tm.lt(0, h['a']), tm.lt(h['a'], h['b']), tm.lt(0, h['pts_per_dec'])))
        I.assume(tm.lt(0, tm.add(npshim.log10(h['b']), tm.neg(npshim.log10(h['a'])))), 'the logarithm is increasing')
        I.assume(tm.lt(0, tm.mul(h['pts_per_dec'], tm.add(npshim.log10(h['b']), tm.neg(npshim.log10(h['a']))))))
        vf.frame(I, 'htarg', h)
        zs, zr, ls, lr, ab, xd, ms, mr = [fn('c_'+k, sort='R') for k in ('zs', 'zr', 'ls', 'lr', 'ab', 'xd', 'ms', 'mr')]
        seen = {}

        def wn(I, a):
            b = list(a.values())
            need(I, 'wavenumber: arguments of the caller', all(x is y for x, y in zip(b[:9], [zs, zr, ls, lr, depth, *med])) and all(x is y for x, y in zip(b[10:], [ab, xd, ms, mr])))
            lam = A.arr(b[9])
            need(I, 'wavenumber: one row of wavenumbers', lam.ndim == 2 and A.as_int(lit(lam._shape[0])) == 1)
            seen['lam'] = lam
            return tuple(A.build((1, 1, lam._shape[1]), lambda i, j, k, n=n: fn(n, k, sort=s), d) if u else None for n, u in zip(NAMES, used))

        def spl(I, a):
            b = list(a.values())
            x, y = A.arr(b[0]), A.ravel(A.squeeze(A.arr(b[1])))
            lam = seen['lam']
            g = tm.fresh('k', 'I')
            I.ctx.push()
            I.ctx.add(tm.and_(tm.le(0, g), tm.lt(g, lit(lam._shape[1]))))
            try:
                need(I, 'spline over the logarithm of the wavenumbers', A.deq(x._shape[0], lam._shape[1]) and equal(I, x.at(g), npshim.NP['log'](lam.at(lit(0), g))))
                for i, n in enumerate(NAMES):
                    for p in 'ri':
                        if used[i] and equal(I, y.at(g), tm.re_(fn(n, g, sort=s)) if p == 'r' else tm.im_(fn(n, g, sort=s))):
                            if real and p == 'i':
                                return Spl(x, p)
                            return Spl(x, n+p)
                if real and equal(I, y.at(g), 0):
                    return Spl(x, 'i')
            finally:
                I.ctx.pop()
            raise Unsupported('spline of something else')

        def quad(I, a):
            b = list(a.values())
            for i, n in enumerate(NAMES):
                for j, p in enumerate('ri'):
                    x = b[2*i+j]
                    need(I, 'quad: splines of the kernels', (x is None) if not used[i] else isinstance(x, Spl) and (x.y == n+p or x.y == 'i' and real and p == 'i'))
            need(I, 'quad: component', b[6] is ab)
            it = b[9]
            need(I, 'quad: settings', isinstance(it, dict) and all(lit(it[k]) is h[m] for k, m in (('a', 'a'), ('b', 'b'), ('epsabs', 'atol'), ('epsrel', 'rtol'), ('limit', 'limit'))))
            o, f = [x.at() if isinstance(x, SArr) else x for x in b[7:9]]
            return (fn('quad', o, f, sort='C'), tm.cmp_eq(fn('quad:ok', o, f, sort='I'), 1))
        I.contracts.update({'kernel.wavenumber': wn, 'transform.iuSpline': spl, 'transform.quad': quad})
        out = I.call_body(I.module('transform').hankel_quad, [zs, zr, ls, lr, off, ang, depth, ab, *med, xd, h, ms, mr], {})
        if not isinstance(out, tuple) or len(out) != 3:
            raise Unsupported('three results')
        v = vf.V(I)
        q = lambda j: (fn('off', j, sort='R'), fn('ang', j, sort='R'))
        v.array('the quadrature of each offset', out[0], (no,), lambda j: tm.re_(fn('quad', *q(j), sort='C')) if real else fn('quad', *q(j), sort='C'))
        j = tm.fresh('j', 'I')
        v.true('converged exactly if every offset converged', iff(tm.tob(lit(out[2])), tm.all_(j, lit(0), lit(no), tm.cmp_eq(fn('quad:ok', *q(j), sort='I'), 1))))
    return vf.verify('transform.hankel_quad (kernels %s%s)' % (', '.join(n for n, u in zip(NAMES, used) if u), ', Laplace' if real else ''), run, PRINT, {}, 90)


def unit_conv_warning(conv):
    """a warning is printed exactly if not converged and verbosity above zero"""
    def run(I):
        verb = sym('verb', 'I')
        n0 = len(I.printed)
        I.call_body(I.module('utils').conv_warning, [conv, {}, 'Hankel', verb], {})
        p = len(I.printed) > n0
        v = vf.V(I)
        v.true('warning exactly if not converged, at verbosity above zero', tm.lt(0, verb) if p else tm.TRUE if conv else tm.le(verb, 0))
        v.fact('no warning if converged', not (conv and p), 'warning printed')
    return vf.verify('utils.conv_warning (%s)' % ('converged' if conv else 'not converged'), run, {}, {}, 30)


if __name__ == '__main__':
    main(globals())
