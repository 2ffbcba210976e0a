"""Contract of the Fourier transforms by FFT and FFTLog (C20): real-linear in the response, each time by itself."""
import os, sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, Unsupported
from pv import verify as vf
from uspec import vec, size, PRINT, main


def spline(I, a):
    """interpolating spline: linear in the values; the weights depend on the abscissae and the point only"""
    b = list(a.values())
    x, y = [A.ravel(A.squeeze(A.arr(q))) for q in b[:2]]
    if any(len(q) for q in b[2:]) or y.dtype.kind == 'c':
        raise Unsupported('spline with options %s' % b[2:])
    n = A.as_int(lit(y._shape[0]))
    if n is None or A.as_int(lit(x._shape[0])) != n:
        raise Unsupported('spline: lengths')
    xs, ys = [x.at(lit(k)) for k in range(n)], [y.at(lit(k)) for k in range(n)]
    val = lambda z: tm.add(*[tm.mul(fn('splw', lit(k), *xs, z, sort='R'), ys[k]) for k in range(n)])
    return lambda z: A.ew(val, z) if isinstance(z, A.SArr) else val(lit(z))


def unit_fourier_linear(ft, n, opt=None):
    """three runs on one set of options: f(a x + b y) = a f(x) + b f(y); a fourth with one of the times alone; sine variants of a response without
    imaginary part and cosine variants of one without real part vanish"""
    def run(I):
        mod = I.module('transform')
        nt = size(I, 'ntime')
        time = vec(I, 'time', nt)
        a, b = sym('a', 'R'), sym('b', 'R')
        cplx = lambda n: lambda k: tm.add(sym('%sr%d' % (n, k), 'R'), tm.mul(lit(1j), sym('%si%d' % (n, k), 'R')))
        X, Y = cplx('x'), cplx('y')
        tab = lambda f: A.mktab((n,), {(k,): f(k) for k in range(n)}, A.DC)
        freq = A.mktab((n,), {(k,): sym('f%d' % k, 'R') for k in range(n)}, A.DF)
        if ft == 'fft':
            h = dict(dfreq=sym('dfreq', 'R'), nfreq=opt[0], ntot=opt[1], pts_per_dec=opt[2])
        else:
            q, mu = opt
            h = dict(q=0 if q == 0 else sym('q', 'R'), mu=lit(Fraction(mu)), tcalc=A.mktab((n,), {(k,): sym('tc%d' % k, 'R') for k in range(n)}, A.DF), dlnr=sym('dlnr', 'R'), kr=sym('kr', 'R'), rk=sym('rk', 'R'))
            if q != 0:
                I.assume(tm.not_(tm.cmp_eq(h['q'], 0)))
        vf.frame(I, 'ftarg', h)
        I.contracts['transform.iuSpline'] = spline
        f = getattr(mod, 'fourier_'+ft)

        def F(x, t=time):
            vf.frame(I, 'fEM', x)
            out = I.call_body(f, [x, t, freq, h], {})
            if not isinstance(out, tuple) or len(out) != 2:
                raise Unsupported('two results')
            return A.arr(out[0]), out[1]
        fx, fy = F(tab(X)), F(tab(Y))
        fz = F(tab(lambda k: tm.add(tm.mul(a, X(k)), tm.mul(b, Y(k)))))
        v = vf.V(I)
        v.array('real-linear in the response', fz[0], (nt,), lambda j: tm.add(tm.mul(a, fx[0].at(j)), tm.mul(b, fy[0].at(j))))
        v.true('always converged', tm.and_(tm.tob(lit(fx[1])), tm.tob(lit(fz[1]))))
        j0 = sym('j0', 'I')
        I.assume(tm.and_(tm.le(0, j0), tm.lt(j0, lit(nt))))
        one = F(tab(X), A.mktab((1,), {(0,): fn('time', j0, sort='R')}, A.DF))
        v.eq('the value at one time is that of this time alone', fx[0].at(j0), one[0].at(lit(0)))
        if ft == 'fftlog':
            part = (lambda k: tm.mul(lit(1j), tm.im_(X(k)))) if mu > 0 else (lambda k: tm.re_(X(k)))
            fp = F(tab(part))
            v.array('%s transform: of the %s part only' % (('sine', 'imaginary') if mu > 0 else ('cosine', 'real')), fp[0], (nt,), lambda j: fx[0].at(j))
    return vf.verify('transform.fourier_%s (%d frequencies, options %s)' % (ft, n, opt), run, PRINT, {}, 90)


if __name__ == '__main__':
    main(globals())
