"""Oracles on the transforms: digital filters (C18), quadrature flags (C19), time domain (C20), waveforms (C21)."""
from unittest import mock
import numpy as np
import scipy as sp
import empymod
from empymod import transform, filters, utils, model as M
from .core import oracle
from .util import *
from .o_model import NZ, calc_ab, assemble, experiment, parts_scale
from . import kernel as K

OFFSET = (11, 12, 21, 22, 14, 24, 15, 25)


def filt(c, n=None):
    """random filter with exactly geometric base"""
    n = n or c.i(5, 15)
    f = filters.DigitalFilter('rnd')
    fac = np.exp(c.u(.05, .6))
    f.base = np.exp(c.u(-3, 0)+np.log(fac)*np.arange(n))
    f.factor = np.around([f.base[1]/f.base[0]], 15)
    for k in ('j0', 'j1', 'sin', 'cos'):
        setattr(f, k, c.rng.uniform(-1, 1, n))
    return f


def angles(c, n):
    k = c.i(0, 3)
    if k == 0:
        return np.ones(n)
    if k == 1:
        return np.full(n, c.u(-1, 1))
    return c.rng.uniform(-1, 1, n)


def used(c):
    return c.pick((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (1, 1, 1), (1, 1, 1))


def weighted(PJ, f, off, fac, ab):
    """PJ: three arrays (..., n_off, n_base) or None"""
    v = 0
    if PJ[0] is not None:
        v = v + np.einsum('...k,k', PJ[0], f.j0)
    if PJ[1] is not None:
        w = np.einsum('...k,k', PJ[1], f.j1)*fac
        v = v + (w/off if ab in OFFSET else w)
    if PJ[2] is not None:
        v = v + np.einsum('...k,k', PJ[2], f.j0)*fac
    return v/off


@oracle('C18', 200)
def dlf_standard(c):
    f = filt(c)
    no, nf = c.i(1, 5), c.i(1, 3)
    off = np.array([c.lu(1, 1e4) for _ in range(no)])
    ab = c.pick(11, 12, 21, 22, 13, 23, 31, 32, 33, 14, 24, 15, 25, 34, 35, 16, 26)
    fac = angles(c, no)
    use = used(c)
    cplx = c.coin(.7)
    g = lambda: c.rng.normal(size=(nf, no, f.base.size))+(1j*c.rng.normal(size=(nf, no, f.base.size)) if cplx else 0)
    PJ = tuple(g() if u else None for u in use)
    lam, ip = transform.get_dlf_points(f, off, 0)
    c.note(off=off, ab=ab, ang_fact=fac, used=use)
    c.close(lam, f.base/off[:, None], 'abscissae of the standard filter method are not base/offset', rtol=1e-14)
    noang = c.coin(.15)
    got = transform.dlf(PJ, lam, off, f, 0, ang_fact=None if noang else fac.copy(), ab=ab, int_pts=ip)
    want = weighted(PJ, f, off, 1 if noang else fac, ab)
    c.close(got, np.asarray(want), 'standard filter method is not the filter-weighted sum', rtol=1e-11, scale=np.abs(want)+1e-3*np.abs(want).max()+1/off.max())


@oracle('C18', 120)
def dlf_fourier(c):
    f = filt(c)
    nt = c.i(1, 5)
    t = np.array([c.lu(1e-4, 1e3) for _ in range(nt)])
    kind = c.pick('sin', 'cos')
    om, _ = transform.get_dlf_points(f, t, 0)
    F = c.rng.normal(size=om.shape)+1j*c.rng.normal(size=om.shape)
    c.note(time=t, kind=kind)
    c.close(om, f.base/t[:, None], 'angular frequencies of the standard filter method are not base/time', rtol=1e-14)
    want = ((-F.imag) @ f.sin if kind == 'sin' else F.real @ f.cos)/t
    sc = np.abs(F).sum(axis=1)/t
    got, conv = transform.fourier_dlf(F.ravel(), t, om.ravel()/2/np.pi, {'dlf': f, 'pts_per_dec': 0, 'kind': kind})
    c.ok(bool(conv), 'digital filter always counts as converged')
    c.close(got, want, 'standard Fourier filter method is not the filter-weighted sum', rtol=1e-12, scale=sc)
    time, freq, ft, ft_arg, _ = utils.check_time(t, c.pick(0, 1) if kind == 'sin' else -1, 'dlf', {'dlf': f, 'pts_per_dec': 0, 'kind': kind}, 0, True)
    c.close(np.ravel(freq), (om/2/np.pi).ravel(), 'frequencies required for the filter method', rtol=1e-13)
    c.ok(ft_arg['kind'] == kind, 'kind of the filter')


def coefs(c, z=False):
    return [(c.rng.normal(size=4) + (1j*c.rng.normal(size=4) if z else 0)) for _ in range(3)]


@oracle('C18', 240)
def dlf_interpolated(c):
    """splined and lagged method on kernels for which a cubic spline in log is exact: equal to the standard method"""
    f = filt(c)
    lag = c.coin()
    no = c.i(1, 6)
    off = np.array([c.lu(1, 10**c.u(.5, 4)) for _ in range(no)])
    if c.coin(.15):
        off[:] = off[0]
    ppd = -1 if lag else c.pick(c.u(5, 60), float(c.i(3, 40)))
    ab = c.pick(11, 12, 13, 33, 14, 25, 34, 16)
    fac = angles(c, no)
    use = used(c)
    cplx = c.coin(.7)
    co = coefs(c, cplx)
    l0 = c.u(-8, 0)

    def ker(k, lam):
        x = (np.log(lam)-l0)/3
        v = np.polyval(co[k], x)
        return v/lam if (k == 1 and ab in OFFSET and lag) else v
    lam, ip = transform.get_dlf_points(f, off, ppd)
    c.note(off=off, ab=ab, ang_fact=fac, used=use, pts_per_dec=ppd, base=f.base[[0, -1]], n=f.base.size)
    # coverage
    need = f.base/off[:, None]
    tol = 1e-9
    c.ok(lam.ndim == 2 and lam.shape[0] == 1, 'shape of the grid')
    c.ok(lam.min() <= need.min()*(1+tol) and lam.max() >= need.max()*(1-tol), 'the grid does not cover every abscissa', grid=[lam.min(), lam.max()], need=[need.min(), need.max()])
    r = np.diff(np.log(lam[0]))
    c.close(r, np.full(r.size, np.log(f.factor[0]) if lag else np.log(10)/ppd), 'spacing of the grid', rtol=1e-6)
    if lag:
        c.ok(ip.min() <= off.min()*(1+tol) and ip.max() >= off.max()*(1-tol), 'the interpolation points do not cover the offsets', points=ip)
        c.ok(ip.size >= 4, 'not enough interpolation points')
    else:
        c.close(np.asarray(ip), need, 'interpolation abscissae', rtol=1e-12)
    PJ = tuple(ker(k, lam[None]) if use[k] else None for k in range(3))
    noang = c.coin(.15)
    got = transform.dlf(PJ, lam, off, f, ppd, ang_fact=None if noang else fac.copy(), ab=ab, int_pts=ip if c.coin(.7) else None)
    ST = [ker(k, need) if use[k] else None for k in range(3)]
    want = weighted(ST, f, off, 1 if noang else fac, ab)
    sc = sum(np.abs(s).sum(axis=-1)*(1/off if k == 1 and ab in OFFSET else 1) for k, s in enumerate(ST) if s is not None)/off
    c.close(np.ravel(got), np.ravel(want), '%s method differs from the standard method on exactly interpolated kernels' % ('lagged' if lag else 'splined'), rtol=1e-7, scale=sc)


@oracle('C18', 60)
def dlf_fourier_interpolated(c):
    f = filt(c)
    lag = c.coin()
    nt = c.i(1, 5)
    t = np.array([c.lu(1e-3, 10**c.u(-2, 2)) for _ in range(nt)])
    ppd = -1 if lag else float(c.i(3, 30))
    kind = c.pick('sin', 'cos')
    co = c.rng.normal(size=4)+1j*c.rng.normal(size=4)
    c.note(time=t, pts_per_dec=ppd, kind=kind)
    time, freq, ft, arg, _ = utils.check_time(t, 0 if kind == 'sin' else c.pick(0, -1), 'dlf', {'dlf': f, 'pts_per_dec': ppd, 'kind': kind}, 0, True)
    F = lambda w: np.polyval(co, np.log(w)/3)
    need = f.base/t[:, None]
    want = ((-F(need).imag) @ f.sin if kind == 'sin' else F(need).real @ f.cos)/t
    got, _ = transform.fourier_dlf(F(2*np.pi*freq), time, freq, arg)
    c.close(np.ravel(got), want, '%s Fourier filter differs from the standard method' % ('lagged' if lag else 'splined'), rtol=1e-7, scale=np.abs(F(need)).sum(axis=1)/t)


@oracle('C18', 60)
def lagged_model(c):
    """modelling with the lagged method = standard method at offsets on the grid of the filter, every offset with its own angle"""
    f = TINY
    m, fr, src, rec, ab = experiment(c, ns=1, N=c.i(2, 5), air=False)
    no = c.i(2, 5)
    h0 = c.u(50, 400)
    h = h0*f.factor[0]**(-np.arange(no))
    az = c.rng.uniform(-np.pi, np.pi, no)
    s = [0., 0., float(np.squeeze(src[2]))]
    r = [h*np.cos(az), h*np.sin(az), float(np.squeeze(rec[2]))]
    c.note(model=m, freq=fr, src=s, rec=r, ab=ab)
    kw = dict(ab=ab, xdirect=False, verb=0, squeeze=False, **m)
    a = empymod.dipole(s, r, freqtime=fr, ht='dlf', htarg={'dlf': f, 'pts_per_dec': 0}, **kw)
    b = empymod.dipole(s, r, freqtime=fr, ht='dlf', htarg={'dlf': f, 'pts_per_dec': -1}, **kw)
    c.close(b, a, 'lagged convolution differs from the standard method at grid points', rtol=3e-3, scale=np.abs(a).max(axis=1)[:, None]+parts_scale(m, fr, s, r, ab, a), atol=1e-300)


@oracle('C18', 40)
def splined_model(c):
    """modelling with a dense spline = standard method"""
    f = TINY
    m, fr, src, rec, ab = experiment(c, ns=1, nr=c.i(2, 3), N=c.i(2, 5), air=False)
    c.note(model=m, freq=fr, src=src, rec=rec, ab=ab)
    kw = dict(ab=ab, xdirect=False, verb=0, squeeze=False, **m)
    a = empymod.dipole(src, rec, freqtime=fr, ht='dlf', htarg={'dlf': f, 'pts_per_dec': 0}, **kw)
    b = empymod.dipole(src, rec, freqtime=fr, ht='dlf', htarg={'dlf': f, 'pts_per_dec': 200}, **kw)
    c.close(b, a, 'splined method with a dense grid differs from the standard method', rtol=3e-3, scale=np.abs(a).max(axis=1)[:, None]+parts_scale(m, fr, src, rec, ab, a), atol=1e-300)


# ------------------------------------------------------------------ C19
ROUGH = lambda x: np.sign(np.sin(35*np.asarray(x)**2+.3))*(1+np.asarray(x)**2)
SMOOTH = lambda x: .3+0*np.asarray(x)


def quad_case(c, bad):
    """bad: set of (kernel, 0|1) that cannot be integrated with the given limit"""
    use = [True, True, True] if c.coin() else [bool(c.i(0, 1)) for _ in range(3)]
    for k, _ in bad:
        use[k] = True
    if not any(use):
        use[c.i(0, 2)] = True
    fn = []
    for k in range(3):
        for q in (0, 1):
            fn.append(None if not use[k] else ROUGH if (k, q) in bad else SMOOTH)
    iinp = dict(a=1e-3, b=2., epsabs=1e-7, epsrel=1e-7, limit=3)
    off, fac = c.u(.1, .5), c.u(.3, 1)
    c.note(bad=sorted(bad), used=use, off=off)
    return transform.quad(*fn, c.pick(11, 33, 14, 34), off, fac, iinp)


@oracle('C19', 80)
def quad_flag(c):
    """QUAD: flag false if a real part does not converge (alone or with imaginary parts), true if all converge"""
    re = {k for k in range(3) if c.coin(.4)}
    im = {k for k in range(3) if c.coin(.4)}
    if not re:
        im = set()
    bad = {(k, 0) for k in re} | {(k, 1) for k in im}
    _, conv = quad_case(c, bad)
    c.ok(bool(conv) == (not bad), 'convergence flag of the quadrature', returned=conv)


@oracle('C19', 20)
def quad_flag_imag(c):
    """QUAD: flag false if only imaginary parts do not converge"""
    im = {k for k in range(3) if c.coin(.4)} or {c.i(0, 2)}
    _, conv = quad_case(c, {(k, 1) for k in im})
    c.note(call='transform.quad', failing='imaginary part only')
    c.ok(not conv, 'convergence flag of the quadrature: a non-converged imaginary part is not reported', returned=conv)


@oracle('C19', 80)
def qwe_flag(c):
    """QWE: rows that never settle give a false flag, whatever the others do"""
    n, mx = c.i(1, 5), c.pick(8, 15, 30)
    good = [c.coin(.6) for _ in range(n)]
    iv = np.linspace(0, 1, mx+1)[None, :]*np.ones((n, 1))*2*mx*1.0
    inp = np.zeros((n, mx), dtype=complex if c.coin() else float)
    want = np.zeros(n, dtype=inp.dtype)
    for i in range(n):
        if good[i]:
            q, a = c.u(-.8, -.2), c.u(.5, 2)
            inp[i] = a*q**np.arange(mx)
            want[i] = a/(1-q)
        else:
            inp[i] = c.rng.normal(size=mx)*3.**np.arange(mx)
    w = inp.copy()
    c.note(good=good, maxint=mx)
    got, kc, conv = transform.qwe(1e-10, 1e-30, mx, inp, iv)
    c.ok(np.array_equal(w, inp), 'input array modified')
    c.ok(bool(conv) == all(good), 'convergence flag of QWE', returned=conv)
    for i in range(n):
        if good[i]:
            c.close(got[i], want[i], 'QWE of a geometric series', rtol=1e-8)


def epsilon(x, w, rtol, atol):
    """one element by itself: Shanks transformation of the partial sums -> (estimate, interval it stopped at or None, robust?)"""
    e, tot, last = [0], 0, None
    for i in range(1, len(x)):
        tot = tot + x[i]*w[i]
        e.append(tot)
        aux2 = 0
        for k in range(i, 0, -1):
            aux1, aux2 = aux2, e[k-1]
            d = e[k]-aux2
            if abs(d) < 1e-290:
                return None, None, False
            e[k-1] = aux1+1/d
        est = e[i % 2]+x[0]*w[0]
        if last is not None:
            err, tol = abs((est-last)/est), rtol+atol/abs(est)
            if abs(err-tol) < 1e-4*tol or err < 1e-9:
                return None, None, False
            if err < tol:
                return est, i, True
        last = est
    return last, None, True


@oracle('C19', 120)
def qwe_elements(c):
    """QWE: every element stops by itself, with the estimate its tolerances were met for (the last one otherwise)"""
    n, mx = c.i(1, 5), c.pick(3, 3, 4, 5, 8, 12)
    dt = complex if c.coin() else float
    rtol, atol = 10**c.u(-5, -.5), c.pick(1e-30, 10**c.u(-8, -1))
    iv = np.cumsum(c.rng.uniform(.2, 2, (n, mx+1)), axis=1)
    inp = np.zeros((n, mx), dtype=dt)
    k = np.arange(mx)
    for j in range(n):
        how = c.i(0, 3)
        x = (-1.)**k/(k+1)**c.u(.3, 3) if how == 0 else c.u(-.9, .9)**k if how == 1 else c.rng.normal(size=mx) if how == 2 else np.r_[1, c.lu(1e-4, .1)*c.u(-.9, -.2)**k[1:]]
        inp[j] = x*c.lu(1e-3, 1e3)*(np.exp(1j*c.u(-3, 3)) if dt is complex else c.pick(1, -1))
        if dt is complex:
            inp[j] += c.pick(0, .1)*1j*c.rng.normal(size=mx)*abs(x)
    w = np.diff(iv, axis=1)/2
    one = [epsilon(inp[j].tolist(), w[j].tolist(), rtol, atol) for j in range(n)]
    use = np.array([o[2] for o in one])
    if not use.any():
        return
    inp, iv, one = inp[use], iv[use], [o for o in one if o[2]]
    c.note(maxint=mx, rtol=rtol, atol=atol, inp=inp, intervals=iv)
    call = c.coin()
    if call:
        lam, off, fac = np.arange(len(one))[:, None]*np.ones(3), c.rng.uniform(1, 2, len(one)), c.rng.uniform(1, 2, len(one))

        def fun(i, l, o, a):
            j = l[:, 0].astype(int)
            c.ok(np.array_equal(o, off[j]) and np.array_equal(a, fac[j]), 'kernel called with the offsets or factors of other elements')
            return inp[j, i].copy()
        got, _, conv = transform.qwe(rtol, atol, mx, fun, iv, lam, off, fac)
    else:
        got, _, conv = transform.qwe(rtol, atol, mx, inp.copy(), iv)
    want = np.array([o[0] for o in one])
    c.close(got, want, 'QWE: the estimate of each element', rtol=1e-8, scale=np.abs(want))
    if any(o[1] is None for o in one):
        c.ok(not conv, 'QWE: flag true although an element never met its tolerances', stopped=[o[1] for o in one])
    elif all(o[1] < mx-1 for o in one):
        c.ok(bool(conv), 'QWE: flag false although all elements met their tolerances', stopped=[o[1] for o in one])


def hargs(c, ab, single=None):
    """arguments of the Hankel transforms for a simple layered model"""
    m = model(c, N=c.i(1, 3), air=False)
    f = c.lu(.01, 1)*np.array([c.pick(1., 1., -1.)])
    eH, eV, zH, zV = medium(m, f)
    d = np.r_[-np.inf, m['depth']]
    zs, zr = zin(c, m['depth']), zin(c, m['depth'])
    if abs(zs-zr) < 5:
        zr = zs+17.123
    return m, f, d, eH, eV, zH, zV, zs, zr


@oracle('C19', 60)
def hankel_flags(c):
    """flag of all offsets = conjunction of the flags of the single offsets; values equal too"""
    ht = c.pick('qwe', 'quad')
    cab = c.pick(11, 12, 13, 33, 14, 24, 34, 16)
    m, f, d, eH, eV, zH, zV, zs, zr = hargs(c, cab)
    no = c.i(2, 4)
    off = np.array([c.lu(5, 500) for _ in range(no)])
    ang = c.rng.uniform(-3, 3, no)
    fac = empymod.kernel.angle_factor(ang, cab, False, False)
    if ht == 'qwe':
        arg = utils.check_hankel('qwe', {'rtol': 10**c.u(-7, -3), 'atol': 1e-30, 'maxint': c.pick(4, 8, 12, 20, 40), 'nquad': c.pick(9, 15), 'pts_per_dec': 0}, 0)[1]
    else:
        arg = utils.check_hankel('quad', {'rtol': 10**c.u(-8, -2), 'atol': 10**c.u(-16, -4), 'limit': c.pick(1, 3, 10, 50), 'a': 1e-5, 'b': c.pick(.1, .01), 'pts_per_dec': 10}, 0)[1]
    c.note(ht=ht, ab=cab, model=m, freq=f, zsrc=zs, zrec=zr, off=off, angle=ang, htarg=arg)
    ls, lr = layer(zs, d[1:]), layer(zr, d[1:])
    fun = getattr(transform, 'hankel_'+ht)
    call = lambda s: fun(np.array(zs), np.array(zr), ls, lr, off[s], fac[s], d, cab, eH, eV, zH, zV, False, arg, False, False)
    e, _, conv = call(slice(None))
    one = [call(slice(i, i+1)) for i in range(no)]
    if ht == 'quad' or not all(bool(q[2]) for q in one):
        c.ok(bool(conv) == all(bool(q[2]) for q in one), 'one element hides the non-convergence of another', together=conv, single=[q[2] for q in one])
    if ht == 'quad':
        c.close(e, np.array([q[0][0] for q in one]), 'values depend on the other offsets', rtol=1e-7, atol=1e-300, scale=np.abs(e).max())


def watch(name, seen, flag):
    """record the flag of every call of transform.<name>"""
    f = getattr(transform, name)

    def g(*a, **k):
        r = f(*a, **k)
        seen.append((name, flag(r)))
        return r
    return mock.patch.object(transform, name, g)


@oracle('C19', 60)
def hankel_mixed(c):
    """splined QWE, steep offsets by quad and the others by QWE: the flag collects them all"""
    cab = c.pick(11, 12, 13, 33, 14, 24, 34, 16)
    m, f, d, eH, eV, zH, zV, zs, zr = hargs(c, cab)
    off = np.array([c.lu(5, 5000) for _ in range(c.i(2, 4))])
    fac = empymod.kernel.angle_factor(c.rng.uniform(-3, 3, off.size), cab, False, False)
    arg = utils.check_hankel('qwe', {'rtol': 10**c.u(-5, -3), 'atol': 10**c.u(-20, -6), 'maxint': c.pick(10, 20, 40), 'nquad': c.pick(9, 15), 'pts_per_dec': c.pick(10, 20), 'diff_quad': c.pick(0, c.lu(1.1, 300)), 'limit': c.pick(1, 2, 3, 5, 10, 50)}, 0)[1]
    c.note(ab=cab, model=m, freq=f, zsrc=zs, zrec=zr, off=off, htarg=arg)
    seen = []
    with watch('qwe', seen, lambda r: bool(r[2])), watch('quad', seen, lambda r: bool(r[1])):
        _, _, conv = transform.hankel_qwe(np.array(zs), np.array(zr), layer(zs, d[1:]), layer(zr, d[1:]), off, fac, d, cab, eH, eV, zH, zV, False, arg, False, False)
    if seen:
        c.ok(bool(conv) == all(x for _, x in seen), 'flag of the splined transform against the flags of its parts', parts=seen, returned=conv)


@oracle('C19', 40)
def model_warning(c):
    """non-convergence is printed at verbosity above zero, and only then"""
    dom = c.pick('f', 'f', 't')
    mod = c.pick('dipole', 'bipole')
    v = c.pick(0, 1, 2)
    src = [0, 0, 5.] if mod == 'dipole' else [0, 0, 5., 0, 0]
    rec = [[100., 2000.], [20, 30.], 20.] if mod == 'dipole' else [[100., 2000.], [20, 30.], 20., 0, 0]
    kw = dict(src=src, rec=rec, depth=[0, 30.], res=[20, 3, 50.], verb=v, xdirect=c.pick(False, True))
    good = c.coin()
    if dom == 'f':
        ht = c.pick('qwe', 'quad')
        nf = c.i(1, 3)
        kw.update(freqtime=[c.lu(.1, 10) for _ in range(nf)], ht=ht)
        if ht == 'qwe':
            kw['htarg'] = dict(rtol=1e-3, atol=1e-20, maxint=40, nquad=15) if good else dict(rtol=1e-14, atol=1e-60, maxint=4, nquad=5)
        else:
            kw['htarg'] = dict(rtol=1e-3, atol=1e-8, limit=500, a=1e-4, b=.01) if good else dict(rtol=1e-14, atol=1e-60, limit=1, a=1e-6, b=1.)
        name = 'Hankel'
    else:
        kw.update(freqtime=[1., 2.], signal=c.pick(0, 1, -1), ft='qwe', htarg={'dlf': TINY} if 0 else {}, epermH=[0, 0, 0])
        kw['ftarg'] = dict(rtol=1e-2, maxint=100, nquad=15, pts_per_dec=8) if good else c.pick(dict(rtol=1e-13, atol=1e-60, maxint=3, nquad=5, pts_per_dec=8), dict(rtol=1e-13, atol=1e-60, maxint=4, nquad=5, pts_per_dec=8, diff_quad=0, limit=1))
        name = 'Fourier'
    c.note(routine=mod, **kw)
    r, t = out(getattr(empymod, mod), **kw)
    said = 'did not converge' in t
    if v == 0:
        c.ok(t == '', 'printed at verbosity zero', printed=t)
    elif good:
        c.ok(not said, 'warning although converged', printed=t)
    else:
        c.ok(said and name in t, 'non-convergence is not reported', printed=t)


@oracle('C19', 20)
def freq_flags(c):
    """one frequency that does not converge is reported whatever its position"""
    kw = dict(src=[0, 0, 5.], rec=[300., 20., 20.], depth=[0], res=[20, 3.], verb=1, ht='qwe', xdirect=False, htarg=dict(rtol=1e-6, atol=1e-30, maxint=c.pick(6, 8, 10, 12, 14), nquad=11))
    f = np.array([c.lu(.01, 1e4) for _ in range(4)])
    c.note(freqtime=f, **kw)
    single = ['did not converge' in out(empymod.dipole, freqtime=q, **kw)[1] for q in f]
    both = 'did not converge' in out(empymod.dipole, freqtime=f, **kw)[1]
    c.ok(both == any(single), 'warning for all frequencies differs from the warnings of the single ones', single=single, together=both)


@oracle('C19', 40)
def fourier_flags(c):
    """Fourier QWE: flag of all times against single times (both branches), values on a known pair"""
    t = np.array([c.lu(.3, 5) for _ in range(c.i(2, 4))])
    sig = c.pick(0, 1, -1)
    arg = dict(rtol=10**c.u(-7, -3), atol=1e-30, maxint=c.pick(5, 10, 60), nquad=c.pick(9, 15), pts_per_dec=c.pick(10, 20))
    mode = c.pick('qwe', 'quad', 'mix')
    arg['diff_quad'] = 10**9 if mode == 'qwe' else 0 if mode == 'quad' else c.pick(2, 3, 5, 100)
    if c.coin(.3):
        arg['limit'] = c.pick(1, 2, 5)
    tm, fr, ft, a, _ = utils.check_time(t, sig, 'qwe', arg, 0, True)
    p = c.u(.3, 3)
    w = 2j*np.pi*fr
    F = 1/(1+w*p)*(1 if sig == 0 else sig/w)
    if mode == 'mix' and c.coin(.7):
        # threshold between the steepest decays of the times: some by quad, some by QWE
        spl = [sp.interpolate.InterpolatedUnivariateSpline(np.log(2*np.pi*fr), q) for q in (F.real, -F.imag)]
        x = np.r_[1e-20, (np.arange(1, a['maxint']+1)-(.5 if a['sincos'] == np.cos else 0))*np.pi]
        mag = np.hypot(*[q(np.log(x/tm[:, None])) for q in spl])
        r = np.sort((mag[:, :-1]/mag[:, 1:]).max(axis=1))
        a['diff_quad'] = np.sqrt(r[0]*r[-1])
    c.note(time=t, signal=sig, ftarg=arg, tau=p, diff_quad=a['diff_quad'])
    e, conv = transform.fourier_qwe(F, tm, fr, a)
    one = [transform.fourier_qwe(F, tm[i:i+1], fr, a) for i in range(tm.size)]
    c.ok(bool(conv) == all(bool(q[1]) for q in one), 'one time hides the non-convergence of another', together=conv, single=[bool(q[1]) for q in one])
    c.close(e, np.array([q[0][0] for q in one]), 'value at one time depends on the other times', rtol=1e-7, scale=np.abs(e).max())


# ------------------------------------------------------------------ C20
def ft_cases(c, kind=None):
    k = kind or c.pick('std', 'lag', 'spl', 'qwe', 'fftlog', 'fft', 'fftp')
    if k in ('std', 'lag', 'spl'):
        return k, 'dlf', {'pts_per_dec': {'std': 0, 'lag': -1, 'spl': 15}[k], 'dlf': c.pick('key_81_2009', 'key_201_2012')}
    if k == 'qwe':
        return k, 'qwe', {'maxint': 60, 'nquad': 15, 'pts_per_dec': 15, 'rtol': 1e-6}
    if k == 'fftlog':
        return k, 'fftlog', {'pts_per_dec': c.pick(10, 20), 'add_dec': [-3, 3], 'q': c.pick(0, 0, .2, -.3)}
    return k, 'fft', {'dfreq': 2e-3, 'nfreq': 2**12, 'pts_per_dec': None if k == 'fft' else 40}


@oracle('C20', 140)
def tem_structure(c):
    k, ft, arg = ft_cases(c)
    sig = c.pick(0, 1, -1)
    t = np.array([c.lu(.3, 4) for _ in range(c.i(1, 4))])
    tm, fr, ft2, a, sg = utils.check_time(t.copy(), sig, ft, arg, 0, True)
    c.note(time=t, signal=sig, ft=ft, ftarg=arg)
    c.ok(np.array_equal(tm, t), 'returned times are not the requested ones', returned=tm)
    c.ok(np.all(np.ravel(fr) > 0) and np.all(np.isfinite(fr)), 'required frequencies')
    fr1 = np.ravel(fr)
    no = c.i(2, 4)
    cols = [sum(c.rng.normal()/(1+2j*np.pi*fr1*c.lu(.1, 10)) for _ in range(2)) for _ in range(no)]
    F = np.array(cols).T
    off = np.arange(1., no+1)
    sh = lambda X: X.copy()
    call = lambda X, n, s=sig: M.tem(sh(X), off[:n], fr1, tm, s, ft2, a)[0]
    E = call(F, no)
    c.ok(E.shape == (t.size, no), 'shape')
    c.ok(np.isrealobj(E), 'time-domain response is real')
    for i in range(no):
        c.close(E[:, i], call(F[:, i:i+1], 1)[:, 0], 'column depends on the others', rtol=1e-12, scale=np.abs(E[:, i]).max())
    perm = c.rng.permutation(no)
    c.close(call(F[:, perm], no), E[:, perm], 'order of the columns', rtol=1e-12, scale=np.abs(E).max())
    if sig:
        fact = sig/(2j*np.pi*fr1)
        G = call(F*fact[:, None], no, 0)
        c.close(E, G, 'signal is not the factor +-1/(i w) on the frequency response', rtol=1e-10, scale=np.abs(E).max())
    if ft != 'qwe':
        x, y = c.rng.normal(size=2)
        lin = call(x*F[:, :1]+y*F[:, 1:2], 1)
        c.close(lin, x*E[:, :1]+y*E[:, 1:2], 'not linear', rtol=1e-8, scale=np.abs(E[:, :2]).max()*(abs(x)+abs(y)))
    c.close(call(0*F, no) if ft != 'qwe' else 0*E, 0*E, 'zero response', rtol=0)


@oracle('C20', 84)
def known_pair(c):
    """1/(1+iw tau): impulse exp(-t/tau)/tau, switch-on 1-exp(-t/tau), switch-off exp(-t/tau)"""
    kinds = ('std', 'lag', 'spl', 'qwe', 'fftlog', 'fft', 'fftp')
    k, ft, arg = ft_cases(c, kinds[c.index % 7])
    sig = (0, 1, -1)[(c.index//7) % 3]
    if sig and ft == 'fftlog':
        arg['q'] = 0
    p = c.u(.5, 2)
    t = p*np.array(sorted(c.lu(.3, 3) for _ in range(c.i(1, 4))))
    if ft == 'dlf' and c.coin() and sig == 0:
        arg['kind'] = c.pick('sin', 'cos')
    if ft == 'qwe' and c.coin():
        arg['diff_quad'] = c.pick(10**9, 0)
        if arg['diff_quad'] == 0:
            arg.update(a=1e-3, b=2e3, limit=1000)
    tm, fr, ft2, a, sg = utils.check_time(t.copy(), sig, ft, arg, 0, True)
    fr = np.ravel(fr)
    F = 1/(1+2j*np.pi*fr*p)
    c.note(time=t, signal=sig, ft=ft, ftarg=arg, tau=p)
    e = M.tem(F[:, None], np.array([1.]), fr, tm, sig, ft2, a)[0][:, 0]
    want = {0: np.exp(-t/p)/p, 1: 1-np.exp(-t/p), -1: np.exp(-t/p)}[sig]
    tol = {'fft': .04, 'fftp': .04, 'fftlog': 2e-2, 'qwe': 2e-2, 'lag': 1e-3, 'spl': 3e-3, 'std': 1e-4}[k]
    if k in ('fft', 'fftp') and sig:
        tol = .12
    if arg.get('dlf') == 'key_81_2009':
        tol = max(tol, 5e-3)
    if arg.get('diff_quad') == 0:
        tol = 3e-2
    if k in ('fft', 'fftp') and sig:      # the FFT takes zero for the response at zero frequency: a constant
        e, want = np.r_[0, np.diff(e)], np.r_[0, np.diff(want)]
    if k == 'fftlog' and sig:
        tol = .15
    if k in ('qwe', 'lag', 'spl') and sig:
        tol = max(tol, 6e-2 if k == 'qwe' else 1e-2)
    c.close(e, want, 'known transform pair (%s, signal %d)' % (k, sig), rtol=tol, scale=np.abs(want).max()+.3)


@oracle('C20', 40)
def time_model(c):
    """modelling in time = transform of the modelled frequency responses; times are independent (standard filter)"""
    m, _, src, rec, ab = experiment(c)
    t = np.array([c.lu(.01, 10) for _ in range(c.i(1, 3))])
    sig = c.pick(0, 1, -1)
    kw = dict(src=src, rec=rec, ab=ab, verb=0, squeeze=False, xdirect=False, **m)
    ftarg = {'dlf': TINYF, 'pts_per_dec': 0}
    kind = None
    if c.coin(.5):      # the sine / cosine choice of a step signal belongs to the signal
        kind = c.pick('sin', 'cos')
        ftarg['kind'] = kind
    c.note(model=m, time=t, signal=sig, src=src, rec=rec, ab=ab, kind=kind)
    got = empymod.dipole(freqtime=t, signal=sig, ft='dlf', ftarg=ftarg, **DLF, **kw)
    w = TINYF.base/t[:, None]
    F = np.asarray(empymod.dipole(freqtime=w.ravel()/2/np.pi, **DLF, **kw)).reshape(t.size, w.shape[1], *got.shape[1:])
    F = F*(1 if sig == 0 else sig/(1j*w[:, :, None, None]))
    sine = sig >= 0 if sig or kind is None else kind == 'sin'
    want = np.einsum('tkrs,k->trs', -F.imag if sine else F.real, TINYF.sin if sine else TINYF.cos)/t[:, None, None]*2/np.pi
    c.close(got, want, 'time-domain response is not the transform of the frequency responses', rtol=1e-8, scale=np.abs(F).sum(axis=1)/t[:, None, None], atol=1e-300)


# ------------------------------------------------------------------ C21
def waveform(c):
    n = c.i(2, 6)
    nodes = c.u(-5, 5)+np.cumsum([c.u(.1, 2) for _ in range(n)])
    amp = c.rng.normal(size=n)
    for i in range(1, n):
        if c.coin(.3):
            amp[i] = amp[i-1]
    if c.coin(.25):
        amp = amp*10.**c.u(-14, 4)
    if c.coin(.2):
        nodes = nodes*10.**c.u(-7, 3)
    if c.coin(.1):
        i = c.i(1, n-1)
        amp[i] = amp[i-1]*(1+c.pick(1e-6, 1e-9))
    q = (nodes[-1]-nodes[0])/max(1., n/2)
    lo, hi = nodes[0], nodes[-1]
    t = np.array([c.u(lo-q, hi+5*q) for _ in range(c.i(1, 5))])
    if c.coin(.4):
        t[0] = nodes[c.i(0, n-1)]
    return nodes, amp, t


def segments(nodes, amp, t):
    """[(slope, from delay, to delay)]: from the start of the segment to its end or now"""
    r = []
    for i in range(len(nodes)-1):
        s = (amp[i+1]-amp[i])/(nodes[i+1]-nodes[i])
        if s != 0 and nodes[i] < t:
            r.append((s, t-nodes[i], max(t-nodes[i+1], 0.)))
    return r


@oracle('C21', 250)
def waveform_sum(c):
    nodes, amp, t = waveform(c)
    nq = c.pick(3, 3, 1, 2, 5)
    sig = c.pick(0, 1, -1)
    segs = [segments(nodes, amp, x) for x in t]
    arg = dict(nodes=nodes if c.coin() else list(nodes), amplitudes=amp if c.coin() else list(amp))
    if c.coin(.7):
        arg['signal'] = sig
    else:
        sig = 0
    if nq != 3 or c.coin():
        arg['nquad'] = nq
    c.note(nodes=nodes, amplitudes=amp, time=t, nquad=nq)
    if not any(segs):
        refused(c, utils.check_waveform, t, verb=0, what='all times before the waveform', **arg)
        return
    ct, d = utils.check_waveform(t, verb=0, **arg)
    c.ok(d['signal'] == sig, 'signal')
    c.ok(np.all(ct > 0), 'times at which the response is needed')
    nc = c.i(1, 3)
    deg = c.i(0, 2*nq-1)
    co = [c.rng.normal(size=deg+1) for _ in range(nc)]
    resp = np.array([np.polyval(q, ct) for q in co]).T
    got = d['apply_waveform'](resp)
    want = np.zeros((t.size, nc))
    sc = np.zeros((t.size, nc))
    for i, x in enumerate(t):
        for s, a, b in segs[i]:
            for j in range(nc):
                P = np.polyint(co[j])
                want[i, j] += s*(np.polyval(P, b)-np.polyval(P, a))
                sc[i, j] += abs(s)*(np.polyval(np.abs(P), b)+np.polyval(np.abs(P), a))
    c.close(got, want, 'waveform response is not the superposition of its segments', rtol=1e-9, scale=sc+1e-12)
    # order and number of requested times
    p = c.rng.permutation(t.size)
    ct2, d2 = utils.check_waveform(t[p], verb=0, **arg)
    got2 = d2['apply_waveform'](np.array([np.polyval(q, ct2) for q in co]).T)
    c.close(got2, want[p], 'order of the times', rtol=1e-9, scale=sc[p]+1e-12)


@oracle('C21', 30)
def waveform_model(c):
    """modelling with a waveform = quadrature of the modelled responses"""
    m, _, src, rec, ab = experiment(c)
    nodes, amp, _ = waveform(c)
    nodes = nodes-nodes[0]+c.u(.01, 1)
    t = np.sort(np.array([c.u(nodes[0], nodes[-1]+3) for _ in range(c.i(1, 3))])) + .05
    if amp[1] == amp[0]:
        amp[1] += 1
    sig = c.pick(0, 1, -1)
    kw = dict(src=src, rec=rec, ab=ab, verb=0, squeeze=False, xdirect=False, ft='dlf', ftarg={'dlf': TINYF, 'pts_per_dec': 0}, **DLF, **m)
    c.note(model=m, time=t, nodes=nodes, amplitudes=amp, signal=sig, src=src, rec=rec, ab=ab)
    got = empymod.dipole(freqtime=t, signal=dict(nodes=nodes, amplitudes=amp, signal=sig), **kw)
    x, w = np.polynomial.legendre.leggauss(3)
    want, sc = np.zeros(got.shape), np.zeros(got.shape)
    for i, q in enumerate(t):
        for s, a, b in segments(nodes, amp, q):
            tt = (b-a)/2*x+(a+b)/2
            e = np.asarray(empymod.dipole(freqtime=tt, signal=sig, **kw))
            want[i] += s*(b-a)/2*np.tensordot(w, e, 1)
            sc[i] += abs(s*(b-a)/2)*np.abs(e).sum(axis=0)
    c.close(got, want, 'waveform response is not the quadrature of the modelled responses', rtol=1e-7, scale=sc, atol=1e-300)


@oracle(['C24', 'C21', 'C20'], 120)
def time_refused(c):
    k = c.i(0, 7)
    t = [1., 2.]
    if k == 0:
        refused(c, utils.check_time, t, c.pick(2, -2, .5, 1.5, -.3, 7), 'dlf', {}, 0, True, what='signal')
    elif k == 1:
        refused(c, utils.check_time, t, 0, c.pick('qw', 'ft', '', 'fftlo', 'sin', 'df', 'cos', 'lf', 'quad'), {}, 0, True, what='Fourier transform')
    elif k == 2:
        refused(c, utils.check_time, t, 0, 'dlf', {'kind': c.pick('tan', 'sine', '', 'j0')}, 0, True, what='kind')
    elif k == 3:
        f = filters.DigitalFilter('x')
        keep = c.pick(('base', 'sin'), ('factor', 'sin'), ('base', 'factor'), ())
        for q in keep:
            setattr(f, q, np.array([1., 2]))
        refused(c, utils.check_time, t, c.pick(0, 1), 'dlf', {'dlf': f}, 0, True, what='filter without needed parts')
    elif k == 4:
        f = filters.DigitalFilter('x')
        f.base, f.factor, f.sin = np.array([1., 2]), np.array([2.]), np.array([1., 2])
        refused(c, utils.check_time, t, -1, 'dlf', {'dlf': f}, 0, True, what='filter without cosine')
    elif k == 5:
        w = dict(nodes=[0, 1.], amplitudes=[0, 1.], signal=c.pick(2, 7, -2, .5))
        refused(c, utils.check_time, t, w, 'dlf', {}, 0, True, what='signal in waveform')
    elif k == 6:
        refused(c, utils.check_waveform, np.array(t), [0, 1, 2, 3.], c.pick([0, 1.], [0, 1, 2.], [0, 1, 2, 3, 4.], [1.]), 0, what='nodes and amplitudes of different length')
    else:
        a, txt = out(utils.check_time, t, 0, c.pick('dlf', 'qwe', 'fftlog', 'fft'), {'some': 1}, 1, True)
        c.ok('WARNING' in txt and 'some' in txt, 'unused option without warning', printed=txt)
        a, txt = out(utils.check_time, t, 0, 'dlf', {'some': 1}, 0, True)
        c.ok(txt == '', 'printed at verbosity zero')
