"""Oracles on empymod.kernel (layered earth)."""
import numpy as np
from empymod import kernel
from . import kernel as K
from .core import oracle


def stack(c, N=None, nf=None, wild=True, iso=False):
    """random layer stack: depth, etaH, etaV, zetaH, zetaV (nf, N)"""
    N = N or c.i(1, 6)
    nf = nf or c.i(1, 2)
    th = [c.lu(1, 500) for _ in range(max(N-2, 0))]
    z0 = c.u(-300, 300)
    depth = np.r_[-np.inf, z0, z0+np.cumsum(th)][:N]
    s = np.array([c.pick(2j*np.pi*c.lu(1e-2, 1e3), 2j*np.pi*c.lu(1e-2, 1e3), c.lu(1e-1, 1e4)) for _ in range(nf)])[:, None]
    if c.coin(.3):
        s = s.real + 0*s if np.all(s.imag == 0) else s
    res = np.array([c.lu(.1, 1e3) for _ in range(N)])
    ani = np.ones(N) if iso else np.array([c.u(.5, 3) for _ in range(N)])
    eh, ev = [np.array([c.pick(0., 1., c.u(1, 1e4)) for _ in range(N)]) for _ in range(2)]
    mh, mv = [np.array([c.pick(1., c.u(.5, 30)) for _ in range(N)]) for _ in range(2)]
    e0, m0 = 8.854e-12, 4e-7*np.pi
    etaH = 1/res + s*eh*e0
    etaV = 1/(res*ani**2) + s*ev*e0
    zetaH, zetaV = s*mh*m0, s*mv*m0
    return depth, etaH + 0*s, etaV + 0*s, zetaH + 0*etaH, zetaV + 0*etaH


def place(c, depth, l=None):
    """a depth in a random layer (sometimes exactly on its lower interface)"""
    N = len(depth)
    l = c.i(0, N-1) if l is None else l
    lo = depth[l] if l > 0 else (depth[1]-300 if N > 1 else -300.)
    hi = depth[l+1] if l < N-1 else max(lo, depth[l] if N > 1 else -300)+300
    if l < N-1 and c.coin(.1):
        return l, float(hi)
    return l, float(lo+(hi-lo)*c.u(.02, .98))


def lambdas(c, depth, noff, nl=5):
    L = max(50., np.abs(np.diff(depth[1:])).max() if len(depth) > 2 else 50.)
    return np.array([[c.lu(1e-2, 20)/c.u(20, L) for _ in range(nl)] for _ in range(noff)])


def setup(c, **kw):
    depth, eH, eV, zH, zV = stack(c, **kw)
    ls, zs = place(c, depth)
    lr, zr = place(c, depth, ls if c.coin(.35) else None)
    if c.coin(.05):
        lr, zr = ls, zs
    lam = lambdas(c, depth, c.i(1, 3))
    return depth, eH, eV, zH, zV, ls, zs, lr, zr, lam


def ref(fun, depth, eH, eV, zH, zV, ls, zs, lr, zr, lam, *a):
    out = []
    for i in range(eH.shape[0]):
        out.append(fun(zs, zr, ls, lr, depth, eH[i], eV[i], zH[i], zV[i], lam, *a))
    return [None if out[0][k] is None else np.array([o[k] for o in out]) for k in range(len(out[0]))]


def cmp(c, got, want, what, rtol=1e-7):
    """element-wise, relative to the magnitude of the element's own terms"""
    if want is None or got is None:
        c.ok(got is None and want is None, what+': presence')
        return
    c.ok(got.shape == want.shape, what+': shape', got=got.shape, expected=want.shape)
    c.close(got, want, what, rtol=rtol, atol=1e-250)


def flags(c, ab):
    return c.pick((False, False), (True, False), (False, True), (True, True))


@oracle(['C01', 'C09'], 500)
def greenfct(c):
    args = setup(c)
    depth, eH, eV, zH, zV, ls, zs, lr, zr, lam = args
    ab = K.AB_CALC[c.index % 17]
    ms, mr = flags(c, ab)
    xd = c.coin()
    c.note(ab=ab, msrc=ms, mrec=mr, xdirect=xd, depth=depth, lsrc=ls, lrec=lr, zsrc=zs, zrec=zr, etaH=eH, etaV=eV, zetaH=zH, zetaV=zV, lambd=lam)
    got = kernel.greenfct(zs, zr, ls, lr, depth, eH, eV, zH, zV, lam, ab, xd, ms, mr)
    want = ref(K.green, *args, ab, xd, ms, mr)
    # cancellation between up- and down-going parts: compare against the size of the parts
    for k in (0, 1):
        g, w = got[k], np.broadcast_to(want[k], got[k].shape)
        c.close(g, w, 'kernel.greenfct: P%s differs from the closed form' % ('TM', 'TE')[k], rtol=1e-6, atol=1e-300)


@oracle(['C01', 'C09', 'C05'], 300)
def wavenumber(c):
    args = setup(c)
    depth, eH, eV, zH, zV, ls, zs, lr, zr, lam = args
    ab = K.AB_CALC[c.index % 17]
    ms, mr = flags(c, ab)
    xd = c.coin()
    c.note(ab=ab, msrc=ms, mrec=mr, xdirect=xd, depth=depth, lsrc=ls, lrec=lr, zsrc=zs, zrec=zr, etaH=eH, etaV=eV, zetaH=zH, zetaV=zV, lambd=lam)
    got = kernel.wavenumber(zs, zr, ls, lr, depth, eH, eV, zH, zV, lam, ab, xd, ms, mr)
    tm, te = ref(K.green, *args, ab, xd, ms, mr)
    want = ref(K.wavenumber, *args, ab, xd, ms, mr)
    sc = (np.abs(tm)+np.abs(te))
    for k, n in enumerate(('PJ0', 'PJ1', 'PJ0b')):
        if want[k] is None or got[k] is None:
            c.ok(got[k] is None and want[k] is None, 'kernel.wavenumber: %s presence' % n)
        else:
            p = {33: 3}.get(ab, 2 if ab in (13, 23, 31, 32, 35, 16, 34, 26) else 0 if k == 1 else 1)
            c.close(got[k], want[k], 'kernel.wavenumber: %s differs from the closed form' % n, rtol=1e-6, scale=sc*lam**p, atol=1e-300)


@oracle(['C01', 'C09', 'C13'], 120)
def angle_factor(c):
    ab = K.AB_CALC[c.index % 17]
    ms, mr = flags(c, ab)
    ang = np.array([c.pick(c.u(-np.pi, np.pi), c.i(-4, 4)*np.pi/4, c.i(-6, 6)*np.pi/6) for _ in range(c.i(1, 6))])
    keep = ang.copy()
    c.note(ab=ab, msrc=ms, mrec=mr, angle=ang)
    got = kernel.angle_factor(ang, ab, ms, mr)
    c.ok(np.array_equal(ang, keep), 'kernel.angle_factor modifies its argument')
    c.close(got, K.factor(ab, ang, mr and not ms), 'kernel.angle_factor', rtol=1e-12, atol=1e-13)
