"""Oracles on the analytical solutions: full space (C07) and diffusive half space (C08)."""
import numpy as np
import empymod
from empymod import kernel, filters
from .core import oracle
from .util import *
from . import kernel as K
from .o_utils import VALID
from .o_model import NZ, assemble

COMP = [(r, s) for r in range(1, 7) for s in range(1, 7)]


def fs(src, rec, f, m, ab):
    if ab in (36, 63):
        return np.zeros((np.size(f), np.size(rec[0]), np.size(src[0])))
    return np.asarray(empymod.analytical(src, rec, freqtime=f, ab=ab, verb=0, squeeze=False, **m))


def medium1(c, iso=False, lap=.2):
    m = dict(res=c.lu(.1, 500))
    if not iso:
        m['aniso'] = c.u(.5, 3)
        if c.coin(.6):
            m['epermH'], m['epermV'] = c.lu(1, 1e5), c.lu(1, 1e5)
        if c.coin(.7):
            m['mpermH'], m['mpermV'] = c.u(.5, 20), c.u(.5, 20)
    else:
        if c.coin():
            m['epermH'] = c.lu(1, 1e5)
        if c.coin():
            m['mpermH'] = c.u(.5, 20)
    return m


@oracle(['C07'], 200)
def isotropic(c):
    """unit dipole in an isotropic medium: E = (-zeta + grad div/eta) G p, H = curl(G p)"""
    m = medium1(c, True)
    f = freqs(c, laplace=.25)
    ab = VALID[c.index % 36]
    src = [c.u(-50, 50), c.u(-50, 50), c.u(-50, 50)]
    rec = [c.u(-400, 400), c.u(-400, 400), c.u(-300, 300)]
    if c.coin(.3):
        k = c.i(0, 2)
        rec[k] = src[k]
        if k < 2 and c.coin(.5) and False:
            rec[1-k] = src[1-k]
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab)
    got = fs(src, rec, f, m, ab)[:, 0, 0]
    eH, _, zH, _ = [q[:, 0] for q in medium({k: [v] for k, v in m.items()}, f)]
    v = np.array(rec)-np.array(src)
    R = np.linalg.norm(v)
    k = np.sqrt(zH*eH)
    G = np.exp(-k*R)/(4*np.pi*R)
    i, j = (ab//10-1) % 3, (ab % 10-1) % 3
    er, es = ab//10 < 4, ab % 10 < 4
    n = v/R
    d1 = -(k+1/R)*G                       # dG/dR
    d2 = (k*k+2*k/R+2/R**2)*G
    dd = n[i]*n[j]*(d2-d1/R) + (i == j)*d1/R
    if er == es:
        a, b = (zH, eH) if er else (eH, zH)
        want = -a*(i == j)*G + dd/b
        sc = np.abs(a*G)*(i == j)+np.abs(d2/b)
    else:
        eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}
        # H_i = eps_ikj d_k G p_j ; E_i = -(same) m_j
        want = sum(eps.get((i, q, j), 0)*n[q]*d1 for q in range(3))*(1 if not er else -1)
        sc = np.abs(d1)
    c.close(got, np.zeros_like(got)+want, 'analytical full space differs from the isotropic closed form', rtol=1e-9, scale=sc, atol=1e-300)


def fields6(src, pts, f, m, s):
    """E and H at points (n, 3): arrays (6, nf, n)"""
    out = []
    for r in range(1, 7):
        row = []
        for p in pts:
            row.append(fs(src, list(p), f, m, r*10+s)[:, 0, 0])
        out.append(np.array(row).T)
    return np.array(out)


@oracle(['C07'], 40)
def maxwell(c):
    """curl E + zeta H = 0 and curl H - eta E = 0 away from the source (central differences, 4th order)"""
    m = medium1(c)
    f = freqs(c, n=1, laplace=.25)
    s = c.i(1, 6)
    src = [c.u(-20, 20), c.u(-20, 20), c.u(-20, 20)]
    v = np.array([c.pick(-1, 1)*c.u(20, 150) for _ in range(3)])
    p0 = np.array(src)+v
    h = .004*np.linalg.norm(v)
    # keep the step small against the wavelength in the medium
    eH, eV, zH, zV = [q[0, 0] for q in medium({k: [w] for k, w in m.items()}, f)]
    kmax = max(abs(np.sqrt(a*b)) for a in (eH, eV) for b in (zH, zV))
    h = min(h, .02/kmax)
    c.note(model=m, freq=f, src=src, rec=p0, source=s)
    pts = [p0]
    for k in range(3):
        for q in (-2, -1, 1, 2):
            e = np.zeros(3)
            e[k] = q*h
            pts.append(p0+e)
    F = fields6(src, pts, f, m, s)[:, 0, :]
    if not np.all(np.isfinite(F)) or np.abs(F[:, 0]).max() < 1e-250:
        c.trivial = True
        return
    D = lambda comp, k: (F[comp, 1+4*k]-8*F[comp, 2+4*k]+8*F[comp, 3+4*k]-F[comp, 4+4*k])/(12*h)
    E = F[:3, 0]
    H = F[3:, 0]
    for name, o, w in (('curl E + zeta H = 0', 0, [zH*H[0], zH*H[1], zV*H[2]]), ('curl H - eta E = 0', 3, [-eH*E[0], -eH*E[1], -eV*E[2]])):
        d = [[D(o+i, k) for k in range(3)] for i in range(3)]
        curl = [d[2][1]-d[1][2], d[0][2]-d[2][0], d[1][0]-d[0][1]]
        sc = max(abs(x) for r in d for x in r)
        big = max(np.abs(F[o:o+3, 0]).max()/np.linalg.norm(v), sc)
        for i in range(3):
            c.close(curl[i]+w[i], 0*curl[i], 'analytical full space: %s (component %d)' % (name, i+1), rtol=2e-4, scale=big+abs(w[i]), atol=1e-300)


@oracle(['C07'], 108)
def spectral(c):
    """analytical full space = Bessel transform of the closed-form kernel"""
    ab = NZ[c.index % len(NZ)]
    m = medium1(c)
    f = freqs(c, n=1, laplace=.25)
    h = c.u(30, 200)
    az = c.u(-np.pi, np.pi)
    src = [0., 0., 0.]
    rec = [h*np.cos(az), h*np.sin(az), c.pick(-1, 1)*h*c.u(.15, .6)]
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab)
    eta = medium({k: [w] for k, w in m.items()}, f)
    k = max(abs(np.sqrt(a*b))[0, 0] for a in eta[:2] for b in eta[2:])
    if k*np.linalg.norm(rec) > 3:
        f = f*(3/(k*np.linalg.norm(rec)))**2
        eta = medium({k: [w] for k, w in m.items()}, f)
        if max(abs(np.sqrt(a*b))[0, 0] for a in eta[:2] for b in eta[2:])*np.linalg.norm(rec) > 6:
            c.trivial = True
            return
        c.note(freq=f)
    want = assemble(src, rec, [], *eta, ab, f, filt=filters.Hankel().key_401_2009)
    got = fs(src, rec, f, m, ab)
    # scale: largest component with that kind of source/receiver
    r0, s0 = 3*(ab//10 > 3), 3*(ab % 10 > 3)
    sc = max(np.abs(fs(src, rec, f, m, (r0+i)*10+s0+j)).max() for i in (1, 2, 3) for j in (1, 2, 3))
    c.close(got, want, 'analytical full space differs from the transform of the closed-form kernel', rtol=2e-4, scale=sc, atol=1e-300)


@oracle(['C07', 'C04'], 80)
def rotation(c):
    """rotating the experiment about the vertical rotates the field"""
    m = medium1(c)
    f = freqs(c, laplace=.2)
    t = c.pick(np.pi/2, np.pi, -np.pi/2, c.u(-3, 3))
    M = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
    src = np.array([0, 0, c.u(-50, 50)])
    rec = np.array([c.u(-200, 200), c.u(-200, 200), c.u(-150, 150)])
    er, es = 3*c.i(0, 1), 3*c.i(0, 1)
    c.note(model=m, freq=f, src=src, rec=rec, angle=t, rec0=er, src0=es)
    T = lambda p: np.array([[fs(list(src), list(p), f, m, (er+i)*10+es+j)[:, 0, 0] for j in (1, 2, 3)] for i in (1, 2, 3)])
    A, B = T(rec), T(M @ rec)
    W = np.einsum('ai,ijf,bj->abf', M, A, M)
    c.close(B, W, 'rotation about the vertical', rtol=1e-7, scale=np.abs(A).max(axis=(0, 1)), atol=1e-300)


# ------------------------------------------------------------------ half space
HS = (11, 12, 13, 21, 22, 23, 31, 32, 33)


def hs(c):
    m = dict(res=c.lu(.2, 200), aniso=c.pick(1., c.u(.6, 2.5)), epermH=0, epermV=0)
    ab = HS[c.index % 9]
    z0, z1 = c.u(1, 100), c.u(1, 100)
    n = c.i(1, 2)
    src = [0., 0., z0]
    rec = [np.array([c.pick(-1, 1)*c.u(30, 400) for _ in range(n)]), np.array([c.pick(-1, 1)*c.u(30, 400) for _ in range(n)]), z1]
    if c.coin(.2):
        rec[0] = np.abs(rec[0])
        rec[1] = 0*rec[1]
    R2 = float((rec[0]**2+rec[1]**2).min()+(z0-z1)**2)
    tau = 4e-7*np.pi*R2/m['res']/4
    return m, ab, src, rec, tau


def an(src, rec, ft, m, ab, sol, sig, epsf=True):
    kw = dict(m)
    r = empymod.analytical(src, rec, freqtime=ft, ab=ab, solution=sol, signal=sig, verb=0, squeeze=False, **kw)
    return [np.asarray(q) for q in r] if isinstance(r, (tuple, list)) or np.ndim(r) == 4 else np.asarray(r)


@oracle(['C08'], 180)
def parts(c):
    m, ab, src, rec, tau = hs(c)
    sig = c.pick(None, 0, 1, -1)
    ft = tau*np.array([c.lu(.1, 50) for _ in range(c.i(1, 3))]) if sig is not None else np.array([c.lu(.02, 20) for _ in range(c.i(1, 3))])/tau*c.pick(1, 1, -1)
    c.note(model=m, ab=ab, src=src, rec=rec, signal=sig, freqtime=ft)
    tot = an(src, rec, ft, m, ab, 'dhs', sig)
    d = an(src, rec, ft, m, ab, 'dfs', sig)
    s = an(src, rec, ft, m, ab, 'dsplit', sig)
    t = an(src, rec, ft, m, ab, 'dtetm', sig)
    c.ok(len(s) == 3 and len(t) == 5, 'number of parts')
    c.ok(all(q.shape == tot.shape for q in list(s)+list(t)+[d]), 'shape of the parts')
    sc = sum(np.abs(q) for q in t)
    c.close(s[0], d, 'direct part of the split differs from the full-space solution', rtol=1e-9, scale=sc, atol=1e-300)
    c.close(tot, s[0]+s[1]+s[2], 'total differs from direct + reflected + airwave', rtol=1e-9, scale=sc, atol=1e-300)
    c.close(s[0], t[0]+t[1], 'direct differs from its TE + TM parts', rtol=1e-9, scale=sc, atol=1e-300)
    c.close(s[1], t[2]+t[3], 'reflected differs from its TE + TM parts', rtol=1e-9, scale=sc, atol=1e-300)
    c.close(s[2], t[4], 'airwave depends on the form of output', rtol=1e-9, scale=sc, atol=1e-300)
    if ab in (13, 23, 31, 32, 33):
        c.ok(np.all(t[0] == 0) and np.all(t[2] == 0) and np.all(t[4] == 0), 'vertical components have no TE part and no airwave')


@oracle(['C08'], 90)
def signals(c):
    m, ab, src, rec, tau = hs(c)
    t = tau*np.array([c.lu(.2, 20) for _ in range(c.i(2, 3))])
    c.note(model=m, ab=ab, src=src, rec=rec, time=t)
    late = max(1e4, 1e4)
    for sol in ('dhs', 'dsplit', 'dtetm', 'dfs'):
        on, off, dc = an(src, rec, t, m, ab, sol, 1), an(src, rec, t, m, ab, sol, -1), an(src, rec, np.array([late]), m, ab, sol, 1)
        if sol in ('dhs', 'dfs'):
            on, off, dc = [on], [off], [dc]
        sc = max(np.abs(q).max() for q in list(on)+list(dc))
        for k, (a, b, e) in enumerate(zip(on, off, dc)):
            air = sol == 'dhs' or (k == len(on)-1 and sol != 'dfs')   # contains a Gaver-Stehfest sum, which amplifies roundoff
            c.close(b, e-a, 'switch-off is not late-time minus switch-on (%s, part %d)' % (sol, k), rtol=1e-4 if air else 1e-9, scale=sc, atol=1e-300)
    # impulse = time derivative of the step
    h = 1e-3
    for sol in ('dsplit', 'dtetm'):
        imp = an(src, rec, t, m, ab, sol, 0)
        st = [an(src, rec, t*(1+q*h), m, ab, sol, 1) for q in (-2, -1, 1, 2)]
        for k in range(len(imp)):
            d = (st[0][k]-8*st[1][k]+8*st[2][k]-st[3][k])/(12*h)/t[:, None, None]
            air = k == len(imp)-1
            sc = np.abs(imp[k])+np.abs(st[0][k])/t[:, None, None]
            sc = sc+1e-6*np.max(sc)
            if air:
                continue      # the step airwave is evaluated with a Gaver-Stehfest sum: compared below
            c.close(imp[k], d, 'impulse is not the derivative of the switch-on response (%s, part %d)' % (sol, k), rtol=1e-6, scale=sc, atol=1e-300)


@oracle(['C08'], 60)
def airwave_signals(c):
    """airwave: step against the integral of the impulse"""
    m, ab, src, rec, tau = hs(c)
    if ab in (13, 23, 31, 32, 33):
        ab = c.pick(11, 12, 21, 22)
    t0, t1 = tau*c.lu(1, 5), 0
    t1 = t0*c.u(1.5, 4)
    c.note(model=m, ab=ab, src=src, rec=rec, time=[t0, t1])
    x, w = np.polynomial.legendre.leggauss(12)
    q = np.exp((np.log(t1/t0))*(x+1)/2)*t0
    imp = an(src, rec, q, m, ab, 'dsplit', 0)[2]
    integ = np.tensordot(w*np.log(t1/t0)/2*q, imp, 1)
    st = an(src, rec, np.array([t0, t1]), m, ab, 'dsplit', 1)[2]
    c.close(st[1]-st[0], integ, 'airwave: switch-on is not the integral of the impulse', rtol=3e-3, scale=np.abs(st).max()+np.abs(integ).max(), atol=1e-300)


@oracle(['C08'], 60)
def laplace_pair(c):
    """Laplace transform of the impulse response = s-domain response (direct and reflected parts, TE and TM)"""
    m, ab, src, rec, tau = hs(c)
    s = c.lu(.05, 20)/tau
    c.note(model=m, ab=ab, src=src, rec=rec, s=s)
    t = np.exp(np.linspace(np.log(tau*1e-4), np.log(max(tau, 1/s)*1e5), 1500))
    imp = an(src, rec, t, m, ab, 'dtetm', 0)
    ref = an(src, rec, np.array([-s]), m, ab, 'dtetm', None)
    sc = sum(np.abs(q[0]) for q in ref)
    dl = np.log(t[1]/t[0])
    for k in range(4):
        v = np.tensordot(np.exp(-s*t)*t*dl, imp[k], 1)
        c.close(v, np.real(ref[k][0]), 'frequency- and time-domain half-space parts do not belong together (part %d)' % k, rtol=3e-4, scale=sc+np.abs(np.exp(-s*t)[:, None, None]*imp[k]*t[:, None, None]).max()*dl, atol=1e-300)


@oracle(['C08'], 40)
def on_axis(c):
    """receivers straight above or below the source: parts, switch-off, impulse as derivative, and Laplace pair"""
    m, ab, src, rec, tau = hs(c)
    ab = HS[c.i(0, 8)]
    z0, z1 = src[2], rec[2]
    z1 = z0+c.pick(-1, 1)*c.u(3, 60)
    if z1 < 1:
        z1 = z0+c.u(3, 60)
    tau = np.pi*1e-7*(z1-z0)**2/m['res']*c.lu(.5, 3)
    eH = np.array([[1/m['res'], 1/m['res']]])
    eV = np.array([[1/(m['res']*m['aniso']**2)]*2])
    ph = c.pick(0., c.u(-3, 3))
    c.note(model=m, ab=ab, zsrc=z0, zrec=z1, angle=ph)
    k = empymod.kernel.halfspace
    go = lambda ft, sig, sol: [np.asarray(q) for q in (lambda r: r if isinstance(r, (tuple, list)) else [r])(k(np.array([0.]), np.array([ph]), z0, z1, eH, eV, np.atleast_1d(ft)[:, None], ab, sig, sol))]
    t = tau*np.array([c.lu(.3, 20), c.lu(.3, 20)])
    for sig, ft in ((None, 2j*np.pi/t), (None, 1/t), (0, t), (1, t), (-1, t)):
        T, D, S, P = [go(ft, sig, q) for q in ('dhs', 'dfs', 'dsplit', 'dtetm')]
        sc = sum(np.abs(q) for q in P)
        c.close(T[0], S[0]+S[1]+S[2], 'on the axis: total differs from direct + reflected + airwave (signal %s)' % sig, rtol=1e-9, scale=sc, atol=1e-300)
        c.close(D[0], S[0], 'on the axis: direct part (signal %s)' % sig, rtol=1e-9, scale=sc, atol=1e-300)
        c.close(S[0], P[0]+P[1], 'on the axis: direct = TE + TM (signal %s)' % sig, rtol=1e-9, scale=sc, atol=1e-300)
        c.close(S[1], P[2]+P[3], 'on the axis: reflected = TE + TM (signal %s)' % sig, rtol=1e-9, scale=sc, atol=1e-300)
        r = 1e-3*min(abs(z1-z0), z1+z0)
        at = lambda r, ab: [np.asarray(q) for q in k(np.array([r]), np.array([ph]), z0, z1, eH, eV, np.atleast_1d(ft)[:, None], ab, sig, 'dsplit')]
        near = at(r, ab)
        sc = sum(np.abs(q) for a in (11, 22, 33) for q in at(0., a))
        for q in range(3):
            c.close(S[q], near[q], 'on the axis: not the limit of the field beside it (signal %s, part %d)' % (sig, q), rtol=1e-2, scale=sc, atol=1e-300)
    on, off, dc, imp = go(t, 1, 'dtetm'), go(t, -1, 'dtetm'), go(np.array([1e4]), 1, 'dtetm'), go(t, 0, 'dtetm')
    h = 1e-3
    st = [go(t*(1+q*h), 1, 'dtetm') for q in (-2, -1, 1, 2)]
    tt = np.exp(np.linspace(np.log(tau*1e-4), np.log(tau*1e5), 1500))
    long, s = go(tt, 0, 'dtetm'), c.lu(.1, 5)/tau
    ref = go(np.array([s]), None, 'dtetm')
    dl = np.log(tt[1]/tt[0])
    for q in range(4):
        sc = np.abs(on[q])+np.abs(dc[q])
        c.close(off[q], dc[q]-on[q], 'on the axis: switch-off (part %d)' % q, rtol=1e-9, scale=sc+1e-12*np.max([np.abs(x).max() for x in on]), atol=1e-300)
        d = (st[0][q]-8*st[1][q]+8*st[2][q]-st[3][q])/(12*h)/t[:, None]
        sc = np.abs(imp[q])+np.abs(st[0][q])/t[:, None]+1e-6*sum(np.max(np.abs(x)) for x in imp)
        c.close(imp[q], d, 'on the axis: impulse is not the derivative of the switch-on response (part %d)' % q, rtol=1e-6, scale=sc+1e-6*np.max(sc), atol=1e-300)
        y = np.exp(-s*tt)[:, None]*long[q]*tt[:, None]
        c.close(np.sum(y, 0)*dl, np.real(ref[q][0]), 'on the axis: frequency and time domain do not belong together (part %d)' % q, rtol=3e-4, scale=sum(np.abs(x[0]) for x in ref)+np.abs(y).max()*dl, atol=1e-300)


@oracle(['C08'], 45)
def against_layered(c):
    """frequency domain: diffusive half space = layered model with air above, epsilon = 0"""
    m, ab, src, rec, tau = hs(c)
    src[2], rec[2] = c.u(1, 60), c.u(65, 160)
    f = np.array([c.lu(.05, 3)/tau*c.pick(1, 1, -1)])
    c.note(model=m, ab=ab, src=src, rec=rec, freq=f)
    got = an(src, rec, f, m, ab, 'dhs', None)
    want = np.asarray(empymod.dipole(src, rec, [0.], [2e14, m['res']], f, ab=ab, aniso=[1, m['aniso']], epermH=[0, 0], epermV=[0, 0], ht='dlf', htarg={'dlf': 'key_401_2009'}, verb=0, squeeze=False))
    sc = sum(np.abs(q) for q in an(src, rec, f, m, ab, 'dtetm', None))+1e-6*np.abs(an(src, rec, .01*f, m, ab, 'dhs', None))
    c.close(got, want, 'diffusive half space differs from the layered solution', rtol=3e-3, scale=sc, atol=1e-300)


@oracle(['C08', 'C07'], 60)
def diffusive_fullspace(c):
    """dfs = full space without displacement currents"""
    m, ab, src, rec, tau = hs(c)
    f = np.array([c.lu(.05, 10)/tau*c.pick(1, 1, -1) for _ in range(1)])
    c.note(model=m, ab=ab, src=src, rec=rec, freq=f)
    got = an(src, rec, f, m, ab, 'dfs', None)
    want = np.asarray(empymod.analytical(src, rec, freqtime=f, ab=ab, verb=0, squeeze=False, **m))
    r = np.asarray(an(src, rec, f, m, ab, 'dtetm', None))
    c.close(got, want, 'diffusive full space differs from the full space without displacement currents', rtol=1e-6, scale=np.abs(r[0])+np.abs(r[1])+np.abs(want), atol=1e-300)


@oracle(['C24', 'C08'], 30)
def solution_refused(c):
    kind = c.pick('name', 'magnetic', 'time')
    kw = dict(src=[0, 0, 1], rec=[50, 10, 2], res=1., freqtime=1., verb=0)
    if kind == 'name':
        kw['solution'] = c.pick('hs', '', 'd', 'dh', 'full', 'DHS', 'split', 'tetm', 'fss', 'dtem')
    elif kind == 'magnetic':
        kw.update(solution=c.pick('dfs', 'dhs', 'dsplit', 'dtetm'), ab=c.pick(*[a for a in VALID if a > 39 or a % 10 > 3]), signal=c.pick(None, 0, 1))
    else:
        kw.update(solution='fs', signal=c.pick(0, 1, -1))
    c.note(kind=kind, **kw)
    refused(c, empymod.analytical, **kw, what='analytical (%s)' % kind)
