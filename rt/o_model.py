"""Oracles on empymod.model: relations between modelled responses.

All of them use a short digital filter with arbitrary coefficients (util.TINY): the
transform is linear and point-wise in the kernel, so that a relation that holds for the
kernel at every wavenumber holds for the response exactly, and a kernel that violates
it at a few wavenumbers shows up undamped.
"""
import warnings
import numpy as np
import empymod
from empymod import kernel, utils, model as emodel, transform
from .core import oracle, traced
from .util import *
from . import kernel as K
from .o_utils import VALID, angle_w

for _n in ('dipole', 'bipole', 'analytical', 'dipole_k'):
    setattr(empymod, _n, traced(getattr(empymod, _n)))      # only the public names; the package itself calls the originals
NZ = [a for a in VALID if a not in (36, 63)]
OFFSET = (11, 12, 21, 22, 14, 24, 15, 25)


def calc_ab(ab):
    r, s = ab//10, ab % 10
    if r > 3 and s > 3:
        return (r-3)*10+s-3
    return s*10+r if r > 3 else ab


def assemble(src, rec, depth, eH, eV, zH, zV, ab, f, analytic=False, xd=False, filt=TINY):
    """(nf, nrec, nsrc) response with the short filter, from the closed-form kernel"""
    sx, sy, rx, ry = [np.atleast_1d(np.asarray(q, dtype=float)) for q in (src[0], src[1], rec[0], rec[1])]
    zs, zr = float(np.squeeze(src[2])), float(np.squeeze(rec[2]))
    depth = np.asarray(depth, dtype=float)
    d = np.r_[-np.inf, depth[np.isfinite(depth)]]
    ls, lr = layer(zs, d[1:]), layer(zr, d[1:])
    ms, mr = ab % 10 > 3, ab//10 > 3
    cab = calc_ab(ab)
    f = np.atleast_1d(f)
    out = np.zeros((f.size, rx.size, sx.size), dtype=complex if np.iscomplexobj(eH) else float)
    if cab == 36:
        return out
    for i in range(sx.size):
        for j in range(rx.size):
            dx, dy = rx[j]-sx[i], ry[j]-sy[i]
            off = np.array([max(np.hypot(dx, dy), utils.get_minimum()['min_off'])])
            ang = np.array([np.arctan2(dy, dx)])
            if analytic:
                out[:, j, i] = kernel.fullspace(off, ang, zs, zr, eH[:, lr], eV[:, lr], zH[:, lr], zV[:, lr], cab, ms, mr)[:, 0]
                continue
            lam = filt.base/off[0]
            fac = K.factor(cab, ang, mr and not ms)[0]
            for k in range(f.size):
                J0, J1, J0b = K.wavenumber(zs, zr, ls, lr, d, eH[k], eV[k], zH[k], zV[k], lam, cab, xd, ms, mr)
                v = 0
                if J0 is not None:
                    v = v + (J0*filt.j0).sum()
                if J1 is not None:
                    v = v + fac*(J1*filt.j1).sum()/(off[0] if cab in OFFSET else 1)
                if J0b is not None:
                    v = v + fac*(J0b*filt.j0).sum()
                v = v/off[0]
                out[k, j, i] = v if np.iscomplexobj(out) else np.real(v)
    return out


def experiment(c, ns=None, nr=None, ab=None, **mk):
    m = model(c, **mk)
    f = freqs(c)
    ns, nr = ns or c.i(1, 2), nr or c.i(1, 3)
    g = lambda n, a: [np.round(c.u(-a, a), 2) for _ in range(n)] if n > 1 or c.coin() else np.round(c.u(-a, a), 2)
    src = [g(ns, 50), g(ns, 50), zin(c, m['depth'])]
    rec = [g(nr, 300), g(nr, 300), zin(c, m['depth'])]
    if ns > 1:
        src = [np.broadcast_to(q, ns).tolist() for q in src[:2]]+[src[2]]
    if nr > 1:
        rec = [np.broadcast_to(q, nr).tolist() for q in rec[:2]]+[rec[2]]
    return m, f, src, rec, ab or c.pick(*NZ)


def xd_for(c, m):
    return c.pick(False, False, True, None)


def run(m, f, src, rec, ab, **kw):
    k = dict(DLF, verb=0, squeeze=False)
    k.update(kw)
    return np.asarray(empymod.dipole(src, rec, freqtime=f, ab=ab, **m, **k))


def parts_scale(m, f, src, rec, ab, *res):
    """size of the response, per frequency"""
    s = 0
    for r in res:
        s = np.maximum(s, np.abs(r).max(axis=tuple(range(1, r.ndim)), keepdims=True))
    other = {14: 15, 25: 24, 41: 51, 52: 42}.get(ab)
    if other and np.asarray(m['res']).size == 1:      # vanish by symmetry in a homogeneous isotropic space: pure rounding
        s = s+1e-5*np.abs(run(m, f, src, rec, other, xdirect=False)).max(axis=(1, 2), keepdims=True)
    return s


@oracle(['C01', 'C09', 'C16', 'C10', 'C22'], 120)
def dipole_total(c):
    """dipole = short-filter sum of the closed-form kernel, all components"""
    ab = NZ[c.index % len(NZ)]
    m, f, src, rec, ab = experiment(c, ab=ab)
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab)
    xd = c.pick(False, None)
    if all(np.all(np.asarray(v) == np.asarray(v)[0]) for k, v in m.items() if k != 'depth'):
        xd = False      # a homogeneous model has no secondary field
    got = run(m, f, src, rec, ab, xdirect=xd)
    eH, eV, zH, zV = medium(m, f)
    want = assemble(src, rec, m['depth'], eH, eV, zH, zV, ab, f, xd=xd is None)
    c.close(got, want, 'dipole differs from the assembled closed form', rtol=rt(m), scale=parts_scale(m, f, src, rec, ab, want), atol=1e-300)


def split(c, m, extra=()):
    """insert fictitious interfaces"""
    d = np.asarray(m['depth'], dtype=float)
    new = dict(m)
    n = c.i(1, 3)
    zs = [c.pick(*extra) if extra and c.coin(.4) else float(np.round(c.u(-300, 400), 2)) for _ in range(n)]
    zs = [z for z in dict.fromkeys(zs) if np.all(np.abs(d-z) > 1e-3)] if d.size else list(dict.fromkeys(zs))
    zs = [z for k, z in enumerate(zs) if all(abs(z-y) > 1e-3 for y in zs[:k])]
    for z in zs:
        l = layer(z, new['depth'])
        for k in new:
            if k != 'depth':
                new[k] = np.insert(new[k], l, new[k][l])
        new['depth'] = np.insert(np.asarray(new['depth'], dtype=float), l, z)
    return new


@oracle(['C02'], 200)
def split_layers(c):
    m, f, src, rec, ab = experiment(c)
    new = split(c, m, (src[2], rec[2]))
    xd = c.pick(None, False, None) if new['res'].size != m['res'].size else False
    # with the analytical direct field the source/receiver layers must stay the same
    same_l = (layer(src[2], m['depth']) == layer(rec[2], m['depth'])) == (layer(src[2], new['depth']) == layer(rec[2], new['depth']))
    xd = False
    if same_l and layer(src[2], m['depth']) == layer(rec[2], m['depth']):
        xd = c.pick(False, True, None)
    elif same_l:
        xd = c.pick(False, True, None)
    if m['res'].size == 1 and xd is None:
        xd = False
    c.note(model=m, split=new, freq=f, src=src, rec=rec, ab=ab, xdirect=xd)
    if new['depth'].size == m['depth'].size:
        c.trivial = True
    a = run(m, f, src, rec, ab, xdirect=xd)
    b = run(new, f, src, rec, ab, xdirect=xd)
    if xd is None:
        # secondary only: compare against the magnitude of the total
        sc = parts_scale(m, f, src, rec, ab, a, run(m, f, src, rec, ab, xdirect=False))
    else:
        sc = parts_scale(m, f, src, rec, ab, a, run(m, f, src, rec, ab, xdirect=False))
    c.close(b, a, 'fictitious interfaces change the response', rtol=rt(m), scale=sc, atol=1e-300)


@oracle(['C02'], 60)
def all_equal_layers(c):
    """identical layers = full space"""
    m, f, src, rec, ab = experiment(c, N=1)
    new = dict(m, depth=np.sort([np.round(c.u(-300, 300), 2) for _ in range(c.i(1, 4))]))
    if np.any(np.diff(new['depth']) < .01):
        c.trivial = True
        return
    n = new['depth'].size+1
    for k in m:
        if k != 'depth':
            new[k] = np.full(n, m[k][0])
    # isfullspace shortcut
    c.note(model=m, new=new, freq=f, src=src, rec=rec, ab=ab)
    a = run(m, f, src, rec, ab, xdirect=False)
    b = run(new, f, src, rec, ab, xdirect=False)
    c.close(b, a, 'identical layers differ from the homogeneous space (wavenumber domain)', rtol=1e-7, scale=parts_scale(m, f, src, rec, ab, a), atol=1e-300)
    kw = {k: v for k, v in m.items() if k != 'depth'}
    a = np.asarray(empymod.analytical(src, rec, freqtime=f, ab=ab, verb=0, squeeze=False, **kw))
    b = run(new, f, src, rec, ab, xdirect=True)
    c.close(b, a, 'identical layers differ from the analytical full space', rtol=1e-9, scale=parts_scale(m, f, src, rec, ab, a), atol=1e-300)


def swap_ab(ab):
    return (ab % 10)*10 + ab//10


@oracle(['C03'], 200)
def reciprocity(c):
    m, f, src, rec, ab = experiment(c, ns=1, nr=1)
    src, rec = [[float(np.squeeze(q)) for q in p] for p in (src, rec)]
    if c.coin(.15):
        rec[2] = src[2]
    same_layer = layer(src[2], m['depth']) == layer(rec[2], m['depth'])
    xd = c.pick(False, True, None)
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab, xdirect=xd)
    sg = -1 if (ab//10 > 3) != (ab % 10 > 3) else 1
    a = run(m, f, src, rec, ab, xdirect=xd)
    b = run(m, f, rec, src, swap_ab(ab), xdirect=xd)
    sc = parts_scale(m, f, src, rec, ab, run(m, f, src, rec, ab, xdirect=False), a)
    # for mixed pairs empymod computes one from the other; for equal types it is a real statement
    c.close(b, sg*a, 'reciprocity violated', rtol=rt(m), scale=sc, atol=1e-300)


@oracle(['C03', 'C07'], 100)
def reciprocity_fs(c):
    m, f, src, rec, ab = experiment(c, ns=1, nr=1, N=1)
    src, rec = [[float(np.squeeze(q)) for q in p] for p in (src, rec)]
    m.pop('depth')
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab)
    sg = -1 if (ab//10 > 3) != (ab % 10 > 3) else 1
    kw = dict(freqtime=f, verb=0, squeeze=False)
    a = np.asarray(empymod.analytical(src, rec, ab=ab, **kw, **m))
    b = np.asarray(empymod.analytical(rec, src, ab=swap_ab(ab), **kw, **m))
    c.close(b, sg*a, 'reciprocity violated (analytical full space)', rtol=1e-8, scale=np.abs(a), atol=1e-300)


@oracle(['C03'], 80)
def reciprocity_bipole(c):
    m, f, src, rec, ab = experiment(c, ns=1, nr=1)
    z = float(np.squeeze(src[2])), float(np.squeeze(rec[2]))
    s = [c.u(-10, 10), c.u(-10, 10), z[0], c.u(-180, 180), c.u(-90, 90)]
    r = [c.u(50, 300), c.u(-300, 300), z[1], c.u(-180, 180), c.u(-90, 90)]
    ms, mr = c.coin(), c.coin()
    xd = c.pick(False, True)
    c.note(model=m, freq=f, src=s, rec=r, msrc=ms, mrec=mr, xdirect=xd)
    kw = dict(freqtime=f, verb=0, squeeze=False, xdirect=xd, **DLF, **m)
    a = np.asarray(empymod.bipole(s, r, msrc=ms, mrec=mr, **kw))
    b = np.asarray(empymod.bipole(r, s, msrc=mr, mrec=ms, **kw))
    parts = 0
    for rr in range(3):
        for q in range(3):
            parts = parts+np.abs(run(m, f, s[:3], r[:3], (rr+1+3*mr)*10+q+1+3*ms, xdirect=xd) if ((rr+1+3*mr), (q+1+3*ms)) not in ((3, 6), (6, 3)) else 0)
    c.close(b, -a if ms != mr else a, 'reciprocity violated for arbitrarily oriented dipoles', rtol=rt(m), scale=parts, atol=1e-300)


@oracle(['C04'], 150)
def translation(c):
    m, f, src, rec, ab = experiment(c)
    t = [c.pick(0., np.round(c.u(-500, 500), 1)) for _ in range(2)] + [c.pick(0., np.round(c.u(-900, 900), 1))]
    xd = c.pick(False, True, None)
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab, shift=t, xdirect=xd)
    d0 = np.asarray(m['depth'])
    # a depth that sits on an interface has to stay on it after rounding
    mv = lambda p: [(np.asarray(q)+s).tolist() for q, s in zip(p, t)]
    m2 = dict(m, depth=d0+t[2])
    s2, r2 = mv(src), mv(rec)
    for p, q in ((src, s2), (rec, r2)):
        for k in range(d0.size):
            if d0[k] == p[2]:
                q[2] = float(m2['depth'][k])
        if layer(p[2], d0) != layer(q[2], m2['depth']):
            c.trivial = True
            return
    a = run(m, f, src, rec, ab, xdirect=xd)
    b = run(m2, f, s2, r2, ab, xdirect=xd)
    sc = parts_scale(m, f, src, rec, ab, a, run(m, f, src, rec, ab, xdirect=False))
    c.close(b, a, 'shifting the experiment changes the response', rtol=rt(m), scale=sc, atol=1e-300)


@oracle(['C04'], 150)
def mirror(c):
    """z -> -z: vertical electric and horizontal magnetic parts change sign"""
    m, f, src, rec, ab = experiment(c)
    d = np.asarray(m['depth'])
    for p in (src, rec):
        if p[2] in d:
            p[2] = float(p[2]+.013)
        if np.any(np.abs(d-p[2]) < 1e-6):
            c.trivial = True
            return
    xd = c.pick(False, True, None)
    m2 = {k: np.asarray(v)[::-1] for k, v in m.items()}
    m2['depth'] = -np.asarray(m['depth'])[::-1]
    if d.size > 1 and c.coin(.5):      # same thing listed upwards
        m2 = {k: np.asarray(v)[::-1] for k, v in m2.items()}
    s2, r2 = [*src[:2], -src[2]], [*rec[:2], -rec[2]]
    c.note(model=m, mirrored=m2, freq=f, src=src, rec=rec, ab=ab, xdirect=xd)
    sg = 1
    for q in (ab//10, ab % 10):
        sg *= -1 if q in (3, 4, 5) else 1
    a = run(m, f, src, rec, ab, xdirect=xd)
    b = run(m2, f, s2, r2, ab, xdirect=xd)
    sc = parts_scale(m, f, src, rec, ab, a, run(m, f, src, rec, ab, xdirect=False))
    c.close(b, sg*a, 'mirrored experiment', rtol=rt(m), scale=sc, atol=1e-300)


@oracle(['C04', 'C11'], 100)
def depth_order(c):
    """interfaces listed upwards, or with infinite bounds, give the same response"""
    from .o_utils import ways
    m, f, src, rec, ab = experiment(c)
    par = {k: v for k, v in m.items() if k != 'depth'}
    d, p, rev = ways(c, m['depth'], par)
    xd = c.pick(False, True, None)
    c.note(model=m, depth2=d, par2=p, freq=f, src=src, rec=rec, ab=ab, xdirect=xd)
    a = run(m, f, src, rec, ab, xdirect=xd)
    b = run(dict(p, depth=d), f, src, rec, ab, xdirect=xd)
    c.close(b, a, 'order in which the interfaces are listed changes the response', rtol=1e-12, scale=np.abs(a).max(), atol=1e-300)


@oracle(['C05'], 150)
def direct_secondary(c):
    m, f, src, rec, ab = experiment(c)
    if c.coin(.5):
        rec[2] = src[2] if c.coin(.3) else src[2]+c.u(-3, 3)
    ls, lr = layer(src[2], m['depth']), layer(rec[2], m['depth'])
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab)
    tot = run(m, f, src, rec, ab, xdirect=True)
    sec = run(m, f, src, rec, ab, xdirect=None)
    wav = run(m, f, src, rec, ab, xdirect=False)
    kw = {k: v for k, v in m.items() if k != 'depth'}
    if ls == lr:
        lay = {k: np.asarray(v)[ls] for k, v in kw.items()}
        d = np.asarray(empymod.analytical(src, rec, freqtime=f, ab=ab, verb=0, squeeze=False, **lay))
        sc = parts_scale(m, f, src, rec, ab, d, sec, tot)
        if m['res'].size > 1:
            c.close(tot, d+sec, 'total differs from direct plus secondary field', rtol=1e-9, scale=sc, atol=1e-300)
        else:
            c.close(tot, d, 'homogeneous total differs from the direct field', rtol=1e-9, scale=sc, atol=1e-300)
        # wavenumber domain: exactly the direct-field term
        eH, eV, zH, zV = [q[:, [ls]] for q in medium(m, f)]
        dw = assemble(src, rec, [], eH, eV, zH, zV, ab, f, xd=False)
        ss = sec if m['res'].size > 1 else 0*wav
        c.close(wav, ss+dw, 'wavenumber-domain direct field', rtol=rt(m), scale=parts_scale(m, f, src, rec, ab, wav, ss, dw), atol=1e-300)
    elif all(np.all(np.asarray(v) == np.asarray(v)[0]) for v in kw.values()):
        # identical layers: the direct field is the analytical solution of the whole space
        d = np.asarray(empymod.analytical(src, rec, freqtime=f, ab=ab, verb=0, squeeze=False, **{k: np.asarray(v)[0] for k, v in kw.items()}))
        c.close(tot, d, 'homogeneous total differs from the direct field', rtol=1e-9, scale=parts_scale(m, f, src, rec, ab, d), atol=1e-300)
    else:
        c.close(tot, wav, 'direct-field option matters although source and receiver are in different layers', rtol=1e-12, scale=np.abs(wav), atol=1e-300)
        c.close(sec, wav, 'direct-field option (None) matters although source and receiver are in different layers', rtol=1e-12, scale=np.abs(wav), atol=1e-300)


def orient(c, n, z, ms):
    return [[np.round(c.u(-40, 40), 1) for _ in range(n)], [np.round(c.u(-40, 40), 1) for _ in range(n)], z, c.pick(c.u(-180, 180), 0., 90.), c.pick(c.u(-90, 90), 0.)]


@oracle(['C06'], 120)
def independence_dipole(c):
    m, f, src, rec, ab = experiment(c, ns=c.i(1, 3), nr=c.i(2, 4))
    f = freqs(c, n=c.i(2, 4), laplace=.15)
    src = [np.atleast_1d(q) for q in src[:2]]+[src[2]]
    rec = [np.atleast_1d(q) for q in rec[:2]]+[rec[2]]
    if c.coin(.4):           # coinciding x/y, near-equal offsets
        rec[0] = np.full(rec[1].size, rec[0][0])
        rec[1] = rec[1]*0 + 100 + 20*np.arange(rec[1].size)
    if c.coin(.2):
        rec[0][0], rec[1][0] = src[0][0], src[1][0]
    xd = c.pick(False, True, None)
    lo = c.pick(None, 'off', 'freq')
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab, xdirect=xd, loop=lo)
    full = run(m, f, src, rec, ab, xdirect=xd, loop=lo)
    perm = lambda n: c.rng.permutation(n)
    sc = parts_scale(m, f, src, rec, ab, full)
    # any sub-selection in any order
    fi, si, ri = perm(f.size)[:c.i(1, f.size)], perm(src[0].size)[:c.i(1, src[0].size)], perm(rec[0].size)[:c.i(1, rec[0].size)]
    lo2 = c.pick(None, 'off', 'freq')
    part = run(m, f[fi], [src[0][si], src[1][si], src[2]], [rec[0][ri], rec[1][ri], rec[2]], ab, xdirect=xd, loop=lo2)
    c.close(part, full[np.ix_(fi, ri, si)], 'a subset of frequencies/receivers/sources differs (loop=%s against %s)' % (lo2, lo), rtol=1e-9, scale=np.abs(full[np.ix_(fi, ri, si)])+1e-6*sc[fi], atol=1e-300)


@oracle(['C06', 'C16', 'C15'], 100)
def independence_bipole(c):
    """several sources/receivers (equal and different depths) = one by one"""
    m = model(c)
    f = freqs(c)
    ns, nr = c.i(1, 3), c.i(1, 3)
    def thing(n, bip, samez):
        z = [zin(c, m['depth'])]*n if samez else [zin(c, m['depth']) for _ in range(n)]
        xy = [[np.round(c.u(-90, 90), 1) for _ in range(n)] for _ in range(2)]
        if bip:
            x2 = [[q+np.round(c.u(5, 40), 1) for q in p] for p in xy]
            z2 = z if c.coin(.5) else [q+np.round(c.u(0, 15), 1) for q in z]
            return [xy[0], x2[0], xy[1], x2[1], z, z2]
        ang = [[c.u(-180, 180) for _ in range(n)], [c.u(-80, 80) for _ in range(n)]] if c.coin(.5) else [c.u(-180, 180), c.u(-90, 90)]
        return [xy[0], xy[1], z[0] if samez and c.coin() else z, *ang]
    sb, rb = c.coin(.4), c.coin(.4)
    src, rec = thing(ns, sb, c.coin()), thing(nr, rb, c.coin())
    ms, mr = c.pick(False, True, 'b'), c.pick(False, True, 'b', 'j')
    st = c.pick(0, 1., 13.)
    kw = dict(freqtime=f, verb=0, squeeze=False, msrc=ms, mrec=mr, srcpts=c.pick(1, 3, 4), recpts=c.pick(1, 3), strength=st, xdirect=c.pick(False, True), **DLF, **m)
    c.note(src=src, rec=rec, **{k: v for k, v in kw.items() if k not in ('htarg',)})
    full = np.asarray(empymod.bipole(src, rec, **kw))
    c.ok(full.shape == (f.size, nr, ns), 'shape of the result', got=full.shape)
    one = lambda p, k, n: [np.broadcast_to(np.asarray(q, dtype=float), (n,))[k] for q in p]
    for i in range(ns):
        for j in range(nr):
            w = np.asarray(empymod.bipole(one(src, i, ns), one(rec, j, nr), **kw))
            c.close(full[:, j, i], w[:, 0, 0], 'source %d / receiver %d alone differs' % (i, j), rtol=1e-8, scale=np.abs(w[:, 0, 0])+1e-7*np.abs(full).max(axis=(1, 2)), atol=1e-300)


def cosines(azm, dip):
    return [angle_w(k, azm, dip) for k in range(3)]


@oracle(['C14', 'C09'], 120)
def nine(c):
    """arbitrary orientation = sum of the nine axis components"""
    m, f, _, _, _ = experiment(c)
    ang = lambda: (c.pick(c.u(-180, 180), float(90*c.i(-4, 4)), 45.), c.pick(c.u(-90, 90), float(90*c.i(-1, 1)), 0., 30.))
    (sa, sd), (ra, rd) = ang(), ang()
    s = [c.u(-10, 10), c.u(-10, 10), zin(c, m['depth']), sa, sd]
    r = [c.u(-200, 200), c.u(20, 200), zin(c, m['depth']), ra, rd]
    ms, mr = c.coin(), c.coin()
    xd = c.pick(False, True, None)
    c.note(model=m, freq=f, src=s, rec=r, msrc=ms, mrec=mr, xdirect=xd)
    got = np.asarray(empymod.bipole(s, r, freqtime=f, msrc=ms, mrec=mr, verb=0, squeeze=False, xdirect=xd, **DLF, **m))
    want, sc = 0, 0
    for i, wr in enumerate(cosines(ra, rd)):
        for j, ws in enumerate(cosines(sa, sd)):
            ab = (i+1+3*mr)*10+j+1+3*ms
            if ab in (36, 63):
                continue
            x = run(m, f, s[:3], r[:3], ab, xdirect=xd)
            want, sc = want+x*wr*ws, sc+np.abs(x)*(abs(wr*ws)+1e-6)
    c.close(got, np.zeros_like(got)+want, 'arbitrary orientation differs from the sum of the nine axis components', rtol=1e-6, scale=sc+1e-3*np.abs(want).max(), atol=1e-300)


@oracle(['C14', 'C15', 'C17'], 120)
def finite_bipole(c):
    """finite bipoles = weighted dipoles on the segment"""
    m, f, _, _, _ = experiment(c)
    def seg(lo):
        a = [c.u(lo, lo+100), c.u(-50, 50), zin(c, m['depth'])]
        kind = c.pick('h', 'v', 'g', 'x')
        if c.coin(.25) and m['depth'].size:     # across an interface
            a[2] = float(c.pick(*m['depth']))-c.u(1, 20)
            kind = c.pick('v', 'g')
        d = dict(h=[c.u(-40, 40), c.u(3, 40), 0], v=[0, 0, c.u(1, 40)], g=[c.u(-40, 40), c.u(-40, 40), c.u(-40, 40)], x=[c.u(5, 50), 0, 0])[kind]
        return np.array(a), np.array(a)+d
    (s0, s1), (r0, r1) = seg(-50), seg(150)
    fl = lambda a, b: [a[0], b[0], a[1], b[1], a[2], b[2]]
    ms, mr = c.pick(False, True, False, True, 'b'), c.pick(False, True, False, True, 'b', 'j')
    sp, rp = c.pick(1, 2, 3, 5), c.pick(1, 3, 4)
    sfin, rfin = c.pick((True, True), (True, False), (False, True))
    st = c.pick(0, 0, 1., c.lu(.1, 100))
    xd = c.pick(False, True, None)
    dp = lambda a: [*a, c.u(-180, 180), c.u(-90, 90)]
    src, rec = fl(s0, s1) if sfin else dp(s0), fl(r0, r1) if rfin else dp(r0)
    c.note(model=m, freq=f, src=src, rec=rec, msrc=ms, mrec=mr, srcpts=sp, recpts=rp, strength=st, xdirect=xd)
    got = np.asarray(empymod.bipole(src, rec, freqtime=f, msrc=ms, mrec=mr, srcpts=sp, recpts=rp, strength=st, verb=0, squeeze=False, xdirect=xd, **DLF, **m))
    def pts(a, b, fin, n, x):
        if not fin:
            return [(np.array(x[:3]), 1., x[3], x[4])], 1.
        L = np.linalg.norm(b-a)
        u = (b-a)/L
        azm, dip = np.rad2deg(np.arctan2(u[1], u[0])), np.rad2deg(np.arcsin(u[2]))
        if n < 3:
            return [((a+b)/2, 1., azm, dip)], L
        g, w = np.polynomial.legendre.leggauss(n)
        return [((a+b)/2+(b-a)/2*q, v/2, azm, dip) for q, v in zip(g, w)], L
    S, LS = pts(s0, s1, sfin, sp, src)
    R, LR = pts(r0, r1, rfin, rp, rec)
    # rounding of the integration points onto a layer boundary would be a measure-zero difference
    want, sc = 0, 0
    d = np.asarray(m['depth'])
    for p, w, a, b in S+R:
        if np.any(np.abs(d-p[2]) < 1e-2) and not any(np.any(d == q) for q in (s0[2], r0[2])):
            c.trivial = True
            return
    rng = np.random.default_rng(5)
    def total(jit=0.):
        want, sc = 0, 0
        for p, w, a, b in S:
            for q, v, e, g in R:
                p2, q2 = p+jit*rng.uniform(-1, 1, 3)*sfin, q+jit*rng.uniform(-1, 1, 3)*rfin
                x = np.asarray(empymod.bipole([*p2, a, b], [*q2, e, g], freqtime=f, msrc=ms, mrec=mr, verb=0, squeeze=False, xdirect=xd, **DLF, **m))*w*v
                want, sc = want+x, sc+np.abs(x)
        return (want*st*LS*LR, sc*st*LS*LR) if st > 0 else (want, sc)
    want, sc = total()
    tol = 1e-4*(sc+.1*np.abs(want).max())
    if not np.all(np.abs(got-want) <= tol):      # the code rounds the integration points to millimetres
        tol = tol+3*np.max([np.abs(total(6e-4)[0]-want) for _ in range(6)], axis=0)
    c.close(got, want, 'finite bipole differs from the weighted sum of dipoles along it', rtol=1, scale=tol, atol=1e-300)


@oracle(['C16', 'C06'], 60)
def layout_time(c):
    """time domain: entry [t, r, s]; squeeze only drops axes of length one"""
    m, _, src, rec, ab = experiment(c, ns=c.i(1, 3), nr=c.i(1, 3), air=False)
    t = np.array([c.lu(1e-3, 1e2) for _ in range(c.i(1, 4))])
    kw = dict(signal=c.pick(0, 1, -1), ft='dlf', ftarg={'dlf': TINYF, 'pts_per_dec': 0, 'kind': c.pick('sin', 'cos')} if False else {'dlf': TINYF, 'pts_per_dec': 0})
    c.note(model=m, time=t, src=src, rec=rec, ab=ab, **{k: v for k, v in kw.items() if k != 'ftarg'})
    full = run(m, t, src, rec, ab, **kw)
    ns, nr = np.size(src[0]), np.size(rec[0])
    c.ok(full.shape == (t.size, nr, ns), 'shape of the result', got=full.shape)
    sq = np.asarray(empymod.dipole(src, rec, freqtime=t, ab=ab, verb=0, **kw, **DLF, **m))
    c.ok(sq.shape == np.squeeze(full).shape and np.array_equal(sq, np.squeeze(full)), 'squeezing does more than dropping axes of length one')
    at = lambda p, k: [np.atleast_1d(p[0])[k], np.atleast_1d(p[1])[k], p[2]]
    i, j, k = c.i(0, ns-1), c.i(0, nr-1), c.i(0, t.size-1)
    one = run(m, t[k], at(src, i), at(rec, j), ab, **kw)
    c.close(one[0, 0, 0], full[k, j, i], 'entry [time, receiver, source]', rtol=1e-8, scale=np.abs(full).max())


@oracle(['C16'], 40)
def layout_gpr(c):
    """radar: same arrangement as the response of each source and receiver on its own; first axis dropped only if of length one"""
    m, _, src, rec, ab = experiment(c, ns=c.i(1, 3), nr=c.i(1, 3), air=False)
    t = np.array([c.lu(1e-2, 1) for _ in range(c.i(1, 3))])
    kw = dict(ab=ab, cf=c.lu(.5, 5), gain=c.pick(None, 0, 1.5), ft='fft', ftarg={'dfreq': .3, 'nfreq': c.pick(8, 16), 'ntot': c.pick(0, 32), 'pts_per_dec': None}, verb=0)
    if kw['ftarg']['ntot'] == 0:
        del kw['ftarg']['ntot']
    c.note(model=m, time=t, src=src, rec=rec, **kw)
    full = np.asarray(empymod.gpr(src, rec, freqtime=t, **kw, **DLF, **m))
    ns, nr = np.size(src[0]), np.size(rec[0])
    want = tuple(k for k in (t.size, nr, ns) if k != 1)
    c.ok(full.shape == want, 'shape of the result', got=full.shape, want=want)
    full = full.reshape(t.size, nr, ns)
    at = lambda p, k: [np.atleast_1d(p[0])[k], np.atleast_1d(p[1])[k], p[2]]
    i, j = c.i(0, ns-1), c.i(0, nr-1)
    one = np.asarray(empymod.gpr(at(src, i), at(rec, j), freqtime=t, **kw, **DLF, **m)).reshape(-1)
    c.close(one, full[:, j, i], 'entry [time, receiver, source] of the radar response', rtol=1e-8, scale=np.abs(full).max())


@oracle(['C17'], 120)
def flux_current(c):
    m, f, _, _, _ = experiment(c)
    f = freqs(c, n=c.i(1, 4))
    def thing(lo):
        if c.coin(.3):
            a = [c.u(lo, lo+20), c.u(-20, 20), zin(c, m['depth'])]
            return [a[0], a[0]+c.u(5, 30), a[1], a[1]+c.u(5, 30), a[2], a[2]+c.pick(0, c.u(1, 9))]
        return [c.u(lo, lo+20), c.u(-20, 20), zin(c, m['depth']), c.u(-180, 180), c.u(-90, 90)]
    s, r = thing(-20), thing(60)
    eH, eV, zH, zV = medium(m, f)
    zmid = lambda p: p[2] if len(p) == 5 else (p[4]+p[5])/2
    d = np.asarray(m['depth'])
    kw = dict(freqtime=f, verb=0, squeeze=False, xdirect=c.pick(False, True, None), strength=c.pick(0, 2.), **DLF, **m)
    ms, mr = c.pick(False, True, 'b'), c.pick(False, True, 'b', 'j')
    c.note(model=m, freq=f, src=s, rec=r, msrc=ms, mrec=mr)
    for p in (s, r):
        if len(p) == 6 and np.any(np.abs(d-zmid(p)) < 1e-2):
            c.trivial = True
            return
    base = np.asarray(empymod.bipole(s, r, msrc=bool(ms), mrec=mr in (True, 'b'), **kw))
    got = np.asarray(empymod.bipole(s, r, msrc=ms, mrec=mr, **kw))
    fac = np.ones(f.size)
    if ms == 'b':
        fac = fac*zH[:, layer(zmid(s), d)]
    if mr == 'b':
        fac = fac*zH[:, layer(zmid(r), d)]
    if mr == 'j':
        fac = fac*eH[:, layer(zmid(r), d)]
    c.close(got, base*fac[:, None, None], 'flux / current scaling (msrc=%s, mrec=%s)' % (ms, mr), rtol=1e-9, atol=1e-300)
    if ms == 'b':
        k2 = {k: v for k, v in kw.items()}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for mrec in (mr,):
                lp = np.asarray(empymod.loop(s, r, mrec=mrec, **k2))
        c.close(lp, got, 'deprecated loop routine', rtol=1e-12, atol=1e-300)


@oracle(['C17'], 25)
def loop_default(c):
    m, f, _, _, _ = experiment(c)
    s = [c.u(-20, 20), c.u(-20, 20), zin(c, m['depth']), c.u(-180, 180), c.u(-90, 90)]
    r = [c.u(60, 80), c.u(-20, 20), zin(c, m['depth']), c.u(-180, 180), c.u(-90, 90)]
    st = c.pick(0, 3.)
    rp = c.pick(1, 3)
    c.note(model=m, freq=f, src=s, rec=r)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = np.asarray(empymod.loop(s, r, freqtime=f, strength=st, recpts=rp, verb=0, squeeze=False, **DLF, **m))
    b = np.asarray(empymod.bipole(s, r, freqtime=f, msrc='b', mrec=True, strength=st, recpts=rp, verb=0, squeeze=False, **DLF, **m))
    c.close(a, b, 'deprecated loop routine (default receiver)', rtol=1e-12, atol=1e-300)


@oracle(['C22'], 180)
def dipole_k(c):
    """dipole_k transformed with Bessel functions (short filter) = dipole"""
    ab = NZ[c.index % len(NZ)]
    ns, nr = c.pick((1, 1), (1, 1), (1, 2), (2, 1))
    m, f, src, rec, ab = experiment(c, ns=ns, nr=nr, ab=ab)
    if c.coin(.2):
        src, rec = [[q if np.ndim(q) == 0 else q for q in p] for p in (src, rec)]
    n = ns*nr
    got = run(m, f, src, rec, ab, xdirect=False)
    x = np.repeat(np.atleast_1d(src[0]), nr)
    y = np.repeat(np.atleast_1d(src[1]), nr)
    off = np.maximum(np.hypot(np.tile(np.atleast_1d(rec[0]), ns)-x, np.tile(np.atleast_1d(rec[1]), ns)-y), 1e-3)
    two = c.coin(.5) and n == 1
    order = c.rng.permutation(TINY.base.size) if c.coin(.6) else np.arange(TINY.base.size)
    if c.coin(.1):
        order = np.r_[order, order[:2]]
    aa = c.pick(ab, str(ab), float(ab)) if c.coin(.2) else ab
    c.note(model=m, freq=f, src=src, rec=rec, ab=aa)
    tot = np.zeros((f.size, n), dtype=got.dtype)
    for q in range(n):
        lam = TINY.base/off[q]
        lk = lam[order]
        P0, P1 = empymod.dipole_k(src, rec, freq=f, wavenumber=lk[None, :] if two else lk, ab=aa, verb=0, **m)
        P0, P1 = [np.asarray(p).reshape(f.size, n, lk.size)[:, q] for p in (P0, P1)]
        back = [int(np.where(order == k)[0][-1]) for k in range(lam.size)]
        P0, P1 = P0[:, back], P1[:, back]
        tot[:, q] = ((P0*TINY.j0).sum(-1)+(P1*TINY.j1).sum(-1))/off[q]
    got = got.reshape((f.size, -1), order='F')
    c.close(tot, got, 'dipole_k transformed differs from dipole', rtol=1e-7, scale=np.abs(got).max(axis=1, keepdims=True), atol=1e-300)


@oracle(['C26'], 80)
def ipq(c):
    ab = c.pick(44, 45, 46, 54, 55, 56, 64, 65, 66)
    m, f, src, rec, ab = experiment(c, ns=c.i(1, 2), nr=c.i(1, 2), ab=ab)
    f = np.abs(f) if c.coin(.9) else f
    z = -c.u(1, 60) if m['depth'].size == 0 else m['depth'][0]-c.u(1, 60)
    src[2] = z
    rec[2] = z if c.coin(.7) else z+c.u(-.9, .9)
    scale = c.pick(None, 1e3, 1., 7.5)
    p = dict(m)
    if p['res'].size == 1 and c.coin():
        p = {k: (float(v[0]) if k != 'depth' else v) for k, v in p.items()}
    kw = dict(src=src, rec=rec, freqtime=f, ab=ab, verb=c.pick(0, 0, 1), squeeze=False, **DLF, **p)
    if scale is not None:
        kw['scale'] = scale
    if c.coin(.4):
        kw['xdirect'] = c.pick(True, False, None)
    keep = snapshot({k: v for k, v in kw.items() if k != 'htarg'})
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab, scale=scale, xdirect=kw.get('xdirect', 'not given'))
    (I, Q), txt = out(empymod.ip_and_q, **kw)
    c.ok(same(keep, {k: v for k, v in kw.items() if k != 'htarg'}), 'ip_and_q modifies its input')
    sec = run(m, f, src, rec, ab, xdirect=None)
    top = {k: np.asarray(v)[0] for k, v in m.items() if k != 'depth'}
    pri = np.asarray(empymod.analytical(src, rec, freqtime=f, ab={4: 44, 5: 55, 6: 66}[ab % 10], verb=0, squeeze=False, **top))
    want = (scale or 1e3)*sec/pri
    s = np.abs(want)
    c.close(I, want.real, 'in-phase', rtol=1e-8, scale=s, atol=1e-300)
    c.close(Q, want.imag, 'quadrature', rtol=1e-8, scale=s, atol=1e-300)


@oracle(['C26', 'C24'], 30)
def ipq_refused(c):
    base = dict(src=[0, 0, -1], rec=[10, 0, -1], depth=[0], res=[2e14, 10], freqtime=[100.], ab=66, verb=0)
    if c.coin(.5):
        ab = c.pick(*[a for a in VALID if a not in (44, 45, 46, 54, 55, 56, 64, 65, 66)])
        c.note(ab=ab)
        refused(c, empymod.ip_and_q, **dict(base, ab=ab), what='ip_and_q with ab=%s' % ab)
    else:
        s = c.pick(0, 1, -1)
        c.note(signal=s)
        refused(c, empymod.ip_and_q, **dict(base, signal=s), what='ip_and_q in the time domain')


def verbose(c, f, kw):
    (r, t) = out(f, **kw)
    return r, t


@oracle(['C23'], 120)
def purity(c):
    """arguments untouched, history and verbosity do not matter"""
    m, f, src, rec, ab = experiment(c)
    which = c.pick('dipole', 'bipole', 'analytical', 'dipole_k', 'time', 'gpr', 'halfspace', 'lists', 'hooks', 'wave')
    kw = dict(src=src, rec=rec, freqtime=f, ab=ab, **m)
    fun = empymod.dipole
    ht = c.pick(dict(ht='dlf', htarg={'dlf': TINY, 'pts_per_dec': c.pick(0, -1, 5)}), dict(ht='dlf', htarg={'dlf': 'key_101_2009'}), {}, dict(ht='qwe', htarg={'maxint': 5, 'nquad': 9}))
    if which in ('dipole', 'lists', 'bipole', 'hooks'):
        kw.update(ht)
    if which == 'lists':
        kw = {k: (np.asarray(v).tolist() if k in m or k == 'freqtime' else v) for k, v in kw.items()}
    elif which == 'bipole':
        fun = empymod.bipole
        kw.pop('ab')
        kw.update(src=[*np.atleast_1d(src[0])[:1], *np.atleast_1d(src[1])[:1], src[2], c.u(0, 90), c.u(0, 90)], rec=[10., 40., 10., 40., rec[2], rec[2]+c.pick(0, 3.)], recpts=3, msrc=c.pick(False, True, 'b'), mrec=c.pick(False, 'j', 'b'), strength=c.pick(0, 2.))
    elif which == 'analytical':
        fun = empymod.analytical
        kw.pop('depth')
        kw = {k: (np.asarray(v)[:1] if k in m else v) for k, v in kw.items()}
    elif which == 'halfspace':
        fun = empymod.analytical
        kw = dict(src=[0, 0, 1.], rec=[[c.u(10, 90)], [c.u(0, 90)], 2.], res=c.lu(.1, 90), aniso=c.u(1, 2), ab=c.pick(11, 12, 13, 22, 33), solution=c.pick('dhs', 'dfs', 'dsplit', 'dtetm'), freqtime=np.array([c.lu(.1, 9), 3.]), signal=c.pick(0, 1, -1, None))
    elif which == 'dipole_k':
        fun = empymod.dipole_k
        kw['freq'] = kw.pop('freqtime')
        kw['wavenumber'] = np.array([c.lu(1e-4, 1) for _ in range(3)])
    elif which == 'time':
        kw.update(freqtime=np.array([c.lu(.01, 10) for _ in range(2)]), signal=c.pick(0, 1, -1), ft=c.pick('dlf', 'qwe', 'fftlog', 'fft'), ftarg={}, **DLF)
        if kw['ft'] == 'fft':
            kw['ftarg'] = {'nfreq': 32, 'dfreq': .1}
    elif which == 'wave':
        kw.update(freqtime=np.array([.5, 1., 2.3]), signal={'nodes': [-1., -.5, 0., .1], 'amplitudes': [0., 1., 1., 0.], 'signal': c.pick(0, 1)} if c.coin() else {'nodes': np.array([-1., -.5, 0., .1]), 'amplitudes': np.array([0., 1., 1., 0.])}, ft='dlf', ftarg={'dlf': TINYF, 'pts_per_dec': 0}, **DLF)
    elif which == 'hooks':
        kw['res'] = {'res': kw['res'], 'extra': np.ones(np.size(m['res'])), 'func_eta': hook_eta}
    elif which == 'gpr':
        fun = empymod.gpr
        kw = dict(src=[0, 0, .1], rec=[c.u(1, 5), 0, .1], depth=[0.], res=[2e14, 200.], freqtime=np.array([10e-9, 20e-9]), cf=250e6, gain=c.pick(0, 2), ab=c.pick(11, 12), epermH=[1, 9.], epermV=[1, 9.], ht='dlf', htarg={'dlf': TINY}, ft='fft', ftarg={'dfreq': 2e7, 'nfreq': 32, 'ntot': 64})
    skip = ('func_eta',)
    strip = lambda k: {a: ({x: y for x, y in b.items() if x not in skip} if isinstance(b, dict) else b) for a, b in k.items() if a != 'htarg'} | {'htarg': {x: y for x, y in k.get('htarg', {}).items() if x != 'dlf'}}
    keep = snapshot(strip(kw))
    fbase = snapshot((TINY.base, TINY.j0, TINY.j1, TINYF.base, TINYF.sin))
    c.note(routine=fun.__name__, kind=which, **strip(kw))
    r0, _ = out(fun, verb=0, **kw)
    r0 = snapshot(r0)
    c.ok(same(keep, strip(kw)), 'arguments are modified by '+fun.__name__, after=strip(kw))
    v = c.pick(1, 2, 3, 4)
    # unrelated calls in between
    with silent():
        empymod.dipole([0, 0, 1], [9, 1, 2], [0.], [1, 2.], 1., verb=c.pick(0, 3), ht='dlf', htarg={'dlf': TINY, 'pts_per_dec': c.pick(0, 7, -1)})
        empymod.analytical([0, 0, 1], [9, 1, 2], 2., .3, verb=0)
        try:
            empymod.dipole([0, 0, 1], [9, 1, 2], [0.], [1, 2.], 1., ab=77, verb=0)
        except ValueError:
            pass
    r1, txt = out(fun, verb=v, **kw)
    c.ok(same(np.asarray(r0) if not isinstance(r0, tuple) else tuple(map(np.asarray, r0)), np.asarray(r1) if not isinstance(r1, tuple) else tuple(map(np.asarray, r1))), 'verbosity or history changes the result of '+fun.__name__)
    c.ok(same(keep, strip(kw)), 'arguments are modified by %s at verb=%d' % (fun.__name__, v))
    c.ok(same(fbase, (TINY.base, TINY.j0, TINY.j1, TINYF.base, TINYF.sin)), 'filter modified')


def hook_eta(inp, p):
    return p['etaH']*(1+inp['extra']), p['etaV']


@oracle(['C23'], 60)
def purity_lowlevel(c):
    """array arguments of the kernel and transform routines stay untouched"""
    from .o_kernel import setup, flags
    depth, eH, eV, zH, zV, ls, zs, lr, zr, lam = setup(c)
    ab = c.pick(*K.AB_CALC)
    ms, mr = flags(c, ab)
    xd = c.coin()
    off = np.array([c.u(10, 200) for _ in range(lam.shape[0])])
    ang = np.array([c.u(-3, 3) for _ in range(off.size)])
    fac = kernel.angle_factor(ang, ab, ms, mr)
    which = c.pick('wavenumber', 'fullspace', 'hankel_dlf', 'fourier_dlf', 'angle', 'fem', 'greenfct', 'fourier_fftlog', 'fourier_qwe')
    arrays = dict(depth=depth, eH=eH, eV=eV, zH=zH, zV=zV, lam=lam, off=off, ang=ang, fac=fac)
    ppd = c.pick(0, -1, 3)
    if ppd:         # the lagged and splined variants take one frequency at a time (check_loop sees to that)
        eH, eV, zH, zV = [np.array(q[:1]) for q in (eH, eV, zH, zV)]
        arrays.update(eH=eH, eV=eV, zH=zH, zV=zV)
    htarg = dict(dlf=TINY, pts_per_dec=ppd)
    fr = np.array([1., 10., 3.])
    fEM = c.rng.normal(size=3)+1j*c.rng.normal(size=3)
    t = np.array([.1, .4])
    ft = fr_ = None
    c.note(function=which, ab=ab, msrc=ms, mrec=mr, xdirect=xd, pts_per_dec=ppd)
    if which.startswith('fourier'):
        name = which[8:]
        sig = c.pick(0, 1, -1)
        # sine / cosine are both legitimate
        from empymod.utils import check_time
        arg = {'dlf': {'dlf': TINYF, 'pts_per_dec': ppd}, 'fftlog': {}, 'qwe': {}}[name]
        with silent():
            _, fr_, ft, ftarg, _ = check_time(t, sig, name, arg, 0, new=True) if True else None
        fEM = c.rng.normal(size=fr_.size)+1j*c.rng.normal(size=fr_.size)
        arrays.update(fEM=fEM, t=t, f=fr_)
        c.note(signal=sig)
    keep = snapshot(arrays)
    def go():
        if which == 'wavenumber':
            return kernel.wavenumber(zs, zr, ls, lr, depth, eH, eV, zH, zV, lam, ab, xd, ms, mr)
        if which == 'greenfct':
            return kernel.greenfct(zs, zr, ls, lr, depth, eH, eV, zH, zV, lam, ab, xd, ms, mr)
        if which == 'fullspace':
            return kernel.fullspace(off, ang, zs, zr, eH[:, lr], eV[:, lr], zH[:, lr], zV[:, lr], ab, ms, mr)
        if which == 'angle':
            return kernel.angle_factor(ang, ab, ms, mr)
        if which == 'hankel_dlf':
            return transform.hankel_dlf(zs, zr, ls, lr, off, fac, depth, ab, eH, eV, zH, zV, xd, htarg, ms, mr)
        if which == 'fem':
            return emodel.fem(ab, off, ang, zs, zr, ls, lr, depth, fr[:eH.shape[0]], eH, eV, zH, zV, xd, False, 'dlf', htarg, ms, mr, ppd != 0 or c.index % 2 == 0, False)
        with silent():
            return getattr(transform, which)(fEM, t, fr_, ftarg)
    a = snapshot(go())
    c.ok(same(keep, arrays), 'arguments are modified by '+which)
    c.ok(same(a, go()), 'second call of %s gives another result' % which)


def sample_minima(c, v, mn):
    """some entries below the minimum"""
    v = np.array(v, dtype=float)
    for k in range(v.size):
        if c.coin(.4):
            v.flat[k] = mn*c.pick(0., .1, .999, 1.)
    return v


@oracle(['C23'], 150)
def purity_utils(c):
    """array arguments of the checking routines stay untouched, also when entries are clamped, squeezed, reversed or completed"""
    n = c.i(1, 4)
    which = c.pick('model', 'freq', 'time', 'offang', 'dipole', 'bipole', 'wave', 'hankel', 'azmdip', 'abs', 'geo', 'public', 'layer')
    mn = utils.get_minimum()
    V = lambda k=n, lo=.1, hi=9.: np.array([c.u(lo, hi) for _ in range(k)])
    kw = {}
    if which == 'model':
        res, ani, eh, ev, mh, mv = [sample_minima(c, V(), mn['min_res']) if c.coin(.6) else V() for _ in range(6)]
        d = np.sort(V(n-1))
        if c.coin(.4):
            d = np.r_[-np.inf, d] if c.coin() else np.r_[d, np.inf]
        if c.coin(.5):
            d = d[::-1].copy()
        if c.coin(.3):
            res = {'res': res, 'x': V()}
        a = [d, res, ani, eh, ev, mh, mv, c.pick(True, False, None)]
        f = lambda v: utils.check_model(*a, v)
    elif which == 'freq':
        fr = sample_minima(c, V(c.i(1, 4)), mn['min_freq'])
        if not np.any(fr > 0):
            fr[0] = 1.
        if c.coin(.3):
            fr = -np.abs(fr)
        a = [fr, V(), V(), V(), V(), V(), V()]
        f = lambda v: utils.check_frequency(*a, v)
    elif which == 'time':
        t = sample_minima(c, V(c.i(1, 4)), mn['min_time'])
        sig = c.pick(0, 1, -1, 'w')
        if sig == 'w':
            sig = {'nodes': np.array([-2., -1, -.5]), 'amplitudes': np.array([0., 1, 1]), 'signal': c.pick(0, 1)}
            t = np.abs(t)+.1
        a = [t, sig, c.pick('dlf', 'qwe', 'fftlog', 'fft'), {}]
        f = lambda v: utils.check_time(*a, v, True)
    elif which == 'offang':
        ns, nr = c.i(1, 3), c.i(1, 3)
        s, r = [V(ns), V(ns), V(1)], [V(nr), V(nr), V(1)]
        if c.coin(.5):
            r[0][0], r[1][0] = s[0][0], s[1][0]
        a = [s, r, ns, nr]
        f = lambda v: utils.get_off_ang(*a, v)
    elif which == 'dipole':
        a = [[V(), V(), c.pick(V(1), 3., [2.])], 'src']
        f = lambda v: utils.check_dipole(*a, v)
    elif which in ('bipole', 'azmdip'):
        fin = c.coin()
        p = [V(), V(), V(), V(), c.pick(V(), V(1)), V()] if fin else [V(), V(), c.pick(V(), V(1)), V(), V()]
        if fin and np.size(p[4]) != np.size(p[5]):
            p[5] = V(np.size(p[4]))
        if c.coin(.3):
            p = [q.tolist() for q in p]
        a = [p, c.pick('src', 'rec'), c.coin()]
        f = lambda v: utils.check_bipole(*a, v)
        if which == 'azmdip':
            with silent():
                o, _, nz, dp, _, _ = utils.check_bipole(*a, 0)
            a = [o, c.i(0, nz-1), nz, c.pick(1, 3, 4), dp, c.pick(0, 1., 7.), c.pick('src', 'rec')]
            f = lambda v: utils.get_azm_dip(*a, v)
    elif which == 'wave':
        a = [V(3, 9.1, 30), np.cumsum(V(3)), V(3), c.pick(0, 1, -1), 3]
        f = lambda v: [q for q in utils.check_waveform(a[0], nodes=a[1], amplitudes=a[2], signal=a[3], nquad=a[4], verb=v)][:1]
    elif which == 'hankel':
        a = [c.pick('dlf', 'qwe', 'quad'), {}]
        a[1] = c.pick({}, {'pts_per_dec': 10}, {'dlf': 'key_101_2009', 'pts_per_dec': -1} if a[0] == 'dlf' else {'rtol': 1e-5})
        f = lambda v: [utils.check_hankel(*a, v)[0]]
    elif which == 'abs':
        a = [c.coin(), c.coin(), V(), V(), V(), V()]
        f = lambda v: utils.get_abs(*a, v)
    elif which == 'geo':
        ms, mr = c.coin(), c.coin()
        a = [int(utils.check_ab((c.i(1, 3)+3*mr)*10+c.i(1, 3)+3*ms, 0)[0]), V(), V(), V(), V(), ms, mr]
        f = lambda v: utils.get_geo_fact(*a)
    elif which == 'layer':
        a = [[V(), V(), c.pick(V(), V(1))], np.r_[-np.inf, np.sort(V(3))]]
        f = lambda v: utils.get_layer_nr(*a)
    else:
        # public routines with values that are clamped
        m = model(c)
        for k in m:
            if k != 'depth' and c.coin(.5):
                m[k] = sample_minima(c, m[k], mn['min_res']) if k in ('res', 'aniso') else m[k]
        fr = sample_minima(c, V(c.i(1, 3)), mn['min_freq'])
        if not np.any(fr > 0):
            fr[0] = 1.
        a = [m, fr, [V(1), V(1), 3.], [V(2), V(2), 4.]]
        if c.coin(.5):
            a[3][0][0], a[3][1][0] = a[2][0][0], a[2][1][0]
        k = c.pick('f', 't', 'k', 'b')
        t = sample_minima(c, V(c.i(1, 3)), mn['min_time'])
        a.append(t)
        f = {'f': lambda v: empymod.dipole(a[2], a[3], freqtime=a[1], verb=v, **DLF, **a[0]),
             't': lambda v: empymod.dipole(a[2], a[3], freqtime=a[4], signal=0, ftarg={'dlf': TINYF, 'pts_per_dec': 0}, verb=v, **DLF, **a[0]),
             'k': lambda v: empymod.dipole_k(a[2], a[3], freq=a[1], wavenumber=a[4]+1e-3, verb=v, **a[0]),
             'b': lambda v: empymod.bipole([*a[2], 3., 4.], [*a[3], 5., 6.], freqtime=a[1], verb=v, **DLF, **a[0])}[k]
    keep = snapshot(a)
    c.note(function=which, arguments=a)
    r0, _ = out(f, 0)
    r0 = snapshot(r0)
    c.ok(same(keep, a), 'arguments are modified (%s)' % which, after=a)
    r1, _ = out(f, c.pick(1, 2, 3, 4))
    c.ok(same(keep, a), 'arguments are modified at higher verbosity (%s)' % which, after=a)
    strip = lambda r: [q for q in r if not (isinstance(q, (dict,)) or callable(q))] if isinstance(r, (tuple, list)) else r
    c.ok(same(strip(r0), strip(r1)), 'verbosity changes the result (%s)' % which)


@oracle(['C16', 'C06', 'C12'], 60)
def near_depths(c):
    """sources / receivers at depths that differ by very little, far from the origin"""
    N = c.i(2, 4)
    z0 = float(c.pick(0., 0., np.round(c.u(-3000, 3000)), np.round(c.lu(1e3, 1e5))))
    m = model(c, N=N, air=False)
    m['depth'] = np.round(z0+np.r_[0, np.cumsum([c.u(1, 60) for _ in range(N-2)])], 3)
    nr = c.i(2, 4)
    d = float(c.pick(*m['depth']))
    step = c.pick(1e-3, 2e-3, .01, .1, 1.)
    rz = [float(np.round(d+step*c.i(-2, 2), 3)) for _ in range(nr)]
    sz = [float(np.round(d+c.u(-20, 20), 3)) for _ in range(c.i(1, 2))]
    if len(sz) == 2 and c.coin():
        sz[1] = float(np.round(sz[0]+step, 3))
    rec = [[c.u(5, 60) for _ in rz], [c.u(5, 60) for _ in rz], rz, c.u(-90, 90), c.u(-80, 80)]
    src = [[c.u(-5, 5) for _ in sz], [c.u(-5, 5) for _ in sz], sz, c.u(-90, 90), c.u(-80, 80)]
    f = freqs(c, n=1)
    kw = dict(freqtime=f, verb=0, squeeze=False, xdirect=c.pick(False, True), msrc=c.coin(), mrec=c.pick(False, True, 'j', 'b'), **DLF, **m)
    c.note(src=src, rec=rec, **{k: v for k, v in kw.items() if k != 'htarg'})
    full = np.asarray(empymod.bipole(src, rec, **kw))
    at = lambda p, k: [p[0][k], p[1][k], p[2][k], p[3], p[4]]
    for i in range(len(sz)):
        for j in range(nr):
            w = np.asarray(empymod.bipole(at(src, i), at(rec, j), **kw))
            c.close(full[:, j, i], w[:, 0, 0], 'source %d / receiver %d alone differs' % (i, j), rtol=1e-9, scale=np.abs(w[:, 0, 0])+1e-9*np.abs(full).max(axis=(1, 2)), atol=1e-300)


@oracle(['C23'], 40)
def purity_options(c):
    """dictionaries with options stay untouched"""
    o = dict(a=1e-3, b=c.u(1, 3), epsabs=1e-7, epsrel=1e-7, limit=c.i(3, 50))
    f = lambda x: .3+0*np.asarray(x)
    use = [c.coin() for _ in range(3)]
    d = dict(o)
    names = ['verb']+[k for k in ('ht', 'htarg', 'signal', 'squeeze', 'depth') if c.coin(.6)]
    kw = {k: c.pick(0, 1, {'a': 2}) for k in ('verb', 'ht', 'htarg', 'signal', 'squeeze', 'depth', 'loop') if c.coin(.5)}
    if 'verb' in kw:
        kw['verb'] = c.pick(0, 1, 3)
    k0 = snapshot(kw)
    c.note(used=use, options=o, names=names, kwargs=k0)
    a = [g for u in use for g in ((f, f) if u else (None, None))]
    r = [transform.quad(*a, c.pick(11, 33), .3, .4, d) for _ in range(2)]
    c.ok(d == o, 'transform.quad modifies the options it is given', after=d)
    with silent():
        one = utils.get_kwargs(names, [2]*len(names), kw)
        two = utils.get_kwargs(names, [2]*len(names), kw)
    c.ok(same(kw, k0), 'get_kwargs modifies the dictionary it is given', after=kw)
    c.ok(same(one, two), 'get_kwargs twice with the same dictionary')
