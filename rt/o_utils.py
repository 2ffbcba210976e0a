"""Oracles on empymod.utils: component codes, model input, geometry, minima, refusal."""
import numpy as np
import empymod
from empymod import utils
from .core import oracle
from .util import *
from . import kernel as K

VALID = [10*a+b for a in range(1, 7) for b in range(1, 7)]


@oracle(['C09'], 36)
def check_ab(c):
    ab = VALID[c.index % 36]
    v = c.pick(ab, np.int64(ab), float(ab), str(ab))
    c.note(ab=v)
    (calc, ms, mr), txt = out(utils.check_ab, v, c.pick(0, 1, 3))
    r, s = ab//10, ab % 10
    c.ok(bool(ms) == (s > 3), 'check_ab: magnetic-source flag')
    c.ok(bool(mr) == (r > 3), 'check_ab: magnetic-receiver flag')
    want = ab
    if r > 3 and s > 3:
        want = (r-3)*10+(s-3)
    elif r > 3:
        want = s*10+r
    c.ok(int(calc) == want, 'check_ab: internally computed component', got=calc, expected=want)


@oracle(['C09', 'C24'], 60)
def bad_ab(c):
    bad = [0, 1, 10, 17, 20, 27, 30, 37, 40, 47, 57, 60, 67, 70, 71, 77, 100, 111, -11, 7, 16+100, 99, 61+6]
    ab = bad[c.index % len(bad)] if c.index < len(bad) else c.i(-200, 400)
    if ab in VALID:
        c.trivial = True
        return
    c.note(ab=ab)
    refused(c, utils.check_ab, ab, 0, what='component code', exc=(ValueError,))
    refused(c, empymod.dipole, [0, 0, 1], [5, 0, 1], [], 1, 1, ab=ab, verb=0, what='component code in dipole', exc=(ValueError,))
    if c.index < 4:
        refused(c, utils.check_ab, c.pick([11, 12], None, {}, [11]), 0, what='component code of wrong type', exc=(TypeError,))


@oracle(['C09'], 40)
def zero_codes(c):
    ab = c.pick(36, 63)
    m = model(c)
    f = freqs(c)
    n = c.i(1, 3)
    src = [c.u(-5, 5), c.u(-5, 5), zin(c, m['depth'])]
    rec = [[c.u(5, 50) for _ in range(n)], [c.u(5, 50) for _ in range(n)], zin(c, m['depth'])]
    kw = dict(m, src=src, rec=rec, freqtime=f, ab=ab, verb=0, **DLF)
    xd = c.pick(None, True, False)
    c.note(**kw, xdirect=xd)
    r = empymod.dipole(squeeze=False, xdirect=xd, **kw)
    c.ok(r.shape == (f.size, n, 1) and np.all(r == 0), 'component %d is not identically zero' % ab)
    if m['res'].size == 1:
        kk = {k: v for k, v in kw.items() if k not in ('depth', 'ht', 'htarg')}
        r = empymod.analytical(squeeze=False, **kk)
        c.ok(r.shape == (f.size, n, 1) and np.all(r == 0), 'analytical component %d is not identically zero' % ab)
    c1, c2 = (m.get('depth'), f)
    p = empymod.dipole_k(src, rec, freq=f, wavenumber=np.array([.1, .2]), ab=ab, verb=0, **m)
    c.ok(all(np.all(x == 0) for x in p), 'dipole_k component %d is not identically zero' % ab)


@oracle(['C10'], 200)
def parameters(c):
    m = model(c, big=True)
    N = m['res'].size
    f = freqs(c, laplace=.35)
    args = [np.asarray(m.get(k, np.ones(N))) for k in ('res', 'aniso')]
    one = np.ones(N)
    eh = m.get('epermH', one)
    ev = m.get('epermV', eh)
    mh = m.get('mpermH', one)
    mv = m.get('mpermV', mh)
    args += [eh, ev, mh, mv]
    c.note(freq=f, res=args[0], aniso=args[1], epermH=eh, epermV=ev, mpermH=mh, mpermV=mv)
    if c.coin(.2):
        args[0] = {'res': args[0], 'x': 1}
    got = utils.check_frequency(f, *args, 0)
    c.close(got[0], np.abs(f), 'check_frequency: frequency / Laplace value', rtol=1e-13)
    for n, g, w in zip(('etaH', 'etaV', 'zetaH', 'zetaV'), got[1:], medium(m, f)):
        c.ok(np.iscomplexobj(g) == bool(np.any(f > 0)), 'check_frequency: type of '+n)
        c.close(g, w, 'check_frequency: '+n, rtol=1e-11)


@oracle(['C10'], 40)
def hooks(c):
    """func_eta / func_zeta replace exactly that quantity in all routines offering them"""
    m = model(c, N=c.i(1, 4), air=False)
    N = m['res'].size
    f = freqs(c, laplace=.2)
    extra = np.array([c.u(.5, 2) for _ in range(N)])
    seen = {}

    def fe(inp, p):
        seen['eta'] = (inp['res'].copy(), inp['extra'].copy(), np.array(p['freq'], copy=True))
        return p['etaH']*(1+inp['extra']), p['etaV']*(1+.5*inp['extra'])

    def fz(inp, p):
        seen['zeta'] = (inp['res'].copy(), p['etaH'].copy())
        return p['zetaH']*(1+.2*inp['extra']), p['zetaV']*(1+.1*inp['extra'])
    useeta, usezeta = c.pick((True, False), (False, True), (True, True))
    d = {'res': m['res'], 'extra': extra}
    if useeta:
        d['func_eta'] = fe
    if usezeta:
        d['func_zeta'] = fz
    src, rec = [0., 0., zin(c, m['depth'])], [c.u(20, 200), c.u(10, 200), zin(c, m['depth'])]
    ab = c.pick(*[a for a in VALID if a not in (36, 63)])
    c.note(model=m, freq=f, src=src, rec=rec, ab=ab, func_eta=useeta, func_zeta=usezeta, extra=extra)
    with_hook = {k: v for k, v in m.items() if k != 'res'}
    rout = c.pick('dipole', 'bipole', 'analytical') if N == 1 else c.pick('dipole', 'bipole')
    c.note(routine=rout)
    if rout == 'dipole':
        got = empymod.dipole(src, rec, freqtime=f, ab=ab, verb=0, res=d, squeeze=False, xdirect=False, **DLF, **with_hook)
    elif rout == 'bipole':
        azs = (ab % 10-1) % 3
        azr = (ab//10-1) % 3
        ang = lambda k: [(0, 0), (90, 0), (0, 90)][k]
        got = empymod.bipole([*src, *ang(azs)], [*rec, *ang(azr)], freqtime=f, msrc=ab % 10 > 3, mrec=ab//10 > 3, verb=0, res=d, squeeze=False, xdirect=False, **DLF, **with_hook)
    else:
        got = empymod.analytical(src, rec, freqtime=f, ab=ab, verb=0, res=d, squeeze=False, **{k: v for k, v in with_hook.items() if k != 'depth'})
    eH, eV, zH, zV = medium(m, f)
    if useeta:
        c.close(seen['eta'][0], m['res'], 'hook receives the resistivities')
        c.close(seen['eta'][1], extra, 'hook receives its parameters')
        eH, eV = eH*(1+extra), eV*(1+.5*extra)
    if usezeta:
        zH, zV = zH*(1+.2*extra), zV*(1+.1*extra)
    from .o_model import assemble
    want = assemble(src, rec, m['depth'], eH, eV, zH, zV, ab, f, analytic=rout == 'analytical')
    c.close(np.asarray(got).ravel(), want.ravel(), 'response with hooked parameters (%s)' % rout, rtol=1e-5, atol=1e-300, scale=np.abs(want).max())


def ways(c, depth, par):
    """equivalent ways to list a model: increasing/decreasing, with/without infinite bounds"""
    d = np.asarray(depth, dtype=float)
    p = {k: np.asarray(v) for k, v in par.items()}
    lo, hi = c.coin(), c.coin()
    e = np.r_[-np.inf if lo else [], d, np.inf if hi else []] if False else d
    if lo:
        e = np.r_[-np.inf, e]
    if hi:
        e = np.r_[e, np.inf]
    if e.size > 1 and c.coin():
        e = e[::-1]
        p = {k: v[::-1] for k, v in p.items()}
        rev = True
    else:
        rev = False
    if c.coin(.3):
        e = list(e)
    return e, p, rev


@oracle(['C11'], 300)
def model_input(c):
    m = model(c)
    N = m['res'].size
    if N > 1 and c.coin(.3):      # all layers equal in some parameters
        for k in m:
            if k != 'depth' and c.coin(.8):
                m[k] = np.full(N, m[k][0])
    if c.coin(.1):
        for k in m:
            if k != 'depth':
                m[k] = m[k]*c.pick(1, 1, 1e-10, 1e-8, 1e8) if k != 'aniso' else m[k]
        if np.any(m['res']*(m.get('aniso', 1.)**2) < 1e-19):
            m['res'] = m['res']*1e4
    if c.coin(.1):
        k = c.pick(*[q for q in m if q != 'depth'])
        m[k] = m[k].copy()
        l = c.i(0, N-1)
        m[k][l] = c.pick(np.nextafter(m[k][l], 1e9), m[k][l]*(1+1e-6), m[k][l]*(1+1e-12))
    if c.coin(.15):
        m['res'] = np.full(N, 3.)
        for k in ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'):
            m.pop(k, None)
    par = {k: v for k, v in m.items() if k != 'depth'}
    d, p, rev = ways(c, m['depth'], par)
    if N == 1 and c.coin(.4):
        d = c.pick([], None, [-np.inf], [np.inf])
    xd = c.pick(True, False, None)
    names = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')
    args = [p.get(k) for k in names]
    if N == 1 and c.coin(.5):
        args = [None if a is None else float(a[0]) for a in args]
    c.note(depth=d, **dict(zip(names, args)))
    got, _ = out(utils.check_model, d, *args, xd, c.pick(0, 0, 1, 3))
    one = np.ones(N)
    g = lambda k, dflt: m[k] if m.get(k) is not None else dflt
    eh = g('epermH', one)
    mh = g('mpermH', one)
    want = [m['res'], g('aniso', one), eh, g('epermV', eh), mh, g('mpermV', mh)]
    c.close(got[0], np.r_[-np.inf, m['depth']], 'check_model: interfaces', rtol=0)
    for n, a, b in zip(names, got[1:7], want):
        c.close(a, b, 'check_model: %s per layer' % n, rtol=1e-12)
    iso = all(np.all(np.asarray(x) == np.asarray(x)[0]) for x in want)
    if not c.coin(0) and all(np.all(np.asarray(b) == np.asarray(a)) for a, b in zip(want, got[1:7])):
        c.ok(bool(got[7]) == iso, 'check_model: homogeneous flag', got=bool(got[7]), expected=iso)
    elif not iso:
        same_ = all(np.all(np.asarray(x) == np.asarray(x)[0]) for x in got[1:7])
        c.ok(bool(got[7]) == same_, 'check_model: homogeneous flag')


@oracle(['C11'], 60)
def model_dict(c):
    """resistivity as dictionary: entries follow the layers"""
    m = model(c, N=c.i(2, 5))
    N = m['res'].size
    x = np.array([c.u(0, 9) for _ in range(N)])
    d, p, rev = ways(c, m['depth'], dict(res=m['res'], x=x))
    inp = {'res': p['res'], 'x': p['x'], 'func_eta': len}
    keep = snapshot({k: v for k, v in inp.items() if k != 'func_eta'})
    c.note(depth=d, res=p['res'], x=p['x'])
    got = utils.check_model(d, inp, None, None, None, None, None, False, 0)
    c.ok(isinstance(got[1], dict) and got[1]['func_eta'] is len, 'check_model: dictionary is kept')
    c.close(got[1]['res'], m['res'], 'check_model: res of the dictionary')
    c.close(got[1]['x'], x, 'check_model: additional parameter follows its layer')
    c.ok(not got[7], 'check_model: hooked model is not treated as homogeneous')
    c.ok(same(keep, {k: v for k, v in inp.items() if k != 'func_eta'}), 'check_model modifies the dictionary it is given')


@oracle(['C11', 'C24'], 150)
def model_refused(c):
    m = model(c, N=c.i(2, 5))
    N = m['res'].size
    kind = c.pick('order', 'length', 'shape', 'nonnum', 'kdict')
    full = dict(res=m['res'], aniso=None, epermH=None, epermV=None, mpermH=None, mpermV=None)
    d = m['depth']
    if kind == 'order':
        N = c.i(4, 7)
        d = np.cumsum([c.u(1, 50) for _ in range(N-1)])
        k = c.i(0, N-3)
        d = d.copy()
        d[k], d[k+1] = d[k+1], d[k]
        if N == 4 and np.all(np.diff(d) < 0):
            c.trivial = True
            return
        if c.coin():
            d = d[::-1]
        full['res'] = np.full(N, 2.) if c.coin() else np.array([c.lu(1, 9) for _ in range(N)])
    elif kind == 'length':
        p = c.pick(*full)
        n = c.pick(*[k for k in (1, N-1, N+1, N+2) if k != N and k > 0])
        full[p] = np.ones(n) if p != 'res' else np.array([c.lu(1, 9) for _ in range(n)])
    elif kind == 'shape':
        p = c.pick(*full)
        full[p] = np.ones((N, 1)) if c.coin() else np.ones((1, N))
    elif kind == 'kdict':
        full['res'] = {'res': m['res'], 'extra': np.ones(N+c.pick(-1, 1))}
    else:
        p = c.pick(*full)
        full[p] = 'abc'
    c.note(kind=kind, depth=d, **full)
    refused(c, utils.check_model, d, *[full[k] for k in ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')], False, 0, what='model input (%s)' % kind)


@oracle(['C12'], 250)
def layer_of(c):
    N = c.i(1, 8)
    d = np.r_[-np.inf, np.cumsum([c.lu(.01, 300) for _ in range(N-1)])-c.u(0, 300)] if N > 1 else np.array([-np.inf])
    n = c.i(1, 6)
    zs = [c.pick(float(c.pick(*d[1:])) if N > 1 else 0., c.u(-400, 900), np.nextafter(float(c.pick(*d[1:])), c.pick(-1e9, 1e9)) if N > 1 else 1.) for _ in range(n)]
    z = np.array(zs) if n > 1 or c.coin() else zs[0]
    if c.coin(.2):
        z = list(np.atleast_1d(z))
    c.note(depth=d, z=z)
    l, zz = utils.get_layer_nr([0, 0, z], d)
    want = np.squeeze(np.array([layer(q, d[1:]) for q in zs]))
    c.ok(np.array_equal(l, want), 'get_layer_nr: layer', got=l, expected=want)
    c.ok(np.shape(l) == np.shape(want) and np.array_equal(zz, np.squeeze(np.array(zs))), 'get_layer_nr: depth returned')


@oracle(['C13'], 200)
def geometry(c):
    ns, nr = c.i(1, 4), c.i(1, 4)
    src = [np.array([c.u(-100, 100) for _ in range(ns)]) for _ in range(2)] + [np.array([1.])]
    rec = [np.array([c.u(-100, 100) for _ in range(nr)]) for _ in range(2)] + [np.array([1.])]
    if c.coin(.4):      # zero and tiny offsets, axis directions
        j, i = c.i(0, nr-1), c.i(0, ns-1)
        dx, dy = c.pick((0, 0), (1e-5, 0), (0, 1e-4), (3, 0), (0, -3), (-7, 0), (1e-3, 0), (-2e-4, 5e-4))
        rec[0][j], rec[1][j] = src[0][i]+dx, src[1][i]+dy
    mn = c.pick(1e-3, 1e-3, 5., 1e-6)
    c.note(src=src, rec=rec, min_off=mn)
    old = utils.get_minimum()
    try:
        utils.set_minimum(min_off=mn)
        (off, ang), txt = out(utils.get_off_ang, src, rec, ns, nr, 1)
    finally:
        utils.set_minimum(**old)
    c.ok(off.shape == ang.shape == (ns*nr,), 'get_off_ang: shape')
    low = False
    for i in range(ns):
        for j in range(nr):
            dx, dy = rec[0][j]-src[0][i], rec[1][j]-src[1][i]
            h = np.sqrt(dx*dx+dy*dy)
            low |= h < mn
            c.close(off[i*nr+j], max(h, mn), 'get_off_ang: offset of source %d, receiver %d' % (i, j), rtol=1e-12)
            c.close(ang[i*nr+j], np.arctan2(dy, dx), 'get_off_ang: azimuth', rtol=1e-12, atol=1e-12)
    c.ok(('WARNING' in txt) == bool(low), 'get_off_ang: warning exactly when an offset was raised', printed=txt)


@oracle(['C25'], 200)
def clamp(c):
    """minima of frequencies, times, offsets, resistivities and anisotropies"""
    kind = c.pick('freq', 'time', 'res', 'aniso', 'off', 'laplace')
    mn = c.pick(1e-20, 1e-3, .5, 2.)
    n = c.i(1, 6)
    v = np.array([c.pick(mn*c.lu(1e-3, .99), mn, mn*c.lu(1.01, 1e3), 0., mn*c.u(1, 3)) for _ in range(n)])
    if kind == 'freq' and not np.any(v > 0):
        v[0] = mn*2
    old = utils.get_minimum()
    c.note(kind=kind, values=v, minimum=mn)
    verb = c.pick(0, 1, 2)
    want = np.maximum(v, mn)
    hit = bool(np.any(v < mn))
    try:
        if kind in ('freq', 'laplace'):
            utils.set_minimum(min_freq=mn)
            r, txt = out(utils.check_frequency, v if kind == 'freq' else -v, np.ones(1), np.ones(1), np.ones(1), np.ones(1), np.ones(1), np.ones(1), verb)
            got = r[0]
        elif kind == 'time':
            utils.set_minimum(min_time=mn)
            (got, _), txt = out(utils.check_time_only, v, c.pick(0, 1, -1), verb, True)
        elif kind == 'res':
            utils.set_minimum(min_res=mn)
            r, txt = out(utils.check_model, np.arange(n-1.), v, None, None, None, None, None, False, verb)
            got = r[1]
        elif kind == 'aniso':
            utils.set_minimum(min_res=mn)
            res = np.array([c.u(mn, mn*10) for _ in range(n)])
            a = np.array([c.pick(c.lu(1e-3, 5), 1., 0.) for _ in range(n)])
            c.note(res=res, aniso=a)
            r, txt = out(utils.check_model, np.arange(n-1.), res, a, None, None, None, None, False, verb)
            got = r[2]
            rv = a**2*res
            want = np.where(rv < mn, np.sqrt(mn/res), a)
            hit = bool(np.any(rv < mn))
            c.close(r[1], res, 'resistivities unchanged', rtol=1e-14)
        else:
            utils.set_minimum(min_off=mn)
            (got, _), txt = out(utils.get_off_ang, [np.zeros(1), np.zeros(1), np.zeros(1)], [v, np.zeros(n), np.zeros(1)], 1, n, verb)
    finally:
        utils.set_minimum(**old)
    c.close(got, want, 'minimum clamps exactly the offending entries (%s)' % kind, rtol=1e-13)
    c.ok(('WARNING' in txt) == (hit and verb > 0), 'warning exactly when a value was clamped (%s, verb=%d)' % (kind, verb), printed=txt)


@oracle(['C25'], 60)
def set_get(c):
    old = utils.get_minimum()
    names = ['min_freq', 'min_time', 'min_off', 'min_res', 'min_angle']
    c.ok(list(old) == names or set(old) == set(names), 'get_minimum: names')
    ch = {n: c.pick(0., 0, c.lu(1e-15, 1)) for n in names if c.coin(.4)}
    c.note(change=ch)
    try:
        empymod.set_minimum(**ch)
        new = empymod.get_minimum()
    finally:
        utils.set_minimum(**old)
    for n in names:
        c.ok(new[n] == ch.get(n, old[n]), 'set_minimum changes exactly the given minima: '+n, got=new[n], expected=ch.get(n, old[n]))
    c.ok(utils.get_minimum() == old, 'set_minimum restores')


def angle_w(k, azm, dip):
    a, d = np.deg2rad(azm), np.deg2rad(dip)
    return [np.cos(a)*np.cos(d), np.sin(a)*np.cos(d), np.sin(d)][k]


@oracle(['C14', 'C09'], 400)
def orientation(c):
    """get_abs / get_geo_fact: skipped components have zero weight, weights are direction cosines"""
    ms, mr = c.coin(), c.coin()
    n, k = c.i(1, 3), c.i(1, 3)
    def ang():
        m = c.i(0, 3)
        return float([c.u(-360, 360), 90*c.i(-5, 5), c.pick(45., 30., -60.), 90*c.i(-4, 4)+c.pick(0, 1e-4, -1e-4, 1e-2, 0.)][m])
    sa, sd = [np.array([ang() for _ in range(n)]) for _ in range(2)]
    ra, rd = [np.array([ang() for _ in range(k)]) for _ in range(2)]
    if c.coin(.5):
        q = c.i(-4, 4)
        sa[:] = [90*(q+2*c.i(-1, 1)) for _ in range(n)]
    if c.coin(.5):
        q = c.i(-4, 4)
        ra[:] = [90*(q+2*c.i(-1, 1)) for _ in range(k)]
    if c.coin(.3):
        sd[:] = 90*c.i(-2, 2)
    if c.coin(.3):
        rd[:] = 90*c.i(-2, 2)
    c.note(msrc=ms, mrec=mr, srcazm=sa, srcdip=sd, recazm=ra, recdip=rd)
    R = np.deg2rad
    abs_ = np.atleast_1d(utils.get_abs(ms, mr, R(sa), R(sd), R(ra), R(rd), 0))
    c.ok(len(set(abs_.tolist())) == abs_.size, 'get_abs: no component twice', got=abs_)
    comps = {}
    for r in range(3):
        for s in range(3):
            user = (r+1+3*mr)*10 + s+1+3*ms
            calc = int(utils.check_ab(user, 0)[0])
            w = np.outer(angle_w(r, ra, rd), angle_w(s, sa, sd))
            comps[calc] = w
    c.ok(set(abs_.tolist()) <= set(comps), 'get_abs: only components of this source/receiver type', got=abs_)
    for ab, w in comps.items():
        if ab not in abs_:
            c.ok(np.all(np.abs(w) < 3e-8), 'get_abs: skipped component %d has non-zero weight' % ab, weight=w, got=abs_)
        else:
            g = utils.get_geo_fact(ab, R(sa), R(sd), R(ra), R(rd), ms, mr)
            c.close(np.ones((k, n))*g, w, 'get_geo_fact: weight of component %d' % ab, rtol=1e-9, atol=2e-10)


@oracle(['C15', 'C11'], 250)
def bipole_points(c):
    """get_azm_dip: integration points on the segment, Gauss-Legendre weights, orientation, strength"""
    n = c.i(1, 3)
    samez = c.coin(.4)
    z0, z1 = [np.round(c.u(0, 100), 3)]*n if samez else [np.round(c.u(0, 100), 3) for _ in range(n)], None
    z1 = [np.round(c.u(0, 100), 3)]*n if samez else [np.round(c.u(0, 100), 3) for _ in range(n)]
    X0, X1, Y0, Y1 = [[np.round(c.u(-100, 100), 3) for _ in range(n)] for _ in range(4)]
    ptp = c.pick('gen', 'gen', 'x', 'y', 'z')
    if ptp == 'x':
        Y1, z1 = list(Y0), list(z0)
    elif ptp == 'y':
        X1, z1 = list(X0), list(z0)
    elif ptp == 'z':
        X1, Y1 = list(X0), list(Y0)
        z1 = [q+11. for q in z0]
    pts = c.pick(1, 2, 0, 3, 4, 5, 7)
    st = c.pick(0, 0, 1., c.u(.1, 100))
    name = c.pick('src', 'rec')
    inp = [X0, X1, Y0, Y1, z0, z1]
    if n == 1 and c.coin():
        inp = [q[0] for q in inp]
    c.note(inp=inp, intpts=pts, strength=st, name=name)
    o, nn, nz, isd, _, _ = utils.check_bipole(inp, name, False, 0)
    c.ok(nn == n and not isd, 'check_bipole: number of bipoles')
    c.ok(nz in (1, n), 'check_bipole: number of depths')
    x0, x1, y0, y1, z0, z1 = [np.atleast_1d(np.array(q, dtype=float)) for q in (X0, X1, Y0, Y1, z0, z1)]
    for iz in range(nz):
        sel = slice(None) if nz == 1 else slice(iz, iz+1)
        t, azm, dip, gw, ip, w = utils.get_azm_dip(o, iz, nz, pts, isd, st, name, 0)
        a0 = np.array([x0[sel], y0[sel], z0[sel]])
        a1 = np.array([x1[sel], y1[sel], z1[sel]])
        m = a0.shape[1]
        d = a1-a0
        L = np.sqrt((d**2).sum(0))
        g, gg = np.polynomial.legendre.leggauss(pts) if pts > 2 else (np.zeros(1), np.array([2.]))
        c.ok(ip == (pts if pts > 2 else 1), 'get_azm_dip: number of integration points', got=ip)
        c.close(gw, gg/2, 'get_azm_dip: Gauss-Legendre weights', rtol=1e-9)
        u = d/L
        c.close(np.broadcast_to(np.cos(azm)*np.cos(dip), (m,)), u[0], 'get_azm_dip: direction x', rtol=1e-8, atol=1e-9)
        c.close(np.broadcast_to(np.sin(azm)*np.cos(dip), (m,)), u[1], 'get_azm_dip: direction y', rtol=1e-8, atol=1e-9)
        c.close(np.broadcast_to(np.sin(dip), (m,)), u[2], 'get_azm_dip: direction z', rtol=1e-8, atol=1e-9)
        for b in range(m):
            for k in range(ip):
                p = (a0[:, b]+a1[:, b])/2 + g[k]*d[:, b]/2
                q = [t[0][k::ip][b], t[1][k::ip][b], np.broadcast_to(np.atleast_1d(t[2])[k::ip], (m,))[b] if nz == 1 else t[2][k]]
                c.close(np.array(q), p, 'get_azm_dip: integration point %d of bipole %d' % (k, b), rtol=0, atol=6e-4)
        ww = np.ones(m)
        if st > 0:
            ww = L*(st if name == 'src' else 1)
        c.close(np.broadcast_to(w, (m,)), ww, 'get_azm_dip: length and strength weight', rtol=1e-10)


@oracle(['C15'], 60)
def dipole_weight(c):
    n = c.i(1, 3)
    st = c.pick(0, 1., c.u(.1, 50))
    name = c.pick('src', 'rec')
    o, nn, nz, isd, _, _ = utils.check_bipole([[c.u(0, 9) for _ in range(n)], [c.u(0, 9) for _ in range(n)], 5., c.u(0, 90), c.u(0, 90)], name, False, 0)
    c.note(n=n, strength=st, name=name, inp=o)
    t, azm, dip, gw, ip, w = utils.get_azm_dip(o, 0, nz, c.i(1, 7), isd, st, name, 0)
    c.ok(ip == 1 and np.all(gw == 1), 'point dipole: one integration point of weight one')
    c.close(np.broadcast_to(w, (n,)), np.full(n, st if st > 0 and name == 'src' else 1.), 'point dipole: strength')
    c.close(azm, np.deg2rad(np.atleast_1d(o[3])), 'point dipole: azimuth')
    c.close(dip, np.deg2rad(np.atleast_1d(o[4])), 'point dipole: dip')
