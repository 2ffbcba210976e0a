"""Contracts of empymod.model (orchestration: dipole, bipole, fem, tem, ...)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, INF
from pv.arrays import SArr
from pv import verify as vf, npshim
from pv.interp import PyRaise, Obligation
from pv.terms import Unsupported
from uspec import vec, size, expect_raise, iff, setglob, PRINT, main

LS = sym('L*', 'I')          # a layer, standing for the profile over all layers


def tb(x):
    """flags as numbers (arguments of contract functions)"""
    x = lit(x)
    return x if x.sort != 'B' else tm.ite(x, lit(1), lit(0))


class Earth:
    """layered medium: arrays eta/zeta (nf, N) with generic entries"""

    def __init__(self, I, nf, N, real=False):
        self.I, self.nf, self.N = I, nf, N
        self.s = 'R' if real else 'C'
        I.assume(tm.and_(tm.le(0, LS), tm.lt(LS, N)))
        self.a = {}
        for p in ('etaH', 'etaV', 'zetaH', 'zetaV'):
            x = A.build((tm.unlit(lit(nf)), tm.unlit(lit(N))), lambda i, l, p=p: fn(p, i, l, sort=self.s), A.DF if real else A.DC)
            vf.frame(I, p, x)
            self.a[p] = x

    def f(self, p):
        return lambda i, l: fn(p, i, l, sort=self.s)


def prof(x, i):
    """row i of an eta/zeta argument as a profile"""
    if not isinstance(x, SArr) or x.ndim != 2:
        raise Unsupported('profile argument')
    return x.at(i, LS)


def hankel_contract(names):
    """Pointwise contract of a Hankel routine: entry (i, j) is a function of the
    model row i, of offset/angle j and of nothing else; flag and count likewise."""
    def c(name):
        def f(I, a):
            off, ang = A.arr(a['off']), A.arr(a['ang_fact'])
            nf = a['etaH'].shape[0]
            pr = [a[p] for p in ('etaH', 'etaV', 'zetaH', 'zetaV')]
            sc = [tb(a[p].item() if isinstance(a[p], SArr) else a[p]) for p in ('zsrc', 'zrec', 'lsrc', 'lrec', 'ab', 'xdirect', 'msrc', 'mrec')]
            ht = tm.fn('htarg', lit(int(a['htarg'] is I.htarg)), sort='R')
            s = 'R' if pr[0].dtype.kind == 'f' else 'C'
            dep = a['depth'].at(LS)
            g = lambda i, j: fn(name, ht, dep, *sc, off.at(j), ang.at(j), *[prof(p, i) for p in pr], sort=s)
            out = A.build((nf, off._shape[0]), g, A.DF if s == 'R' else A.DC)
            if not A.deq(off._shape[0], ang._shape[0]):
                raise Unsupported('offsets and angle factors of different length')
            i, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
            ok = tm.all_(i, lit(0), lit(nf), tm.all_(j, lit(0), lit(off._shape[0]), tm.le(0, fn(name+':ok', g(i, j), sort='R'))))
            return (out, tm.fresh('cnt', 'I'), ok)
        return f
    return {'transform.'+n: c(n) for n in names}


def fullspace_contract(I, a):
    off, ang = A.arr(a['off']), A.arr(a['angle'])
    sc = [tb(a[p].item() if isinstance(a[p], SArr) else a[p]) for p in ('zsrc', 'zrec', 'ab', 'msrc', 'mrec')]
    pr = [A.arr(a[p]) for p in ('etaH', 'etaV', 'zetaH', 'zetaV')]
    s = 'R' if pr[0].dtype.kind == 'f' else 'C'
    one = lambda p, i: p.at(i) if p.ndim == 1 else p.at(i, 0)
    return A.build((pr[0]._shape[0], off._shape[0]), lambda i, j: fn('fullspace', *sc, off.at(j), ang.at(j), *[one(p, i) for p in pr], sort=s), A.DF if s == 'R' else A.DC)


def angle_contract(I, a):
    ang = A.arr(a['angle'])
    sc = [tb(a[p]) for p in ('ab', 'msrc', 'mrec')]
    return A.build(ang._shape, lambda j: fn('angfact', ang.at(j), *sc, sort='R'), A.DF)


HT = ['hankel_dlf', 'hankel_qwe', 'hankel_quad']
FEM = {**PRINT, **hankel_contract(HT), 'kernel.fullspace': fullspace_contract, 'kernel.angle_factor': angle_contract}


# ------------------------------------------------------------------ C05, C06, C16: fem
def unit_fem(ht, xdirect, loop, real=False):
    def run(I):
        nf, no, N = size(I, 'nf'), size(I, 'noff'), size(I, 'N')
        w = Earth(I, nf, N, real)
        off, ang, dep, freq = vec(I, 'off', no), vec(I, 'angle', no), vec(I, 'depth', N), vec(I, 'freq', nf)
        zs, zr = sym('zsrc', 'R'), sym('zrec', 'R')
        ls, lr = sym('lsrc', 'I'), sym('lrec', 'I')
        for l in (ls, lr):
            I.assume(tm.and_(tm.le(0, l), tm.lt(l, N)))
        ab, fs = sym('ab', 'I'), sym('isfullspace', 'B')
        ms, mr = sym('msrc', 'B'), sym('mrec', 'B')
        I.htarg = {'marker': 1}
        conv0 = sym('conv', 'B')
        x = w.a
        out = I.call_body(I.module('model').fem, [ab, off, ang, zs, zr, ls, lr, dep, freq, x['etaH'], x['etaV'], x['zetaH'], x['zetaV'], xdirect, fs, ht, I.htarg, ms, mr,
                                                  loop == 'freq', loop == 'off', conv0], {})
        v = vf.V(I)
        v.fact('three results', isinstance(out, tuple) and len(out) == 3, repr(out))
        P = ('etaH', 'etaV', 'zetaH', 'zetaV')
        s = w.s
        xd = True if xdirect is None else xdirect
        hk = lambda i, j: fn('hankel_'+ht, fn('htarg', lit(1), sort='R'), fn('depth', LS, sort='R'), zs, zr, ls, lr, ab, tb(xd), tb(ms), tb(mr), fn('off', j, sort='R'),
                             fn('angfact', fn('angle', j, sort='R'), ab, tb(ms), tb(mr), sort='R'), *[w.f(p)(i, LS) for p in P], sort=s)
        fsp = lambda i, j: fn('fullspace', zs, zr, ab, tb(ms), tb(mr), fn('off', j, sort='R'), fn('angle', j, sort='R'), *[w.f(p)(i, lr) for p in P], sort=s)
        zero = tm.cmp_eq(ab, 36)
        dsec = lit(xdirect is True) if False else (tm.or_(fs, tm.cmp_eq(ls, lr)) if xdirect is True else tm.FALSE)
        hsec = tm.not_(fs) if xd else tm.TRUE

        def want(i, j):
            d = tm.ite(dsec, fsp(i, j), lit(0))
            h = tm.ite(hsec, hk(i, j), lit(0))
            return tm.ite(zero, lit(0), tm.add(d, h))
        v.array('response = direct field (requested and in one layer) + Hankel-transformed kernel, entry by entry', out[0], (nf, no), want)
        i, j = tm.fresh('qi', 'I'), tm.fresh('qj', 'I')
        allok = tm.all_(i, lit(0), lit(nf), tm.all_(j, lit(0), lit(no), tm.le(0, fn('hankel_'+ht+':ok', hk(i, j), sort='R'))))
        used = tm.and_(tm.not_(zero), hsec)
        v.true('converged only if every transform converged', tm.implies(tm.tob(lit(out[2])), tm.and_(conv0, tm.implies(used, allok))))
        v.true('not converged only if a transform did not converge', tm.implies(tm.and_(conv0, tm.implies(used, allok)), tm.tob(lit(out[2]))))
    return vf.verify('model.fem (%s, xdirect=%s, loop=%s)' % (ht, xdirect, loop), run, FEM, {}, 120)


# ------------------------------------------------------------------ C20: tem
FS = sym('F*', 'I')          # a frequency, standing for a whole spectrum
TS = sym('T*', 'I')          # a time, standing for all computed times


def fourier_contract(name):
    """column-wise contract of a Fourier routine: entry t is a real functional of
    the frequency response passed in (its generic entry) and of time t"""
    def f(I, a):
        fr, time, freq = A.arr(a['fEM']), A.arr(a['time']), A.arr(a['freq'])
        m = fn('ftarg', lit(int(a['ftarg'] is I.ftarg)), sort='R')
        g = lambda k: fn(name, m, fr.at(FS), freq.at(FS), time.at(k), sort='R')
        k = tm.fresh('q', 'I')
        return (A.build(time._shape, g, A.DF), tm.all_(k, lit(0), lit(time._shape[0]), tm.le(0, fn(name+':ok', g(k), sort='R'))))
    return f


FT = ['fourier_dlf', 'fourier_qwe', 'fourier_fftlog', 'fourier_fft']
TEM = {**PRINT, **{'transform.'+n: fourier_contract(n) for n in FT}}


def unit_tem(ft, signal, wave=False):
    def run(I):
        nf, no, nt = size(I, 'nf'), size(I, 'noff'), size(I, 'ntime')
        I.assume(tm.and_(tm.le(0, FS), tm.lt(FS, nf)))
        off, time, freq = vec(I, 'off', no), vec(I, 'time', nt), vec(I, 'freq', nf)
        E = A.build((tm.unlit(nf), tm.unlit(no)), lambda i, j: fn('EM', i, j, sort='C'), A.DC)
        vf.frame(I, 'fEM', E)
        I.ftarg = {'marker': 1}
        calls = []

        def apply(x):
            calls.append(x)
            return A.build((sym('nout', 'I'), x._shape[1]), lambda t, j: fn('waveform', t, x.at(TS, j), sort='R'), A.DF)
        I.assume(tm.and_(tm.le(0, TS), tm.lt(TS, nt)))
        I.assume(tm.le(1, sym('nout', 'I')))
        sg = {'signal': signal, 'apply_waveform': apply} if wave else signal
        vf.frame(I, 'signal', sg)
        c0 = sym('conv', 'B')
        out = I.call_body(I.module('model').tem, [E, off, freq, time, sg, ft, I.ftarg, c0], {})
        v = vf.V(I)
        v.fact('two results', isinstance(out, tuple) and len(out) == 2, repr(out))
        w = lambda i: tm.mul(2, lit(1j), tm.PI, fn('freq', i, sort='R'))
        fac = {0: lambda i: lit(1), 1: lambda i: tm.div(1, w(i)), -1: lambda i: tm.div(-1, w(i))}[signal]
        m = fn('ftarg', lit(1), sort='R')
        col = lambda t, j: fn('fourier_'+ft, m, tm.mul(fn('EM', FS, j, sort='C'), fac(FS)), fn('freq', FS, sort='R'), fn('time', t, sort='R'), sort='R')
        res = lambda t, j: tm.mul(2, tm.div(1, tm.PI), col(t, j))
        if wave:
            v.array('waveform applied to the transformed columns', out[0], (sym('nout', 'I'), no), lambda t, j: fn('waveform', t, res(TS, j), sort='R'))
        else:
            v.array('each column is 2/pi times the transform of its own weighted frequency response', out[0], (nt, no), res)
        j, k = tm.fresh('qj', 'I'), tm.fresh('qk', 'I')
        ok = tm.all_(j, lit(0), lit(no), tm.all_(k, lit(0), lit(nt), tm.le(0, fn('fourier_'+ft+':ok', col(k, j), sort='R'))))
        v.true('converged exactly if every transform converged', iff(tm.tob(lit(out[1])), tm.and_(c0, ok)))
    return vf.verify('model.tem (%s, signal %d%s)' % (ft, signal, ', waveform' if wave else ''), run, TEM, {}, 60)


# ------------------------------------------------------------------ shared contracts of utils for the drivers
PAR = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def mark(x):
    """an argument as a term: its generic content"""
    if x is None:
        return fn('None', sort='R')
    if isinstance(x, SArr):
        return x.at(*([LS]*x.ndim)) if x.ndim else x.at()
    if isinstance(x, str):
        return fn('str:'+x, sort='R')
    if isinstance(x, dict):
        return fn('dict', *[a for k in sorted(x) if isinstance(k, str) and not callable(x[k]) for a in (fn('key:'+k, sort='R'), mark(x[k]))], sort='R')
    if isinstance(x, (list, tuple)):
        return fn('seq', *[mark(a) for a in x], sort='R')
    if isinstance(x, (bool, int, float, complex, tm.T)):
        return tb(x)
    return fn('obj%d' % id(x), sort='R')


def utils_contracts(nf, N, nt=None):
    """contracts of the input checks, as functions of what they are given"""
    def check_model(I, a):
        xs = [mark(a['depth']), mark(a['xdirect'])]
        prs = {p: mark(a[p]['res'] if isinstance(a[p], dict) else a[p]) for p in PAR}
        o = {p: A.build((tm.unlit(N),), lambda l, p=p: fn('m:'+p, l, xs[0], prs[p], prs['res'] if p == 'aniso' else (prs[p[:-1]+'H'] if p[-1] == 'V' else lit(0)), sort='R'), A.DF) for p in PAR}
        dep = A.build((tm.unlit(N),), lambda l: fn('m:depth', l, xs[0], sort='R'), A.DF)
        fs = tm.tob(tm.cmp_eq(fn('m:fullspace', *prs.values(), sort='I'), 1))
        if isinstance(a['res'], dict):
            o['res'] = {**a['res'], 'res': o['res']}
            fs = False
        return (dep, *[o[p] for p in PAR], fs)

    def check_frequency(I, a):
        fr = A.arr(a['freq'])
        res = a['res']['res'] if isinstance(a['res'], dict) else a['res']
        s = 'R' if getattr(I, 'laplace', False) else 'C'
        d = A.DF if s == 'R' else A.DC
        f = A.build(fr._shape, lambda i: fn('clampf', fr.at(i), sort='R'), A.DF)
        # generic form of C10 (proved for check_frequency itself): layer-wise, frequency-wise
        g = lambda nm, *ps: A.build((fr._shape[0], N), lambda i, l: fn(nm, fr.at(i), *[p.at(l) for p in ps], sort=s), d)
        return (f, g('etaH', res, a['epermH']), g('etaV', res, a['aniso'], a['epermV']), g('zetaH', a['mpermH']), g('zetaV', a['mpermV']))

    def check_hankel(I, a):
        I.htarg = {'marker': 1, 'of': a['htarg']}
        return (a['ht'], I.htarg)

    def check_loop(I, a):
        return (tm.tob(tm.cmp_eq(fn('loop_freq', mark(a['loop']), sort='I'), 1)), tm.tob(tm.cmp_eq(fn('loop_off', mark(a['loop']), sort='I'), 1)))

    def check_ab(I, a):
        return (fn('ab_calc', mark(a['ab']), sort='I'), tm.tob(tm.cmp_eq(fn('is_msrc', mark(a['ab']), sort='I'), 1)), tm.tob(tm.cmp_eq(fn('is_mrec', mark(a['ab']), sort='I'), 1)))

    def check_dipole(I, a):
        x, y, z = a['inp']
        n = A.arr(x)._shape[0]
        return ([x, y, z], tm.unlit(lit(n)))

    def get_off_ang(I, a):
        src, rec = a['src'], a['rec']
        ns, nr = lit(a['nsrc']), lit(a['nrec'])

        def mk(nm):
            def f(k):
                s, r = I.divmod_sym(k, nr)
                return fn(nm, src[0].at(s), src[1].at(s), rec[0].at(r), rec[1].at(r), sort='R')
            return A.build((tm.unlit(tm.mul(nr, ns)),), f, A.DF)
        return (mk('off'), mk('ang'))

    def get_layer_nr(I, a):
        z, d = a['inp'][2], a['depth']
        z = A.arr(z)
        if z.ndim == 1 and A.as_int(lit(z._shape[0])) == 1:
            z = z[0]
        elif z.ndim == 0:
            z = z.item()
        if isinstance(z, SArr):
            return (A.build(z._shape, lambda i: fn('layer', z.at(i), mark(d), sort='I'), A.DI), z)
        l = fn('layer', z, mark(d), sort='I')
        I.assume(tm.and_(tm.le(0, l), tm.lt(l, N)))
        return (l, z)

    def check_time(I, a):
        x = A.arr(a['time'])
        I.ftarg = {'marker': 1, 'of': a['ftarg']}
        t = A.build(x._shape, lambda k: fn('clampt', x.at(k), sort='R'), A.DF)
        f = A.build((tm.unlit(nf),), lambda i: fn('reqfreq', i, mark(a['signal']), mark(a['ft']), mark(a['ftarg']), x.at(TS), sort='R'), A.DF)
        return (t, f, a['ft'], I.ftarg, a['signal'])
    return {'utils.'+f.__name__: f for f in (check_model, check_frequency, check_hankel, check_loop, check_ab, check_dipole, get_off_ang, get_layer_nr, check_time)} | {
        'utils.printstartfinish': lambda I, a: 0, 'utils.conv_warning': conv_warning}


def conv_warning(I, a):
    c, _, name, verb = list(a.values())[:4]
    I.__dict__.setdefault('warned', []).append((name, c, verb))
    return None


def flagged(name, f):
    """contract f, with its convergence flag recorded"""
    def g(I, a):
        r = f(I, a)
        I.__dict__.setdefault('flags', []).append((name, r[-1]))
        return r
    return g


def warned(I, v, verb, names):
    """conv_warning (contract proved by itself) is given the flag of every transform, with the verbosity of the caller"""
    for n in names:
        w = [x for x in I.warned if x[0] == n]
        f = [x[1] for x in I.flags if x[0] == n]
        if len(w) != 1 or not f:
            v.fact('%s transform: one report of its convergence' % n, len(w) != 0 or not f, '%d reports of %d transforms' % (len(w), len(f)))
            if len(w) != 1:
                raise Unsupported('%d reports of the convergence' % len(w))
        c = tm.tob(lit(w[0][1]))
        v.true('%s transform: reported as not converged exactly if its flag says so' % n, tm.and_(tm.implies(c, tm.and_(*map(lambda x: tm.tob(lit(x)), f))), tm.implies(tm.and_(*map(lambda x: tm.tob(lit(x)), f)), c)))
        v.eq('%s transform: verbosity of the caller' % n, w[0][2], verb)


def fem_contract(I, a):
    """contract of fem (proved above): point-wise in frequency and offset"""
    off, ang = A.arr(a['off']), A.arr(a['angle'])
    pr = [a[p] for p in ('etaH', 'etaV', 'zetaH', 'zetaV')]
    sc = [tb(x.item() if isinstance(x, SArr) else x) for x in (a[p] for p in ('ab', 'zsrc', 'zrec', 'lsrc', 'lrec'))]
    fl = [mark(a['xdirect'])] + [tb(a[p]) for p in ('isfullspace', 'msrc', 'mrec')] + [mark(a['ht']), mark(a['htarg']), mark(a['depth'])]
    s = 'R' if pr[0].dtype.kind == 'f' else 'C'
    nf = a['freq'].size
    if not A.deq(pr[0]._shape[0], nf):
        raise Unsupported('frequencies and admittivities of different length')
    g = lambda i, j: fn('fem', *sc, *fl, off.at(j), ang.at(j), *[prof(p, i) for p in pr], sort=s)
    i, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
    ok = tm.all_(i, lit(0), lit(nf), tm.all_(j, lit(0), lit(off._shape[0]), tm.le(0, fn('fem:ok', g(i, j), sort='R'))))
    return (A.build((nf, off._shape[0]), g, A.DF if s == 'R' else A.DC), tm.fresh('cnt', 'I'), tm.and_(tm.tob(lit(a.get('conv', True))), ok))


def tem_contract(I, a):
    E, off, time, freq = a['fEM'], A.arr(a['off']), A.arr(a['time']), A.arr(a['freq'])
    g = lambda t, j: fn('tem', mark(a['signal']), mark(a['ft']), mark(a['ftarg']), E.at(FS, j), freq.at(FS), time.at(t), sort='R')
    t, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
    if not A.deq(E._shape[1], off._shape[0]):
        raise Unsupported('offsets and columns of different number')
    ok = tm.all_(t, lit(0), lit(time._shape[0]), tm.all_(j, lit(0), lit(off._shape[0]), tm.le(0, fn('tem:ok', g(t, j), sort='R'))))
    return (A.build((time._shape[0], off._shape[0]), g, A.DF), tm.and_(tm.tob(lit(a.get('conv', True))), ok))


def inputs(I, N, aslist=None):
    p = {k: vec(I, k, N) for k in PAR}
    return p


# ------------------------------------------------------------------ C06, C10, C13, C16, C20: dipole
def unit_dipole(signal=None, laplace=False, hook=False, xdirect=False):
    def run(I):
        nf, N, ns, nr, nt = size(I, 'nf'), size(I, 'N'), size(I, 'nsrc'), size(I, 'nrec'), size(I, 'ntime')
        I.laplace = laplace
        I.warned, I.flags = [], []
        for x, n in ((LS, N), (FS, nf), (TS, nt)):
            I.assume(tm.and_(tm.le(0, x), tm.lt(x, n)))
        P = inputs(I, N)
        dep = vec(I, 'depth', N)
        req = vec(I, 'time', nt) if signal is not None else vec(I, 'freq', nf)
        src = [vec(I, 'xs', ns), vec(I, 'ys', ns), vec(I, 'zs', 1)]
        rec = [vec(I, 'xr', nr), vec(I, 'yr', nr), vec(I, 'zr', 1)]
        res = P['res']
        s = 'R' if laplace else 'C'
        hk = {}
        if hook:
            for k in ('etaH', 'etaV', 'zetaH', 'zetaV'):
                hk[k] = A.build((tm.unlit(nf), tm.unlit(N)), lambda i, l, k=k: fn('hook:'+k, i, l, sort=s), A.DF if laplace else A.DC)
            res = {'res': res}
            if hook in ('eta', 'both'):
                res['func_eta'] = lambda *a: (hk['etaH'], hk['etaV'])
            if hook in ('zeta', 'both'):
                res['func_zeta'] = lambda *a: (hk['zetaH'], hk['zetaV'])
        ht, ft = {'dlf': 'h'}, {'dlf': 'f'}
        ab = sym('ab', 'I')
        kw = dict(signal=signal, ab=ab, aniso=P['aniso'], epermH=P['epermH'], epermV=P['epermV'], mpermH=P['mpermH'], mpermV=P['mpermV'],
                  verb=sym('verb', 'I'), ht='dlf', htarg=ht, ft='qwe', ftarg=ft, xdirect=xdirect, loop=None, squeeze=False)
        out = I.call_body(I.module('model').dipole, [src, rec, dep, res, req], kw)
        v = vf.V(I)
        c = I.contracts
        # expected, from the contracts
        d, *m = c['utils.check_model'](I, dict(depth=dep, res=res, **{p: P[p] for p in PAR[1:]}, xdirect=xdirect, verb=0))
        fs = m[-1]
        mp = dict(zip(PAR, m))
        if signal is not None:
            time, freq, _, fta, sg = c['utils.check_time'](I, dict(time=req, signal=signal, ft='qwe', ftarg=ft))
        else:
            freq = req
        f, *eta = c['utils.check_frequency'](I, dict(freq=freq, **mp))
        eta = dict(zip(('etaH', 'etaV', 'zetaH', 'zetaV'), eta))
        if hook in ('eta', 'both'):
            eta['etaH'], eta['etaV'] = hk['etaH'], hk['etaV']
        if hook in ('zeta', 'both'):
            eta['zetaH'], eta['zetaV'] = hk['zetaH'], hk['zetaV']
        ab_c, ms, mr = c['utils.check_ab'](I, dict(ab=ab))
        xs = [fn(k, lit(0), sort='R') for k in ('zs', 'zr')]
        sc = [ab_c, xs[0], xs[1]] + [fn('layer', z, mark(d), sort='I') for z in xs]
        fl = [mark(xdirect), tb(fs), tb(ms), tb(mr), mark('dlf'), mark({'marker': 1, 'of': ht}), mark(d)]

        def femv(i, r, q):
            xy = [fn(k, e, sort='R') for k, e in (('xs', q), ('ys', q), ('xr', r), ('yr', r))]
            return fn('fem', *sc, *fl, fn('off', *xy, sort='R'), fn('ang', *xy, sort='R'), *[prof(eta[p], i) for p in ('etaH', 'etaV', 'zetaH', 'zetaV')], sort=s)
        if signal is None:
            v.array('entry [frequency, receiver, source]', out, (nf, nr, ns), femv)
        else:
            v.array('entry [time, receiver, source]', out, (nt, nr, ns),
                    lambda t, r, q: fn('tem', mark(sg), mark('qwe'), mark(fta), femv(FS, r, q), f.at(FS), time.at(t), sort='R'))
        warned(I, v, kw['verb'], ['Hankel'] + (['Fourier'] if signal is not None else []))
    n = 'model.dipole (%s%s%s%s)' % ('frequency' if signal is None else 'time, signal %r' % signal, ', Laplace' if laplace else '', ', hook '+hook if hook else '', ', xdirect=%s' % xdirect)
    N, nf = sym('N', 'I'), sym('nf', 'I')
    return vf.verify(n, run, {**PRINT, **utils_contracts(nf, N), 'model.fem': flagged('Hankel', fem_contract), 'model.tem': flagged('Fourier', tem_contract)}, {}, 90)


# ------------------------------------------------------------------ C16, C19: gpr
def dipole_contract(one):
    """contract of dipole (proved above), squeezed: entry [frequency, receiver, source] from its own frequency, receiver and source"""
    def f(I, a):
        a = dict(a)
        a.update(a.pop('kwargs', {}))
        if a.get('squeeze', True) is not True or a.get('signal') is not None:
            raise Unsupported('dipole called in another way')
        I.dipole_calls.append(a)
        fr, src, rec = A.arr(a['freqtime']), a['src'], a['rec']
        ks = [mark(a.get(k)) for k in ('depth', 'res', 'ab', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV', 'xdirect', 'ht', 'htarg', 'loop')]
        g = lambda i, r, q: fn('dipole', *ks, fr.at(i), src[0].at(q), src[1].at(q), src[2].at(lit(0)), rec[0].at(r), rec[1].at(r), rec[2].at(lit(0)), sort='C')
        sh = (fr._shape[0], A.arr(rec[0])._shape[0], A.arr(src[0])._shape[0])
        keep = (True, not one[0], not one[1])

        def el(*idx):
            it = iter(idx)
            return g(*[next(it) if k else lit(0) for k in keep])
        return A.build(tuple(d for d, k in zip(sh, keep) if k), el, A.DC)
    return f


def unit_gpr(one=(False, False), gain=False, opts=True):
    """entry [time, receiver, source] is the transform of the weighted frequency response of that receiver and source"""
    def run(I):
        I.dipole_calls, I.warned, I.flags = [], [], []
        nf, N, nt = size(I, 'nf'), size(I, 'N'), size(I, 'ntime')
        nr, ns = [lit(1) if o else size(I, n) for o, n in zip(one, ('nrec', 'nsrc'))]
        I.laplace = False
        for x, n in ((LS, N), (FS, nf), (TS, nt)):
            I.assume(tm.and_(tm.le(0, x), tm.lt(x, n)))
        for n in (nf, nt) + tuple(k for k, o in zip((nr, ns), one) if not o):
            I.assume(tm.le(2, n))
        P = inputs(I, N)
        dep, req = vec(I, 'depth', N), vec(I, 'time', nt)
        src = [vec(I, 'xs', ns), vec(I, 'ys', ns), vec(I, 'zs', 1)]
        rec = [vec(I, 'xr', nr), vec(I, 'yr', nr), vec(I, 'zr', 1)]
        cf, gn = sym('cf', 'R'), sym('gain', 'R') if gain else None
        I.assume(tm.lt(0, cf))
        ht, ft = {'dlf': 'h'}, {'dlf': 'f'}
        o = dict(ht='dlf', htarg=ht, ft='qwe', ftarg=ft, xdirect=True, loop='off') if opts else {}
        verb = sym('verb', 'I') if opts else 2
        kw = dict(gain=gn, ab=sym('ab', 'I'), aniso=P['aniso'], epermH=P['epermH'], epermV=P['epermV'], mpermH=P['mpermH'], mpermV=P['mpermV'], verb=verb, **o)
        out = I.call_body(I.module('model').gpr, [src, rec, dep, P['res'], req, cf], dict(kw))
        v = vf.V(I)
        o = {**dict(ht='quad', htarg={}, ft='fft', ftarg={}, xdirect=False, loop=None), **o}
        c = I.contracts
        time, freq, _, fta, _ = c['utils.check_time'](I, dict(time=req, signal=0, ft=o['ft'], ftarg=o['ftarg']))
        n0 = len(I.dipole_calls)
        D = dipole_contract((False, False))(I, dict(src=src, rec=rec, depth=dep, res=P['res'], freqtime=freq, ab=kw['ab'], **{p: P[p] for p in PAR[1:]}, **{k: o[k] for k in ('xdirect', 'ht', 'htarg', 'loop')}))
        if n0 == 1:
            v.eq('dipole is told the verbosity', I.dipole_calls[0].get('verb', 2), verb)
        prev = tm.ite(tm.cmp_eq(FS, 0), 0, freq.at(tm.add(FS, -1)))
        q = tm.neg(tm.mul(tm.div(prev, cf), tm.div(prev, cf)))
        wave = tm.mul(q, fn('exp', q, sort='R'))
        w = 1+npshim.NP['abs']((time*10**9)**gn) if gain else None
        val = lambda t, r, s: tm.mul(fn('tem', mark(0), mark(o['ft']), mark(fta), tm.mul(D.at(FS, r, s), wave), freq.at(FS), time.at(t), sort='R'), w.at(t) if gain else 1)
        keep = (True, not one[0], not one[1])

        def el(*idx):
            it = iter(idx)
            return val(*[next(it) if k else lit(0) for k in keep])
        v.array('entry [time, receiver, source]', out, tuple(d for d, k in zip((nt, nr, ns), keep) if k), el)
        warned(I, v, verb, ['Fourier'])
    N, nf = sym('N', 'I'), sym('nf', 'I')
    n = 'model.gpr (%s, %s%s%s)' % ('one receiver' if one[0] else 'receivers', 'one source' if one[1] else 'sources', ', gain' if gain else '', '' if opts else ', default options')
    return vf.verify(n, run, {**PRINT, **utils_contracts(nf, N), 'model.dipole': dipole_contract(one), 'model.tem': flagged('Fourier', tem_contract)}, {}, 60)


# ------------------------------------------------------------------ C07, C08, C16: analytical
class Geo:
    """common symbolic input of the dipole-like drivers"""

    def __init__(self, I, laplace=False, hook=False, one=False):
        self.nf, self.N, self.ns, self.nr, self.nt = (size(I, n) for n in ('nf', 'N', 'nsrc', 'nrec', 'ntime'))
        if one:
            self.ns = self.nr = lit(1)
        I.laplace = laplace
        for x, n in ((LS, self.N), (FS, self.nf), (TS, self.nt)):
            I.assume(tm.and_(tm.le(0, x), tm.lt(x, n)))
        self.P = inputs(I, self.N)
        self.dep = vec(I, 'depth', self.N)
        self.src = [vec(I, 'xs', self.ns), vec(I, 'ys', self.ns), vec(I, 'zs', 1)]
        self.rec = [vec(I, 'xr', self.nr), vec(I, 'yr', self.nr), vec(I, 'zr', 1)]
        self.s = 'R' if laplace else 'C'
        self.res, self.hk = self.P['res'], {}
        if hook:
            for k in ('etaH', 'etaV', 'zetaH', 'zetaV'):
                self.hk[k] = A.build((tm.unlit(self.nf), tm.unlit(self.N)), lambda i, l, k=k: fn('hook:'+k, i, l, sort=self.s), A.DF if laplace else A.DC)
            self.res = {'res': self.res}
            if hook in ('eta', 'both'):
                self.res['func_eta'] = lambda *a: (self.hk['etaH'], self.hk['etaV'])
            if hook in ('zeta', 'both'):
                self.res['func_zeta'] = lambda *a: (self.hk['zetaH'], self.hk['zetaV'])
        self.hook = hook
        self.zs, self.zr = fn('zs', lit(0), sort='R'), fn('zr', lit(0), sort='R')

    def offang(self, r, q):
        xy = [fn(k, e, sort='R') for k, e in (('xs', q), ('ys', q), ('xr', r), ('yr', r))]
        return fn('off', *xy, sort='R'), fn('ang', *xy, sort='R')

    def medium(self, I, freq, m):
        """expected (clamped frequencies, eta, zeta) from the contracts"""
        c = I.contracts
        f, *eta = c['utils.check_frequency'](I, dict(freq=freq, **m))
        eta = dict(zip(('etaH', 'etaV', 'zetaH', 'zetaV'), eta))
        if self.hook in ('eta', 'both'):
            eta['etaH'], eta['etaV'] = self.hk['etaH'], self.hk['etaV']
        if self.hook in ('zeta', 'both'):
            eta['zetaH'], eta['zetaV'] = self.hk['zetaH'], self.hk['zetaV']
        return f, eta


def halfspace_contract(I, a):
    off, ang = A.arr(a['off']), A.arr(a['angle'])
    ft = A.arr(a['freqtime'])
    if ft.ndim != 2 or not A.deq(ft._shape[1], 1):
        raise Unsupported('frequencies/times are not a column')
    sc = [tb(x.item() if isinstance(x, SArr) else x) for x in (a[p] for p in ('zsrc', 'zrec', 'ab'))]
    pr = [A.arr(a[p]) for p in ('etaH', 'etaV')]
    sol = a.get('solution', 'dhs')
    s = 'C' if a['signal'] is None and not I.laplace else 'R'
    one = lambda k: A.build((ft._shape[0], off._shape[0]), lambda i, j: fn('half:%s:%d' % (sol, k), *sc, mark(a['signal']), off.at(j), ang.at(j), ft.at(i, lit(0)), *[p.at(lit(0), lit(0)) for p in pr], sort=s),
                            A.DF if s == 'R' else A.DC)
    n = {'dsplit': 3, 'dtetm': 5}.get(sol)
    return tuple(one(k) for k in range(n)) if n else one(0)


def unit_analytical(solution='fs', signal=None, laplace=False, hook=False):
    def run(I):
        g = Geo(I, laplace, hook)
        I.assume(tm.cmp_eq(g.N, 1))
        req = vec(I, 'time', g.nt) if signal is not None else vec(I, 'freq', g.nf)
        if signal is None:
            k0, q = sym('k0', 'I'), tm.fresh('q', 'I')
            if laplace:
                I.assume(tm.all_(q, lit(0), g.nf, tm.le(fn('freq', q, sort='R'), 0)))
            else:
                I.assume(tm.and_(tm.le(0, k0), tm.lt(k0, g.nf), tm.lt(0, fn('freq', k0, sort='R'))))
        ab = sym('ab', 'I')
        P = g.P
        kw = dict(solution=solution, signal=signal, ab=ab, aniso=P['aniso'], epermH=P['epermH'], epermV=P['epermV'], mpermH=P['mpermH'], mpermV=P['mpermV'], verb=sym('verb', 'I'), squeeze=False)
        out = I.call_body(I.module('model').analytical, [g.src, g.rec, g.res, req], kw)
        v = vf.V(I)
        c = I.contracts
        d, *m = c['utils.check_model'](I, dict(depth=[], res=g.res, **{p: P[p] for p in PAR[1:]}, xdirect=True, verb=0))
        mp = dict(zip(PAR, m))
        if solution[0] == 'd':
            mp['epermH'], mp['epermV'] = 0*mp['epermH'], 0*mp['epermV']
        t = c['utils.check_time_only'](I, dict(time=req, signal=signal))[0] if signal is not None else req
        f, eta = g.medium(I, t, mp)
        ab_c, ms, mr = c['utils.check_ab'](I, dict(ab=ab))
        n = g.nt if signal is not None else g.nf
        if solution[0] == 'd':
            val = lambda i: t.at(i) if signal is not None else (f.at(i) if laplace else tm.mul(2, lit(1j), tm.PI, f.at(i)))
            s = 'C' if signal is None and not laplace else 'R'
            want = lambda k: lambda i, r, q: fn('half:%s:%d' % (solution, k), g.zs, g.zr, ab_c, mark(signal), *g.offang(r, q), val(i), eta['etaH'].at(lit(0), lit(0)), eta['etaV'].at(lit(0), lit(0)), sort=s)
            parts = {'dsplit': ('direct', 'reflection', 'airwave'), 'dtetm': ('direct TE', 'direct TM', 'reflection TE', 'reflection TM', 'airwave')}.get(solution)
            if parts:
                v.fact('%d parts' % len(parts), isinstance(out, (tuple, list)) and len(out) == len(parts), repr(out))
                for k, nm in enumerate(parts):
                    v.array('%s: entry [frequency/time, receiver, source]' % nm, out[k], (n, g.nr, g.ns), want(k))
            else:
                v.array('entry [frequency/time, receiver, source]', out, (n, g.nr, g.ns), want(0))
        else:
            v.array('entry [frequency, receiver, source]', out, (n, g.nr, g.ns), lambda i, r, q: tm.ite(tm.cmp_eq(ab_c, 36), lit(0), fn(
                'fullspace', g.zs, g.zr, ab_c, tb(ms), tb(mr), *g.offang(r, q), *[eta[p].at(i, lit(0)) for p in ('etaH', 'etaV', 'zetaH', 'zetaV')], sort=g.s)))
    N, nf = sym('N', 'I'), sym('nf', 'I')
    ct = {**PRINT, **utils_contracts(nf, N), 'kernel.fullspace': fullspace_contract, 'kernel.halfspace': halfspace_contract,
          'utils.check_solution': lambda I, a: None,
          'utils.check_time_only': lambda I, a: (A.build(A.arr(a['time'])._shape, lambda k: fn('clampt', A.arr(a['time']).at(k), sort='R'), A.DF), a['signal'])}
    return vf.verify('model.analytical (%s, signal %s%s%s)' % (solution, signal, ', Laplace' if laplace else '', ', hook '+hook if hook else ''), run, ct, {}, 90)


# ------------------------------------------------------------------ C22: dipole_k
def exists(ab):
    import kspec
    z = lit(1)
    return tuple(x is not None for x in kspec.jparts(ab, False, z, z, z))


def unit_dipole_k(ab_c, two_d=False, laplace=False):
    def run(I):
        g = Geo(I, laplace, one=two_d)
        nl, nw = size(I, 'nlambda'), size(I, 'nrows')
        if two_d:
            lam = A.build((tm.unlit(nw), tm.unlit(nl)), lambda i, j: fn('lambd', i, j, sort='R'), A.DF)
        else:
            lam = A.build((tm.unlit(nl),), lambda j: fn('lambd', lit(0), j, sort='R'), A.DF)
        vf.frame(I, 'wavenumber', lam)
        freq = vec(I, 'freq', g.nf)
        ms, mr = sym('msrc', 'B'), sym('mrec', 'B')
        I.contracts['utils.check_ab'] = lambda I, a: (ab_c, ms, mr)
        ex = exists(ab_c) if ab_c != 36 else None

        def wavenumber(I, a):
            la = A.arr(a['lambd'])
            if la.ndim != 2:
                raise Unsupported('wavenumbers are not two-dimensional')
            sc = [tb(x.item() if isinstance(x, SArr) else x) for x in (a[p] for p in ('zsrc', 'zrec', 'lsrc', 'lrec', 'ab', 'xdirect', 'msrc', 'mrec'))]
            pr = [a[p] for p in ('etaH', 'etaV', 'zetaH', 'zetaV')]
            d = mark(a['depth'])
            s = 'R' if laplace else 'C'
            one = lambda k: A.build((pr[0]._shape[0], la._shape[0], la._shape[1]), lambda i, ii, iv: fn('P%d' % k, *sc, d, la.at(ii, iv), *[prof(p, i) for p in pr], sort=s), A.DF if s == 'R' else A.DC)
            return tuple(one(k) if ex[k] else None for k in range(3))
        I.contracts['kernel.wavenumber'] = wavenumber
        P = g.P
        kw = dict(ab=sym('ab', 'I'), aniso=P['aniso'], epermH=P['epermH'], epermV=P['epermV'], mpermH=P['mpermH'], mpermV=P['mpermV'], verb=sym('verb', 'I'))
        out = I.call_body(I.module('model').dipole_k, [g.src, g.rec, g.dep, g.res, freq, lam], kw)
        v = vf.V(I)
        v.fact('two results', isinstance(out, tuple) and len(out) == 2, repr(out))
        c = I.contracts
        d, *m = c['utils.check_model'](I, dict(depth=g.dep, res=g.res, **{p: P[p] for p in PAR[1:]}, xdirect=False, verb=0))
        f, eta = g.medium(I, freq, dict(zip(PAR, m)))
        sc = [g.zs, g.zr, fn('layer', g.zs, mark(d), sort='I'), fn('layer', g.zr, mark(d), sort='I'), lit(ab_c), lit(0), tb(ms), tb(mr)]

        def ker(k, i, ii, iv):
            return fn('P%d' % k, *sc, mark(d), fn('lambd', ii, iv, sort='R'), *[prof(eta[p], i) for p in ('etaH', 'etaV', 'zetaH', 'zetaV')], sort=g.s)

        def parts(i, j, iv):
            s_, r_ = I.divmod_sym(j, g.nr)
            off, ang = g.offang(r_, s_)
            af = fn('angfact', ang, lit(ab_c), tb(ms), tb(mr), sort='R')
            row = j if two_d else lit(0)
            if two_d:
                off, ang = g.offang(lit(0), lit(0))
                af = fn('angfact', ang, lit(ab_c), tb(ms), tb(mr), sort='R')
            if ab_c == 36:
                return lit(0), lit(0)
            p0 = tm.add(ker(0, i, row, iv) if ex[0] else 0, tm.mul(af, ker(2, i, row, iv)) if ex[2] else 0)
            p1 = tm.mul(af, ker(1, i, row, iv)) if ex[1] else lit(0)
            if ab_c in (11, 12, 21, 22, 14, 24, 15, 25):
                p1 = tm.div(p1, off)
            return p0, p1
        shp = (tm.unlit(g.nf), tm.unlit(nw) if two_d else tm.unlit(tm.mul(g.ns, g.nr)), tm.unlit(nl))
        for k, nm in enumerate(('J0', 'J1')):
            # the length-one axes are dropped from the result
            keep = [i for i, x in enumerate(shp) if not I.decide_dim1(x)]

            def want(*idx, k=k):
                full = [lit(0)]*3
                for a, i in zip(keep, idx):
                    full[a] = i
                return parts(*full)[k]
            v.array('kernel of %s: entry [frequency, offset, wavenumber]' % nm, out[k], tuple(shp[a] for a in keep), want)
    N, nf = sym('N', 'I'), sym('nf', 'I')
    ct = {**PRINT, **utils_contracts(nf, N), 'kernel.angle_factor': angle_contract}
    return vf.verify('model.dipole_k (component %d%s%s)' % (ab_c, ', one wavenumber set per offset' if two_d else '', ', Laplace' if laplace else ''), run, ct, {}, 120)


# ------------------------------------------------------------------ C26: ip_and_q
def driver_contract(name):
    """a modelling routine as a function of the contents of its (named) arguments"""
    def f(I, a):
        a = dict(a)
        kw = a.pop('kwargs', None)
        if isinstance(kw, dict):
            a.update(kw)
        a.pop('verb', None)
        keys = sorted(k for k, x in a.items() if x is not None or k == 'xdirect')
        g = lambda i, r, q: fn(name, *[x for k in keys for x in (fn('key:'+k, sort='R'), mark(a[k]))], i, r, q)
        out = A.build((sym('nf', 'I'), sym('nrec', 'I'), sym('nsrc', 'I')), g, A.DC)
        return out
    return f


def unit_ip_and_q(ab, given=()):
    """given: optional keyword arguments present"""
    def run(I):
        for n in ('nf', 'nrec', 'nsrc', 'N'):
            size(I, n)
        I.assume(tm.and_(tm.le(0, LS), tm.lt(LS, sym('N', 'I'))))
        N = sym('N', 'I')
        src = [vec(I, n, sym('nsrc', 'I')) for n in ('xs', 'ys')]+[vec(I, 'zs', 1)]
        rec = [vec(I, n, sym('nrec', 'I')) for n in ('xr', 'yr')]+[vec(I, 'zr', 1)]
        kw = dict(src=src, rec=rec, depth=vec(I, 'depth', N), res=vec(I, 'res', N), freqtime=vec(I, 'freq', sym('nf', 'I')), ab=ab)
        for k in given:
            kw[k] = {'scale': sym('scale', 'R'), 'verb': sym('verb', 'I'), 'htarg': {'pts_per_dec': 3}, 'signal': None, 'xdirect': True}.get(k, None) if k in ('scale', 'verb', 'htarg', 'signal', 'xdirect') else vec(I, k, N)
        orig = dict(kw)
        v = vf.V(I)
        I.assume(tm.le(sym('verb', 'I'), 5))
        f = I.module('model').ip_and_q
        out = I.call_body(f, [], kw)
        v.fact('two results', isinstance(out, tuple) and len(out) == 2, repr(out))
        dip = driver_contract('dipole')
        base = {k: x for k, x in orig.items() if k != 'scale'}
        Hs = dip(I, {**base, 'xdirect': None})
        new = {**base, 'ab': {4: 44, 5: 55, 6: 66}[ab % 10], 'depth': [], 'xdirect': True}
        for k in PAR:
            if k in new:
                new[k] = A.arr(orig[k]).at(lit(0))
        Hp = dip(I, new)
        sc = orig.get('scale', 1000)
        H = lambda *i: tm.div(tm.mul(sc, Hs.at(*i)), Hp.at(*i))
        shp = tuple(Hs.shape)
        v.array('in-phase: real part of scale * secondary / primary', out[0], shp, lambda *i: tm.re_(H(*i)))
        v.array('quadrature: imaginary part of scale * secondary / primary', out[1], shp, lambda *i: tm.im_(H(*i)))
    return vf.verify('model.ip_and_q (ab=%d%s)' % (ab, ', with '+'/'.join(given) if given else ''), run, {**PRINT, 'model.dipole': driver_contract('dipole')}, {}, 60)


def unit_ip_and_q_refused():
    def run(I):
        ab = sym('ab', 'I')
        I.assume(tm.and_(*[tm.not_(tm.cmp_eq(ab, k)) for k in (44, 45, 46, 54, 55, 56, 64, 65, 66)]))
        expect_raise(I, 'other components are refused', lambda: I.call_body(I.module('model').ip_and_q, [], dict(ab=ab, src=[0, 0, 0], rec=[1, 0, 0], depth=[], res=1, freqtime=1)), ValueError)
    return vf.verify('model.ip_and_q (refused components)', run, PRINT, {}, 60)


if __name__ == '__main__':
    main(globals())
