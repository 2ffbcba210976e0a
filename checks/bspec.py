"""Contracts of empymod.model.bipole and of the geometry routines it relies on (C14-C17)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym
from pv.arrays import SArr
from pv import verify as vf, npshim
from pv.interp import PyRaise, Obligation
from pv.terms import Unsupported
from uspec import vec, size, setglob, PRINT, main, expect_raise, iff
from mspec import LS, FS, TS, PAR, Geo, mark, tb, prof, utils_contracts, fem_contract, tem_contract, inputs

ETA = ('etaH', 'etaV', 'zetaH', 'zetaV')


class Poles:
    """n bipoles (or dipoles) of one kind: coordinates x, y, z of integration point
    g of pole k, angles, weights; nz = '1' (all at the same depth(s)) or 'n'."""

    def __init__(self, I, name, nz, mx, xtype):
        self.I, self.name, self.many, self.mx, self.xtype = I, name, nz == 'n', mx, xtype
        self.n = size(I, 'n'+name)
        if self.many:
            I.assume(tm.le(2, self.n))
        self.isdip = sym('isdip:'+name, 'B')
        self.pts = sym(name+'pts', 'I')         # requested number of points
        self.ip = size(I, name+'points')        # number of points used
        self.inp = [name+':%d' % k for k in range(6)]

    def q(self, nm, *a):
        return fn('%s:%s' % (nm, self.name), *a, sort='R')

    # the contract functions
    def check(self, I, a):
        return (self.inp, tm.unlit(self.n), tm.unlit(self.n) if self.many else 1, self.isdip, self.mx, self.xtype)

    def pole(self, iz):
        """number of the pole g-th in group iz"""
        return (lambda q: lit(iz)) if self.many else (lambda q: q)

    def azm_dip(self, I, a):
        if a['inp'] is not self.inp or a['name'] != self.name:
            raise Unsupported('get_azm_dip: poles of the other kind')
        if not any(a['intpts'] is x or lit(a['intpts']) is lit(x) for x in (self.pts, self.ip)):
            raise Unsupported('get_azm_dip: number of points')
        if lit(a['isdipole']) is not self.isdip or not A.deq(a['ninpz'], self.n if self.many else 1):
            raise Unsupported('get_azm_dip: kind')
        ng = lit(1) if self.many else self.n
        k = self.pole(a['iz'])
        two = lambda nm: A.build((tm.unlit(tm.mul(ng, self.ip)),), lambda j: (lambda qr: self.q(nm, k(qr[0]), qr[1]))(I.divmod_sym(j, self.ip)), A.DF)
        kz = lit(a['iz']) if self.many else lit(0)
        z = A.build((tm.unlit(self.ip),), lambda g: self.q('z', kz, g), A.DF)
        one = lambda nm: A.build((tm.unlit(ng),), lambda q: self.q(nm, k(q)), A.DF)
        st = mark(a['strength'])
        w = A.build((tm.unlit(ng),), lambda q: self.q('w', st, k(q)), A.DF)
        gw = A.build((tm.unlit(self.ip),), lambda g: self.q('gw', g), A.DF)
        return ([two('x'), two('y'), z], one('azm'), one('dip'), gw, tm.unlit(self.ip), w)


def bipole_contracts(I, src, rec):
    def chk(I, a):
        p = {'src': src, 'rec': rec}[a['name']]
        if lit(a['mx']) is not lit(p.arg) if not isinstance(a['mx'], str) else a['mx'] != p.arg:
            raise Unsupported('check_bipole: kind')
        return p.check(I, a)

    def azm(I, a):
        return {'src': src, 'rec': rec}[a['name']].azm_dip(I, a)

    def get_abs(I, a):
        g = [A.arr(a[k]) for k in ('srcazm', 'srcdip', 'recazm', 'recdip')]
        m = [x.at(LS) for x in g]+[tb(a['msrc']), tb(a['mrec'])]
        n = fn('nab', *m, sort='I')
        I.assume(tm.le(0, n))
        return A.build((n,), lambda k: fn('absel', k, *m, sort='I'), A.DI)

    def geo(I, a):
        sa, sd, ra, rd = [A.arr(a[k]) for k in ('srcazm', 'srcdip', 'recazm', 'recdip')]
        fl = [tb(a['msrc']), tb(a['mrec'])]
        ab = lit(a['ab'])
        return A.build((ra._shape[0], sa._shape[0]), lambda r, s: fn('geo', ab, sa.at(s), sd.at(s), ra.at(r), rd.at(r), *fl, sort='R'), A.DF)
    I.contracts.update({'utils.check_bipole': chk, 'utils.get_azm_dip': azm, 'utils.get_abs': get_abs, 'utils.get_geo_fact': geo})


def unit_bipole(zs='1', zr='1', stype=None, rtype=None, signal=None, laplace=False):
    def run(I):
        nf, N, nt = size(I, 'nf'), size(I, 'N'), size(I, 'ntime')
        I.laplace = laplace
        for x, n in ((LS, N), (FS, nf), (TS, nt)):
            I.assume(tm.and_(tm.le(0, x), tm.lt(x, n)))
        P = inputs(I, N)
        dep = vec(I, 'depth', N)
        req = vec(I, 'time', nt) if signal is not None else vec(I, 'freq', nf)
        s = 'R' if laplace else 'C'
        src = Poles(I, 'src', zs, True if stype else sym('msrc', 'B'), stype)
        rec = Poles(I, 'rec', zr, {'b': True, 'j': False, None: sym('mrec', 'B')}[rtype], rtype)
        src.arg, rec.arg = stype or src.mx, rtype or rec.mx
        bipole_contracts(I, src, rec)
        st = sym('strength', 'R')
        ht, ft = {'dlf': 'h'}, {'dlf': 'f'}
        kw = dict(signal=signal, aniso=P['aniso'], epermH=P['epermH'], epermV=P['epermV'], mpermH=P['mpermH'], mpermV=P['mpermV'], msrc=src.arg, mrec=rec.arg,
                  srcpts=src.pts, recpts=rec.pts, strength=st,
                  verb=sym('verb', 'I'), ht='dlf', htarg=ht, ft='qwe', ftarg=ft, xdirect=False, loop=None, squeeze=False)
        out = I.call_body(I.module('model').bipole, ['SRC', 'REC', dep, P['res'], req], kw)
        v = vf.V(I)
        c = I.contracts
        d, *m = c['utils.check_model'](I, dict(depth=dep, res=P['res'], **{p: P[p] for p in PAR[1:]}, xdirect=False, verb=0))
        fs = m[-1]
        if signal is not None:
            time, freq, _, fta, sg = c['utils.check_time'](I, dict(time=req, signal=signal, ft='qwe', ftarg=ft))
        else:
            freq = req
        f, *eta = c['utils.check_frequency'](I, dict(freq=freq, **dict(zip(PAR, m))))
        eta = dict(zip(ETA, eta))
        fl = [mark(False), tb(fs), tb(src.mx), tb(rec.mx), mark('dlf'), mark({'marker': 1, 'of': ht}), mark(d)]

        def entry(i, r, q):
            """response of receiver r to source q at frequency i: weighted sum over all integration points and components"""
            kz = lambda p, k: k if p.many else lit(0)
            gen = lambda p, k: k if p.many else LS
            ang = [src.q('azm', q), src.q('dip', q), rec.q('azm', r), rec.q('dip', r)]
            mm = [src.q('azm', gen(src, q)), src.q('dip', gen(src, q)), rec.q('azm', gen(rec, r)), rec.q('dip', gen(rec, r)), tb(src.mx), tb(rec.mx)]

            def one(gs, gr):
                zz = [src.q('z', kz(src, q), gs), rec.q('z', kz(rec, r), gr)]
                lay = [fn('layer', z, mark(d), sort='I') for z in zz]
                xy = [p.q(k, e, g) for p, e, g in ((src, q, gs), (rec, r, gr)) for k in ('x', 'y')]
                t = A.gen_sum(fn('nab', *mm, sort='I'), lambda a: (lambda ab: tm.mul(
                    fn('fem', ab, *zz, *lay, *fl, fn('off', *xy, sort='R'), fn('ang', *xy, sort='R'), *[prof(eta[p], i) for p in ETA], sort=s),
                    fn('geo', ab, *ang, tb(src.mx), tb(rec.mx), sort='R')))(fn('absel', a, *mm, sort='I')))
                med = lit(1)
                if rtype:
                    med = eta['etaH' if rtype == 'j' else 'zetaH'].at(i, lay[1])
                if stype:
                    med = tm.mul(med, eta['zetaH'].at(i, lay[0]))
                return tm.mul(src.q('gw', gs), rec.q('gw', gr), med, t)
            tot = A.gen_sum(src.ip, lambda gs: A.gen_sum(rec.ip, lambda gr: one(gs, gr)))
            return tm.mul(tm.ite(tm.cmp_eq(st, 0), lit(1), tm.mul(src.q('w', st, q), rec.q('w', st, r))), tot)
        if signal is None:
            v.array('entry [frequency, receiver, source] is the weighted sum over the integration points and components', out, (nf, rec.n, src.n), entry)
        else:
            v.array('entry [time, receiver, source] is the transform of that sum', out, (nt, rec.n, src.n),
                    lambda t, r, q: fn('tem', mark(sg), mark('qwe'), mark(fta), entry(FS, r, q), f.at(FS), time.at(t), sort='R'))
    N, nf = sym('N', 'I'), sym('nf', 'I')
    n = 'model.bipole (%s; source depths: %s, receiver depths: %s; source %s, receiver %s%s)' % (
        'frequency' if signal is None else 'time, signal %r' % signal, {'1': 'one', 'n': 'many'}[zs], {'1': 'one', 'n': 'many'}[zr], stype, rtype, ', Laplace' if laplace else '')
    return vf.verify(n, run, {**PRINT, **utils_contracts(nf, N), 'model.fem': fem_contract, 'model.tem': tem_contract}, {}, 150)


# ------------------------------------------------------------------ C14: weights and needed components
def direction(axis, azm, dip):
    """component 1..3 (x, y, z) of the unit vector with this azimuth and dip"""
    c, s = (lambda t: fn('cos', t, sort='R')), (lambda t: fn('sin', t, sort='R'))
    return {1: lambda: tm.mul(c(azm), c(dip)), 2: lambda: tm.mul(s(azm), c(dip)), 3: lambda: s(dip)}[axis]()


def unit_geo_fact(ab, msrc, mrec):
    def run(I):
        ns, nr, m = size(I, 'nsrc'), size(I, 'nrec'), sym('min_angle', 'R')
        I.assume(tm.lt(0, m))
        setglob(I, 'utils', '_min_angle', m)
        A_ = [vec(I, n, k) for n, k in (('sazm', ns), ('sdip', ns), ('razm', nr), ('rdip', nr))]
        out = I.call_body(I.module('utils').get_geo_fact, [ab]+A_+[msrc, mrec], {})
        v = vf.V(I)
        s, r = ab % 10, ab // 10
        if mrec and not msrc:
            s, r = r, s                    # such codes are the transposed ones
        ax = lambda k: (k-1) % 3+1

        def want(i, j):
            w = tm.mul(direction(ax(r), fn('razm', i, sort='R'), fn('rdip', i, sort='R')), direction(ax(s), fn('sazm', j, sort='R'), fn('sdip', j, sort='R')))
            return tm.ite(tm.lt(tm.abs_(w), m), lit(0), w)
        v.array('weight = direction cosine of the receiver times that of the source (zero below the threshold)', out, (nr, ns), want)
    return vf.verify('utils.get_geo_fact (component %d, msrc=%s, mrec=%s)' % (ab, msrc, mrec), run, PRINT, {}, 60)


def family(msrc, mrec):
    """codes for source axis s and receiver axis r, as computed by get_abs' callers"""
    d = {}
    for s in (1, 2, 3):
        for r in (1, 2, 3):
            if msrc and mrec:
                d[s, r] = 10*r+s
            elif mrec:
                d[s, r] = 10*s+r+3
            else:
                d[s, r] = 10*r+s+(3 if msrc else 0)
    return d


def unit_get_abs(msrc, mrec, one=False):
    def run(I):
        ns, nr = (lit(1), lit(1)) if one else (size(I, 'nsrc'), size(I, 'nrec'))
        A_ = [vec(I, n, k) for n, k in (('sazm', ns), ('sdip', ns), ('razm', nr), ('rdip', nr))]
        out = I.call_body(I.module('utils').get_abs, [msrc, mrec]+A_+[0], {})
        v = vf.V(I)
        if not isinstance(out, SArr) or out.ndim != 1 or not out.concrete():
            raise Unsupported('list of components')
        got = [A.as_int(out.at(*i)) for i in out.indices()]
        fam = family(msrc, mrec)
        v.fact('components of this pair of fields, each once', len(set(got)) == len(got) and set(got) <= set(fam.values()), repr(got))
        hp = tm.mul(tm.PI, tm.inv(2))
        I.assumed.add('sin is within 1e-8 of zero next to an even multiple of pi/2, cos next to an odd one')

        def near(t, odd):
            """t exceeds an even (odd) multiple of pi/2 by at most 1e-8"""
            k = tm.floordiv(t, hp)
            return tm.and_(tm.le(tm.abs_(tm.mod(t, hp)), tm.flit(1e-8)), tm.le(tm.abs_(tm.add(tm.mod(k, lit(2)), -1 if odd else 0)), tm.add(tm.flit(1e-8), tm.flit(1e-5) if odd else 0)))

        def tiny(e, axis, k):
            azm, dip = fn(e+'azm', k, sort='R'), fn(e+'dip', k, sort='R')
            if axis == 3:
                return near(dip, False)
            return tm.or_(near(dip, True), near(azm, axis == 1))
        for (s, r), code in fam.items():
            if code in got:
                continue
            c = []
            for e, ax, n in (('s', s, ns), ('r', r, nr)):
                q = tm.fresh('q', 'I')
                c.append(lambda q, e=e, ax=ax: tiny(e, ax, q))
            ok = False
            for e, f, n in (('source', c[0], ns), ('receiver', c[1], nr)):
                q = tm.fresh('q', 'I')
                I.ctx.push()
                I.ctx.add(tm.and_(tm.le(0, q), tm.lt(q, n)))
                good = I.ctx.entails(f(q))
                I.ctx.pop()
                if good:
                    ok = True
                    break
            if ok:
                I.obls.append(Obligation('component %d dropped: its direction cosine vanishes' % code, 'proved', '', 'z3'))
            else:
                q = tm.fresh('q', 'I')
                I.assume(tm.and_(tm.le(0, q), tm.lt(q, ns)))
                p = tm.fresh('q', 'I')
                I.assume(tm.and_(tm.le(0, p), tm.lt(p, nr)))
                v.true('component %d dropped: its direction cosine vanishes' % code, tm.or_(c[0](q), c[1](p)))
    return vf.verify('utils.get_abs (msrc=%s, mrec=%s%s)' % (msrc, mrec, ', one source and receiver' if one else ''), run, PRINT, {}, 100)


# ------------------------------------------------------------------ C15: integration points
def unit_azm_dip(nz='1', isdip=False, pts='many', name='src', zero=False):
    """nz: '1' one depth (group of all poles), 'n' one pole out of many depths"""
    def run(I):
        n, m = size(I, 'n'), sym('min_off', 'R')
        I.assume(tm.lt(0, m))
        setglob(I, 'utils', '_min_off', m)
        many = nz == 'n'
        if many:
            I.assume(tm.le(2, n))
        nzz = n if many else lit(1)
        names = ('x', 'y', 'z', 'azm', 'dip') if isdip else ('x0', 'x1', 'y0', 'y1', 'z0', 'z1')
        lens = {'z': nzz, 'z0': nzz, 'z1': nzz}
        P = [vec(I, k, lens.get(k, n)) for k in names]
        p = lambda k: (lambda q: fn(k, q if many or k[0] != 'z' else lit(0), sort='R'))
        iz, ip, st = sym('iz', 'I'), sym('intpts', 'I'), sym('strength', 'R')
        I.assume(tm.and_(tm.le(0, iz), tm.lt(iz, nzz)))
        if not isdip:
            I.assume(tm.lt(2, ip) if pts == 'many' else tm.le(ip, 2))
        I.assume(tm.cmp_eq(st, 0) if zero else tm.not_(tm.cmp_eq(st, 0)))
        out = I.call_body(I.module('utils').get_azm_dip, [P, iz if many else 0, tm.unlit(nzz), ip, isdip, st, name, sym('verb', 'I')], {})
        v = vf.V(I)
        v.fact('six results', isinstance(out, tuple) and len(out) == 6, repr(out))
        tout, azm, dip, gw, npt, w = out
        npt = npt.item() if isinstance(npt, SArr) else lit(npt)
        ng = lit(1) if many else n
        k = (lambda q: iz) if many else (lambda q: q)
        if isdip:
            v.eq('one point', npt, lit(1))
            rad = lambda t: tm.mul(t, tm.PI, tm.inv(180))
            v.array('azimuth in radians', azm, (ng,), lambda q: rad(p('azm')(k(q))))
            v.array('dip in radians', dip, (ng,), lambda q: rad(p('dip')(k(q))))
            for nm, o in zip('xy', tout):
                v.array(nm+' of the dipole', o, (ng,), lambda q, nm=nm: p(nm)(k(q)))
            v.array('z of the dipole', tout[2], (lit(1),), lambda q: p('z')(iz if many else lit(0)))
            v.eq('weight of the point', gw.at(lit(0)), lit(1))
            v.array('strength', w, (ng,), lambda q: st if name == 'src' and not zero else lit(1))
            return
        d = lambda a: lambda q: tm.add(p(a+'1')(k(q)), tm.neg(p(a+'0')(k(q))))
        ctr = lambda a: lambda q: tm.add(p(a+'0')(k(q)), tm.mul(d(a)(q), tm.inv(2)))
        dl = lambda q: tm.sqrt_(tm.add(*[tm.mul(d(a)(q), d(a)(q)) for a in 'xyz']))
        wa = lambda q: fn('arctan2', d('y')(q), d('x')(q), sort='R')
        wd = lambda q: tm.add(tm.mul(tm.PI, tm.inv(2)), tm.neg(fn('arccos', tm.div(d('z')(q), dl(q)), sort='R')))
        v.array('azimuth of the wire', azm, (ng,), wa)
        v.array('dip of the wire', dip, (ng,), wd)
        nd = fn('trunc', fn('round', npshim.log10(tm.div(1, m)), lit(0), sort='R'), sort='I')
        rnd = lambda t: fn('round', t, nd, sort='R')
        if pts == 'many':
            v.eq('number of points', npt, ip)
            v.array('weights: half the Gauss-Legendre weights', gw, (ip,), lambda g: tm.mul(fn('legendre_w', ip, g, sort='R'), tm.inv(2)))
            half = lambda q, g: tm.mul(fn('legendre_x', ip, g, sort='R'), tm.inv(2), dl(q))
            c, s = (lambda t: fn('cos', t, sort='R')), (lambda t: fn('sin', t, sort='R'))
            dirs = {'x': lambda q: tm.mul(c(wd(q)), c(wa(q))), 'y': lambda q: tm.mul(c(wd(q)), s(wa(q))), 'z': lambda q: s(wd(q))}
            I.assumed.add('cos/sin of arctan2 and arccos: a wire of length dl and direction (azm, dip) ends dl*(cos dip cos azm, cos dip sin azm, sin dip) from its start')
            pt = lambda a: lambda q, g: rnd(tm.add(ctr(a)(q), tm.mul(half(q, g), dirs[a](q))))
            for a, o in zip('xy', tout):
                v.array(a+' of the integration points: Gauss-Legendre nodes on the wire', o, (tm.mul(ng, ip),), lambda j, a=a: (lambda qr: pt(a)(*qr))(I.divmod_sym(j, ip)))
            v.array('z of the integration points', tout[2], (ip,), lambda g: pt('z')(lit(0), g))
        else:
            v.eq('one point', npt, lit(1))
            v.array('weight', gw, (lit(1),), lambda g: lit(1))
            for a, o in zip('xyz', tout):
                v.array(a+' of the centre', o, (lit(1) if a == 'z' else ng,), lambda q, a=a: rnd(ctr(a)(q)))
        v.array('length (and current)', w, (ng,), lambda q: lit(1) if zero else (tm.mul(st, dl(q)) if name == 'src' else dl(q)))
    return vf.verify('utils.get_azm_dip (%s, %s depth%s, %s%s)' % ('dipoles' if isdip else 'bipoles', 'one' if nz == '1' else 'many', 's' if nz == 'n' else '',
                     name, ', strength 0' if zero else '') + ('' if isdip else ', %s point%s' % ('one' if pts != 'many' else 'several', 's' if pts == 'many' else '')), run, PRINT, {}, 60)


if __name__ == '__main__':
    main(globals())
