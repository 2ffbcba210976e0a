"""Contracts of the layered-earth kernel (wavenumber, greenfct, reflections, fields).

Specification functions (of layer l; i frequency, ii offset, iv wavenumber):
  r+(l)  = (e(l+1) G(l) - e(l) G(l+1)) / (e(l+1) G(l) + e(l) G(l+1))
  R+(N-1) = 0,  R+(l) = (r+(l) + R+(l+1) E2(l+1)) / (1 + r+(l) R+(l+1) E2(l+1))
  r-, R- mirrored with R-(0) = 0;   E2(l) = exp(-2 G(l) (depth[l+1]-depth[l]))
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, exp_, INF
from pv.arrays import SArr
from pv import verify as vf
from pv.interp import PyRaise
from pv.terms import Unsupported


class World:
    """Symbolic sizes, layer stack, source and receiver."""

    def __init__(self, I, N=None, minlayers=1):
        self.I = I
        self.nf, self.no, self.nl = sym('nf', 'I'), sym('no', 'I'), sym('nl', 'I')
        self.N = sym('N', 'I') if N is None else lit(N)
        for d in (self.nf, self.no, self.nl):
            I.assume(tm.le(1, d))
        if N is None:
            I.assume(tm.le(minlayers, self.N))

    def layer(self, name):
        l = sym(name, 'I')
        self.I.assume(tm.le(0, l))
        self.I.assume(tm.lt(l, self.N))
        return l

    def depthf(self, k):
        k = lit(k)
        return tm.ite(tm.le(k, 0), tm.neg(INF), fn('depth', k, sort='R'))

    def depth(self):
        d = A.build((tm.unlit(self.N),), self.depthf, A.DF)
        vf.frame(self.I, 'depth', d)
        return d

    def arr(self, name, shape, f=None, dt=A.DC):
        a = A.build(tuple(tm.unlit(lit(s)) for s in shape), f or (lambda *k: fn(name, *k, sort='R' if dt is A.DF else 'C')), dt)
        vf.frame(self.I, name, a)
        return a

    def h(self, l):
        return tm.add(self.depthf(tm.add(l, 1)), tm.neg(self.depthf(l)))


class Refl:
    """R+ and R- of one mode: e(i,l) and G(i,ii,l,iv) are term functions."""

    def __init__(self, w, tag, e, G):
        self.w, self.tag, self.e, self.G = w, tag, e, G

    def R(self, pm, i, ii, l, iv):
        return fn('R+' if pm > 0 else 'R-', self.tag, i, ii, l, iv)

    def E2(self, i, ii, l, iv):
        return exp_(-2*self.G(i, ii, l, iv)*self.w.h(l))

    def r(self, pm, i, ii, l, iv):
        e, G = self.e, self.G
        m = tm.add(l, pm)
        a, b = e(i, m)*G(i, ii, l, iv), e(i, l)*G(i, ii, m, iv)
        return (a-b)/(a+b)

    def unfold(self, t, ctx):
        if t.op != 'f' or t.args[0] not in ('R+', 'R-') or t.args[1] != self.tag:
            return None
        pm = 1 if t.args[0] == 'R+' else -1
        i, ii, l, iv = t.args[2:]
        end = tm.cmp_eq(l, tm.add(self.w.N, -1) if pm > 0 else lit(0))
        d = ctx.decide(end)
        if d is None:
            return None
        if d:
            return lit(0)
        m = tm.add(l, pm)
        r = self.r(pm, i, ii, l, iv)
        x = self.R(pm, i, ii, m, iv)*self.E2(i, ii, m, iv)
        # the interface value of the outermost layer: exp(-2 G inf) is never used (R = 0 there)
        if ctx.decide(tm.cmp_eq(m, tm.add(self.w.N, -1) if pm > 0 else lit(0))):
            return r
        return (r+x)/(1+r*x)


class ReflLoop:
    """Loop contract of the layer loop in `reflections` (rule I)."""

    def __init__(self, w, refl, lrec, lsrc):
        self.w, self.refl = w, refl
        self.maxl = tm.ite(tm.le(lrec, lsrc), lsrc, lrec)
        self.minl = tm.ite(tm.le(lrec, lsrc), lrec, lsrc)

    def unfold(self, t, ctx):
        return self.refl.unfold(t, ctx)

    def direction(self, st):
        return -1 if lit(st.elem(lit(1)) - st.elem(lit(0))) is lit(1) else 1

    def anchors(self, pm):
        """slot s of the result holds layer s + anchor"""
        w = self.w
        if pm > 0:
            first = tm.min_(self.maxl, tm.add(w.N, -2))
            al = (self.minl, tm.add(self.minl, first, tm.neg(self.maxl)))
        else:
            first = tm.max_(self.minl, lit(1))
            al = (self.minl, first)
        return first, [tm.add(a, c) for c in (0, 1, -1) for a in al]

    def scalar(self, I, name, val, st, pre):
        yield lambda k: val
        if isinstance(val, (int, tm.T)):
            pm = self.direction(st)
            iz = lambda k: lit(st.elem(tm.add(k, -1)))
            first, al = self.anchors(pm)
            for a in al:
                c = (lambda k: tm.le(iz(k), self.maxl)) if pm > 0 else (lambda k: tm.le(self.minl, iz(k)))
                yield lambda k, a=a, c=c: tm.add(tm.ite(c(k), tm.add(iz(k), -pm), first), tm.neg(a))

    def array(self, I, name, arr, st, pre=None):
        w, R = self.w, self.refl
        pm = self.direction(st)
        iz = lambda k: lit(st.elem(tm.add(k, -1)))
        if arr.ndim == 3:
            for p in (pm, -pm):
                yield lambda k, p=p: A.build(arr._shape, lambda i, ii, iv: R.R(p, i, ii, iz(k), iv), arr.dtype)
                yield lambda k, p=p: A.build(arr._shape, lambda i, ii, iv: R.r(p, i, ii, iz(k), iv), arr.dtype)
        if arr.ndim == 4:
            first, al = self.anchors(pm)
            for a in al:
                inside = (lambda k, l: tm.and_(tm.le(iz(k), l), tm.le(l, first))) if pm > 0 else (lambda k, l: tm.and_(tm.le(first, l), tm.le(l, iz(k))))
                yield lambda k, a=a: A.build(arr._shape, lambda i, ii, s, iv: tm.ite(
                    inside(k, tm.add(a, s)), R.R(pm, i, ii, tm.add(a, s), iv), lit(0)), arr.dtype)


def cases(I, w, lrec, lsrc):
    """case analysis on the relative position of source and receiver layer"""
    if not I.decide(tm.cmp_eq(lrec, lsrc)):
        I.decide(tm.lt(lrec, lsrc))
    I.decide(tm.cmp_eq(lsrc, 0))
    I.decide(tm.cmp_eq(lrec, 0))
    I.decide(tm.cmp_eq(lsrc, tm.add(w.N, -1)))
    I.decide(tm.cmp_eq(lrec, tm.add(w.N, -1)))


def layout(w, R, pm, lrec, lsrc, ctxI):
    """Contract of reflections: what slot s of the returned array holds; None = unspecified.
    Returns (number of slots, f(i,ii,s,iv), specified(s))."""
    same = ctxI.decide(tm.cmp_eq(lrec, lsrc))
    one = lit(1)
    if same:
        return one, (lambda i, ii, s, iv: R.R(pm, i, ii, lsrc, iv)), (lambda s: tm.TRUE)
    above = ctxI.decide(tm.lt(lrec, lsrc))       # receiver above source
    lo, hi = (lrec, lsrc) if above else (lsrc, lrec)
    n = tm.add(hi, tm.neg(lo), 1)
    f = lambda i, ii, s, iv: R.R(pm, i, ii, tm.add(lo, s), iv)
    # the family pointing from source to receiver side is complete; the other one
    # is needed (and specified) in the source layer only
    if (pm < 0) == above:
        return n, f, (lambda s: tm.TRUE)
    end = tm.cmp_eq(lsrc, tm.add(w.N, -1) if pm > 0 else lit(0))
    ss = tm.add(lsrc, tm.neg(lo))
    return n, f, (lambda s: tm.and_(tm.cmp_eq(s, ss), tm.not_(end)))


# ---------------------------------------------------------------- fields
PLUS = (13, 23, 33, 14, 24, 34, 15, 25, 35)
AB_CALC = (11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35)


class Fields:
    """Up/down-going field amplitudes for a source at zsrc in layer lsrc."""

    def __init__(self, refl, lsrc, lrec, zsrc, pm):
        self.R, self.w, self.s, self.r, self.z, self.pm = refl, refl.w, lsrc, lrec, zsrc, pm

    def U(self, i, ii, l, iv):
        """amplitude at the layer above the source (l < s)"""
        return fn('U', self.R.tag, i, ii, l, iv)

    def D(self, i, ii, l, iv):
        return fn('D', self.R.tag, i, ii, l, iv)

    def first(self, up, i, ii, iv):
        R, w, s, z = self.R, self.w, self.s, self.z
        E = lambda x: exp_(-R.G(i, ii, s, iv)*x)
        ds, dp, dm = w.h(s), w.depthf(tm.add(s, 1))-z, z-w.depthf(s)
        Rp, Rm = R.R(1, i, ii, s, iv), R.R(-1, i, ii, s, iv)
        if up:
            atend = tm.cmp_eq(s, tm.add(w.N, -1))
            return self.pm*tm.ite(atend, (1+Rm)*E(dm), (E(dm)+self.pm*Rp*E(ds+dp))*(1+Rm)/(1-Rp*Rm*E(2*ds)))
        atend = tm.cmp_eq(s, 0)
        return tm.ite(atend, (1+Rp)*E(dp), (E(dp)+self.pm*Rm*E(ds+dm))*(1+Rp)/(1-Rp*Rm*E(2*ds)))

    def enter(self, up, i, ii, l, iv):
        """1 + R E2 of layer l (1 in an outermost half-space)"""
        R, w = self.R, self.w
        end = tm.cmp_eq(l, 0 if up else tm.add(w.N, -1))
        return tm.ite(end, lit(1), 1+R.R(-1 if up else 1, i, ii, l, iv)*R.E2(i, ii, l, iv))

    def unfold(self, t, ctx):
        if t.op == 'f' and t.args[0] in ('U', 'D') and t.args[1] == self.R.tag:
            up = t.args[0] == 'U'
            i, ii, l, iv = t.args[2:]
            prev = tm.add(l, 1 if up else -1)
            if not ctx.entails(tm.lt(l, self.s) if up else tm.lt(self.s, l)):
                return None
            if not ctx.entails(tm.and_(tm.le(0, l), tm.lt(l, self.w.N))):
                return None
            d = ctx.decide(tm.cmp_eq(prev, self.s))
            if d is None:
                return None
            if d:
                return self.first(up, i, ii, iv)/self.enter(up, i, ii, l, iv)
            R = self.R
            X = self.U if up else self.D
            return X(i, ii, prev, iv)*(1+R.R(-1 if up else 1, i, ii, prev, iv))*exp_(-R.G(i, ii, prev, iv)*self.w.h(prev))/self.enter(up, i, ii, l, iv)
        return self.R.unfold(t, ctx)

    def P(self, up, i, ii, iv):
        """the amplitude `fields` returns for the receiver layer"""
        R, w, s, r, z = self.R, self.w, self.s, self.r, self.z
        E = lambda x: exp_(-R.G(i, ii, s, iv)*x)
        Rp, Rm = R.R(1, i, ii, s, iv), R.R(-1, i, ii, s, iv)
        ds, dp, dm = w.h(s), w.depthf(tm.add(s, 1))-z, z-w.depthf(s)
        last, firstl = tm.cmp_eq(s, tm.add(w.N, -1)), tm.cmp_eq(s, 0)
        den = 1-Rp*Rm*E(2*ds)
        if up:
            same = tm.ite(last, lit(0), tm.ite(firstl, Rp*E(dp), Rp*(E(dp)+self.pm*Rm*E(ds+dm))/den))
            return tm.ite(tm.lt(s, r), lit(0), tm.ite(tm.cmp_eq(s, r), same, self.U(i, ii, r, iv)))
        same = tm.ite(firstl, lit(0), tm.ite(last, Rm*E(dm), Rm*(E(dm)+self.pm*Rp*E(ds+dp))/den))
        return tm.ite(tm.lt(r, s), lit(0), tm.ite(tm.cmp_eq(s, r), same, self.D(i, ii, r, iv)))


class FieldsLoop:
    """Loop contract of the propagation loop in `fields`."""

    def __init__(self, F):
        self.F = F

    def unfold(self, t, ctx):
        return self.F.unfold(t, ctx)

    def scalar(self, I, name, val, st, pre):
        yield lambda k: val

    def array(self, I, name, arr, st, pre=None):
        F = self.F
        if arr.ndim != 3:
            return
        s, r = F.s, F.r
        mk = lambda f: A.build(arr._shape, f, arr.dtype)
        yield lambda k: mk(lambda i, ii, iv: F.D(i, ii, tm.add(s, k, 1), iv))
        yield lambda k: mk(lambda i, ii, iv: F.U(i, ii, tm.add(s, tm.neg(k), -1), iv))
        yield lambda k: mk(lambda i, ii, iv: F.U(i, ii, tm.add(s, -1), iv)*F.U(i, ii, r, iv)/F.U(i, ii, tm.add(r, k), iv))
        yield lambda k: mk(lambda i, ii, iv: F.D(i, ii, tm.add(s, 1), iv)*F.D(i, ii, r, iv)/F.D(i, ii, tm.add(r, tm.neg(k)), iv))


def rarray(w, R, pm, lrec, lsrc, I, name):
    """array satisfying the contract of `reflections`"""
    n, g, sp = layout(w, R, pm, lrec, lsrc, I)
    return w.arr(name, (w.nf, w.no, n, w.nl), lambda i, ii, s, iv: tm.ite(sp(s), g(i, ii, s, iv), fn('unspec'+name, i, ii, s, iv)))


def preset(I, case):
    """force the leading case decisions (parallel units)"""
    return case


def verify_fields(TM=True, seconds=100, N=None, case=None, label=''):
    def run(I):
        w = World(I, N=N, minlayers=2)
        lrec, lsrc = w.layer('lrec'), w.layer('lsrc')
        if case is not None:
            I.assume(case(w, lrec, lsrc))
        ab = sym('ab', 'I')
        I.assume(tm.or_(*[tm.cmp_eq(ab, k) for k in AB_CALC]))
        inplus = I.decide(tm.or_(*[tm.cmp_eq(ab, k) for k in PLUS]))
        pm = 1 if inplus == bool(TM) else -1
        cases(I, w, lrec, lsrc)
        e = lambda i, l: fn('e', i, l)
        G = lambda i, ii, l, iv: fn('Gam', i, ii, l, iv)
        R = Refl(w, 'X', e, G)
        z = sym('zsrc', 'R')
        F = Fields(R, lsrc, lrec, z, pm)
        I.loopspecs['kernel.fields'] = FieldsLoop(F)
        Rp, Rm = rarray(w, R, 1, lrec, lsrc, I, 'Rp'), rarray(w, R, -1, lrec, lsrc, I, 'Rm')
        Ga = w.arr('Gam', (w.nf, w.no, w.N, w.nl), G)
        out = I.call_body(I.module('kernel').fields, [w.depth(), Rp, Rm, Ga, lrec, lsrc, z, ab, bool(TM)], {})
        v = vf.V(I, F.unfold)
        pu, pd = out
        for nm, x, up in (('Pu', pu, True), ('Pd', pd, False)):
            v.array('%s is the field amplitude at the receiver layer' % nm, x, (w.nf, w.no, w.nl), lambda i, ii, iv: F.P(up, i, ii, iv))
    return vf.verify('kernel.fields (TM=%s%s)' % (TM, label), run, {}, {}, seconds)


# ---------------------------------------------------------------- greenfct
class Green:
    """Effective parameters and the closed-form Green's functions."""

    def __init__(self, I, w, ab, msrc, mrec, xdirect, raw=None, args=None, tag=''):
        self.I, self.w, self.ab, self.xd = I, w, ab, xdirect
        raw = raw or {n: (lambda i, l, n=n: fn(n, i, l)) for n in ('etaH', 'etaV', 'zetaH', 'zetaV')}
        self.raw = raw
        neg = lambda f: (lambda i, l: tm.neg(f(i, l)))
        if mrec and msrc:       # duality: eta -> -zeta, zeta -> -eta
            self.eH, self.eV, self.zH, self.zV = neg(raw['zetaH']), neg(raw['zetaV']), neg(raw['etaH']), neg(raw['etaV'])
        else:
            self.eH, self.eV, self.zH, self.zV = raw['etaH'], raw['etaV'], raw['zetaH'], raw['zetaV']
        self.lam = lambda ii, iv: fn('lambd', ii, iv, sort='R')
        if args:
            self.args_l, self.args_z = args[:2], args[2:]
        else:
            self.args_l = w.layer('lsrc'), w.layer('lrec')
            self.args_z = sym('zsrc', 'R'), sym('zrec', 'R')
        (self.s, self.r), (self.zs, self.zr) = self.args_l, self.args_z
        if mrec and not msrc:   # reciprocity: source and receiver interchanged
            self.s, self.r, self.zs, self.zr = self.r, self.s, self.zr, self.zs
        w0 = self
        def gam(e, v, o):
            return lambda i, ii, l, iv: tm.sqrt_(tm.add(tm.mul(tm.div(e(i, l), v(i, l)), w0.lam(ii, iv), w0.lam(ii, iv)), tm.mul(o(i, l), e(i, l))))
        self.mode = {}
        for mode, e, v, o in (('TM', self.eH, self.eV, self.zH), ('TE', self.zH, self.zV, self.eH)):
            R = Refl(w, mode+tag, e, gam(e, v, o))
            pm = 1 if (ab in PLUS) == (mode == 'TM') else -1
            self.mode[mode] = Fields(R, self.s, self.r, self.zs, pm)

    def unfold(self, t, ctx):
        for F in self.mode.values():
            u = F.unfold(t, ctx)
            if u is not None:
                return u
        return None

    def g(self, tag, i, ii, iv):
        """Green's function of one mode at the receiver depth (before the medium factors)"""
        ab, w, F = self.ab, self.w, self.mode[tag]
        s, r, zs, zr = self.s, self.r, self.zs, self.zr
        R = F.R
        E = lambda x: exp_(-R.G(i, ii, r, iv)*x)
        N1 = tm.add(w.N, -1)
        Wu = tm.ite(tm.cmp_eq(r, N1), lit(0), E(w.depthf(tm.add(r, 1))-zr))
        Wd = tm.ite(tm.cmp_eq(r, 0), lit(0), E(zr-w.depthf(r)))
        Pu, Pd = (F.P(up, i, ii, iv) for up in (True, False))
        sg = -1 if ab in (13, 23, 31, 32, 14, 24, 15, 25) else 1
        same = tm.ite(tm.le(w.N, 1), lit(0), tm.add(tm.mul(Pu, Wu), tm.mul(sg, Pd, Wd)))
        if not self.xd:
            d = E(tm.abs_(zs-zr))
            if tag == 'TM' and ab in (11, 12, 13, 14, 15, 21, 22, 23, 24, 25):
                d = tm.neg(d)
            if ab in (13, 14, 15, 23, 24, 25, 31, 32):
                d = tm.mul(d, tm.sign_(zr-zs))
            same = tm.add(same, d)
        pmw = -1 if tag == 'TM' and ab in (11, 12, 13, 21, 22, 23, 14, 24, 15, 25) else 1
        h = tm.ite(tm.cmp_eq(r, N1), lit(0), w.h(r))
        Rm, Rp = R.R(-1, i, ii, r, iv), R.R(1, i, ii, r, iv)
        above = tm.mul(Pu, tm.add(Wu, tm.mul(pmw, Rm, E(h), Wd)))
        below = tm.mul(Pd, tm.add(tm.mul(pmw, Wd), tm.mul(Rp, E(h), Wu)))
        return tm.ite(tm.cmp_eq(s, r), same, tm.ite(tm.lt(r, s), above, below))

    def P(self, tag, i, ii, iv):
        """P^TM, P^TE including the medium factors"""
        ab, s, r = self.ab, self.s, self.r
        eH, eV, zH, zV = (lambda l, f=f: f(i, l) for f in (self.eH, self.eV, self.zH, self.zV))
        G = self.mode[tag].R.G
        Gs, Gr = G(i, ii, s, iv), G(i, ii, r, iv)
        if tag == 'TM':
            if ab in (16, 26):
                return lit(0)
            f = {11: Gr/eH(r), 14: eH(s)/eH(r)*Gr/Gs, 13: -eH(s)/(eH(r)*eV(s))*Gr/Gs, 31: 1/eV(r),
                 34: eH(s)/eV(r)/Gs, 33: eH(s)/(eV(s)*eV(r))/Gs}
            k = {11: 11, 12: 11, 21: 11, 22: 11, 14: 14, 15: 14, 24: 14, 25: 14, 13: 13, 23: 13, 31: 31, 32: 31, 34: 34, 35: 34, 33: 33}[ab]
            return self.g(tag, i, ii, iv)*f[k]
        if ab in (13, 23, 31, 32, 33, 34, 35):
            return lit(0)
        f = zH(s)/Gs if ab in (11, 12, 21, 22) else lit(1) if ab in (14, 15, 24, 25) else zH(s)/zV(s)/Gs
        return self.g(tag, i, ii, iv)*f


def same_arr(I, x, f, unfold=None):
    """every element of array x equals f(*idx)"""
    from pv.prover import Prover, PROVED
    if not isinstance(x, SArr):
        return False
    vs = [tm.fresh('x', 'I') for _ in x._shape]
    I.ctx.push()
    I.gen_vars.append(vs)
    try:
        for v, d in zip(vs, x._shape):
            I.ctx.add(tm.le(0, v))
            I.ctx.add(tm.lt(v, lit(d)))
        return Prover(I.ctx, unfold=unfold).equal(x.at(*vs), f(*vs)) == PROVED
    finally:
        I.gen_vars.pop()
        I.ctx.pop()


def same_int(I, a, b):
    return I.ctx.entails(tm.cmp_eq(lit(a), lit(b)))


def need(I, name, ok, detail=''):
    from pv.interp import Obligation
    I.obls.append(Obligation('precondition of %s' % name, 'proved' if ok else 'undecided', detail, 'nf+z3'))
    if not ok:
        raise Unsupported('precondition of %s not established' % name)


def green_contracts(g):
    w = g.w

    def which(I, Gam, e=None):
        for tag, F in g.mode.items():
            if same_arr(I, Gam, lambda i, ii, l, iv: F.R.G(i, ii, l, iv)):
                if e is None or same_arr(I, e, F.R.e):
                    return tag
        return None

    def refl(I, b):
        tag = which(I, b['Gam'], b['e_zH'])
        need(I, 'reflections: layer parameters', tag is not None)
        need(I, 'reflections: depth', same_arr(I, b['depth'], w.depthf))
        need(I, 'reflections: layers', same_int(I, b['lrec'], g.r) and same_int(I, b['lsrc'], g.s))
        need(I, 'reflections: at least two layers', I.ctx.entails(tm.le(2, w.N)))
        R = g.mode[tag].R
        return rarray(w, R, 1, g.r, g.s, I, 'Rp'), rarray(w, R, -1, g.r, g.s, I, 'Rm')

    def fld(I, b):
        tag = which(I, b['Gam'])
        need(I, 'fields: wavenumbers', tag is not None)
        F = g.mode[tag]
        need(I, 'fields: depth', same_arr(I, b['depth'], w.depthf))
        need(I, 'fields: layers, source depth', same_int(I, b['lrec'], g.r) and same_int(I, b['lsrc'], g.s) and same_int(I, b['zsrc'], g.zs))
        need(I, 'fields: mode and component', bool(b['TM']) == (tag == 'TM') and same_int(I, b['ab'], g.ab))
        for nm, x, pm in (('Rp', b['Rp'], 1), ('Rm', b['Rm'], -1)):
            n, q, sp = layout(w, F.R, pm, g.r, g.s, I)
            need(I, 'fields: slots of %s' % nm, x.ndim == 4 and A.deq(x._shape[2], n))
            need(I, 'fields: content of %s' % nm, same_arr(I, x, lambda i, ii, s, iv: tm.ite(sp(s), q(i, ii, s, iv), x.at(i, ii, s, iv)), F.unfold))
        mk = lambda up: A.build((w.nf, w.no, w.nl), lambda i, ii, iv: F.P(up, i, ii, iv), A.DC)
        return mk(True), mk(False)
    return {'kernel.reflections': refl, 'kernel.fields': fld}


def verify_greenfct(ab, msrc, mrec, xdirect, seconds=100, N=None):
    cs = {}

    def run(I):
        w = World(I, N=N)
        g = Green(I, w, ab, msrc, mrec, xdirect)
        I.contracts.clear()
        I.contracts.update(green_contracts(g))
        one = I.decide(tm.le(w.N, 1))
        if one:
            for l in g.args_l:
                I.assume(tm.cmp_eq(l, 0))
        cases(I, w, g.r, g.s)
        args = [g.args_z[0], g.args_z[1], g.args_l[0], g.args_l[1], w.depth()]
        args += [w.arr(n, (w.nf, w.N), g.raw[n]) for n in ('etaH', 'etaV', 'zetaH', 'zetaV')]
        args += [w.arr('lambd', (w.no, w.nl), g.lam, A.DF), ab, xdirect, msrc, mrec]
        out = I.call_body(I.module('kernel').greenfct, args, {})
        v = vf.V(I, g.unfold)
        for nm, x in zip(('TM', 'TE'), out):
            v.array('P%s is the %s part of the closed-form solution' % (nm, nm), x, (w.nf, w.no, w.nl), lambda i, ii, iv: g.P(nm, i, ii, iv))
    return vf.verify('kernel.greenfct (ab=%d, msrc=%s, mrec=%s, xdirect=%s)' % (ab, msrc, mrec, xdirect), run, cs, {}, seconds)


# ---------------------------------------------------------------- wavenumber
def jparts(ab, mrec, ptm, pte, lam):
    """J0, J1, J0b kernels of one component from the TM and TE parts"""
    tot = tm.div(tm.add(ptm, pte), 4*tm.PI)
    sg = -1 if mrec else 1
    l2 = tm.mul(lam, lam)
    if ab == 33:
        return sg*tot*l2*lam, None, None
    if ab in (13, 23, 31, 32, 35, 16):
        return None, sg*tot*l2, None
    if ab in (34, 26):
        return None, -sg*tot*l2, None
    s = -sg if ab in (14, 22) else sg
    b = tm.div(s*tot*lam, 2)
    if ab in (12, 21, 14, 25):
        return None, -s*tot, b
    # (TM - TE)/8pi with the sign of the horizontal component
    s0 = {11: 1, 22: 1, 15: 1, 24: -1}[ab]*sg
    return tm.div(s0*(ptm-pte)*lam, 8*tm.PI), -s*tot, b


def verify_wavenumber(ab, msrc, mrec, xdirect, seconds=60):
    def run(I):
        w = World(I)
        lsrc, lrec, zs, zr = w.layer('lsrc'), w.layer('lrec'), sym('zsrc', 'R'), sym('zrec', 'R')
        arrs = {n: w.arr(n, (w.nf, w.N), lambda i, l, n=n: fn(n, i, l)) for n in ('etaH', 'etaV', 'zetaH', 'zetaV')}
        lam = lambda ii, iv: fn('lambd', ii, iv, sort='R')
        la = w.arr('lambd', (w.no, w.nl), lam, A.DF)
        depth = w.depth()
        P = {t: (lambda i, ii, iv, t=t: fn('P'+t, i, ii, iv)) for t in ('TM', 'TE')}

        def gf(I, b):
            need(I, 'greenfct: scalars', all(same_int(I, b[k], x) for k, x in (('zsrc', zs), ('zrec', zr), ('lsrc', lsrc), ('lrec', lrec), ('ab', ab))))
            need(I, 'greenfct: flags', all(bool(b[k]) == x for k, x in (('xdirect', xdirect), ('msrc', msrc), ('mrec', mrec))))
            need(I, 'greenfct: depth, wavenumbers', same_arr(I, b['depth'], w.depthf) and same_arr(I, b['lambd'], lam))
            for n in arrs:
                need(I, 'greenfct: '+n, same_arr(I, b[n], lambda i, l, n=n: fn(n, i, l)))
            return tuple(A.build((w.nf, w.no, w.nl), P[t], A.DC) for t in ('TM', 'TE'))
        I.contracts['kernel.greenfct'] = gf
        out = I.call_body(I.module('kernel').wavenumber, [zs, zr, lsrc, lrec, depth] + [arrs[n] for n in ('etaH', 'etaV', 'zetaH', 'zetaV')]
                          + [la, ab, xdirect, msrc, mrec], {})
        v = vf.V(I)
        for k, nm in enumerate(('PJ0', 'PJ1', 'PJ0b')):
            want = lambda i, ii, iv: jparts(ab, mrec, P['TM'](i, ii, iv), P['TE'](i, ii, iv), lam(ii, iv))[k]
            if want(lit(0), lit(0), lit(0)) is None:
                v.fact('%s is absent for this component' % nm, out[k] is None, repr(out[k]))
            else:
                v.array('%s is the kernel of its Bessel function' % nm, out[k], (w.nf, w.no, w.nl), want)
    return vf.verify('kernel.wavenumber (ab=%d, msrc=%s, mrec=%s)' % (ab, msrc, mrec), run, {}, {}, seconds)


def verify_reflections(seconds=100, N=None, case=None, label=''):
    spec = {}

    def run(I):
        w = World(I, N=N, minlayers=2)
        lrec, lsrc = w.layer('lrec'), w.layer('lsrc')
        if case is not None:
            I.assume(case(w, lrec, lsrc))
        cases(I, w, lrec, lsrc)
        e = lambda i, l: fn('e', i, l)
        G = lambda i, ii, l, iv: fn('Gam', i, ii, l, iv)
        R = Refl(w, 'X', e, G)
        spec['loop'] = ReflLoop(w, R, lrec, lsrc)
        I.loopspecs['kernel.reflections'] = spec['loop']
        depth = w.depth()
        ea = w.arr('e_zH', (w.nf, w.N), e)
        Ga = w.arr('Gam', (w.nf, w.no, w.N, w.nl), G)
        f = I.module('kernel').reflections
        out = I.call_body(f, [depth, ea, Ga, lrec, lsrc], {})
        v = vf.V(I, R.unfold)
        rp, rm = out
        for nm, x, pm in (('Rp', rp, 1), ('Rm', rm, -1)):
            n, g, sp = layout(w, R, pm, lrec, lsrc, I)
            v.array('%s holds the global reflection coefficients' % nm, x, (w.nf, w.no, n, w.nl),
                    lambda i, ii, s, iv: tm.ite(sp(s), g(i, ii, s, iv), x.at(i, ii, s, iv)))
    return vf.verify('kernel.reflections' + label + ('' if N is None else ' (N=%d)' % N), run, {}, {}, seconds)


CASES = [('receiver above source', lambda w, r, s: tm.lt(r, s)), ('same layer', lambda w, r, s: tm.cmp_eq(r, s)), ('receiver below source', lambda w, r, s: tm.lt(s, r))]


def reflections_case(k):
    nm, c = CASES[k % 3]
    end = k >= 3
    return verify_reflections(case=lambda w, r, s: tm.and_(c(w, r, s), tm.cmp_eq(s, tm.add(w.N, -1)) if end else tm.not_(tm.cmp_eq(s, tm.add(w.N, -1)))),
                              label=' (%s, source %sin the last layer)' % (nm, '' if end else 'not '))


def fields_case(TM, k):
    nm, c = CASES[k]
    return verify_fields(TM, case=c, label=', '+nm)


if __name__ == '__main__':
    import json
    k = sys.argv[1]
    if k == 'r':
        us = [verify_reflections()]
    elif k == 'f':
        us = [verify_fields(TM) for TM in (True, False)]
    elif k == 'g':
        us = [verify_greenfct(int(sys.argv[2]), sys.argv[3] == '1', sys.argv[4] == '1', sys.argv[5] == '1')]
    else:
        us = [verify_wavenumber(ab, False, m, True) for ab in AB_CALC for m in (True, False)]
    for u in us:
        print(json.dumps(u.as_dict(), indent=1))
