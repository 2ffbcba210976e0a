"""Contracts of the analytical solutions (kernel.fullspace, kernel.halfspace)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, mul, add, div, neg, sqrt_, exp_, power
from pv import verify as vf
from pv.terms import Unsupported
from uspec import vec, size, PRINT, main


def bottom_up(t, f, memo):
    r = memo.get(t)
    if r is None:
        ch = tm.children(t)
        nch = [bottom_up(c, f, memo) for c in ch]
        r = t if all(a is b for a, b in zip(ch, nch)) else tm.rebuild(t, nch)
        r = f(r)
        memo[t] = r
    return r


def diff(t, v, memo):
    """derivative of a term; v is an atom"""
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if t is v:
        r = lit(1)
    elif op in ('c', 'v', 'pi', 'IU'):
        r = lit(0)
    elif op == '+':
        a = t.args
        r = add(lit(0), *[mul(mk_c(a[i+1]), diff(a[i], v, memo)) for i in range(1, len(a), 2)])
    elif op == '*':
        a = t.args
        parts = []
        for i in range(0, len(a), 2):
            d = diff(a[i], v, memo)
            if d is lit(0):
                continue
            parts.append(mul(t, mk_c(a[i+1]), d, power(a[i], lit(-1))))
        r = add(lit(0), *parts)
    elif op == 'f':
        n = t.args[0]
        x = t.args[1] if len(t.args) > 1 and isinstance(t.args[1], tm.T) else None
        if n == 'exp':
            r = mul(t, diff(x, v, memo))
        elif n == 'sqrt':
            r = div(diff(x, v, memo), mul(2, t))
        elif n == 'sin':
            r = mul(fn('cos', x, sort=t.sort), diff(x, v, memo))
        elif n == 'cos':
            r = neg(mul(fn('sin', x, sort=t.sort), diff(x, v, memo)))
        elif n == 'erfc':
            r = mul(-2, power(sqrt_(tm.PI), lit(-1)), exp_(neg(mul(x, x))), diff(x, v, memo))
        elif all(diff(c, v, memo) is lit(0) for c in tm.children(t)):
            r = lit(0)
        else:
            raise Unsupported('derivative of %s' % n)
    elif op == 'ite' and not any(q is v for q in tm.atoms_of(t.args[0])):
        r = tm.ite(t.args[0], diff(t.args[1], v, memo), diff(t.args[2], v, memo))
    else:
        raise Unsupported('derivative of %s' % op)
    memo[t] = r
    return r


def mk_c(x):
    from fractions import Fraction
    return tm.mk('c', (Fraction(x),), 'R')


ROOTS = 'sqrt(zeta eta) = sqrt(zeta) sqrt(eta) and sqrt(a/b) = sqrt(a)/sqrt(b) for the principal roots of the material parameters (arguments in [0, pi/2])'


class Full:
    """terms of all 36 components at a generic frequency i and offset j"""

    def __init__(self, I):
        self.I = I
        self.nf, self.no = size(I, 'nf'), size(I, 'noff')
        self.i, self.j = sym('i', 'I'), sym('j', 'I')
        I.assume(tm.and_(tm.le(0, self.i), tm.lt(self.i, self.nf), tm.le(0, self.j), tm.lt(self.j, self.no)))
        I.gen_vars.append([self.i, self.j])
        self.off, self.ang = fn('off', self.j, sort='R'), fn('angle', self.j, sort='R')
        I.assume(tm.lt(0, self.off))
        self.zs, self.zr = sym('zsrc', 'R'), sym('zrec', 'R')
        self.l = {n: fn(n, self.i, sort='C') for n in ('lH', 'lV', 'mH', 'mV')}
        I.assumed.add(ROOTS)

    def root(self, t):
        if t.op == 'f' and t.args[0] == 'sqrt':
            x = t.args[1]
            c, d = tm._parts(x)
            if c == 0 and len(d) == 1:
                (m, k), = d.items()
                f = tm._facts(m)
                if k == 1 and all(a.id in {q.id for q in self.l.values()} and e % 2 == 0 for a, e in f.items()):
                    return mul(1, *[power(a, lit(int(e)//2)) for a, e in f.items()])
        return t

    def call(self, ab, msrc, mrec, iso=False):
        I = self.I
        sq = lambda n: vec(I, n, self.nf, 'C', lambda i: mul(fn(n, i, sort='C'), fn(n, i, sort='C')))
        e = [sq(n) for n in (('lH', 'lH', 'mH', 'mH') if iso else ('lH', 'lV', 'mH', 'mV'))]
        out = I.call_body(I.module('kernel').fullspace, [vec(I, 'off', self.no), vec(I, 'angle', self.no), self.zs, self.zr, *e, ab, msrc, mrec], {})
        if not isinstance(out, A.SArr) or out.ndim != 2:
            raise Unsupported('result is not a two-dimensional array %r' % out)
        return bottom_up(out.at(self.i, self.j), self.root, {})

    def field(self, r, s, iso=False):
        ab = 10*r+s
        if ab in (36, 63):
            return lit(0)
        I = self.I
        c, ms, mr = I.call_body(I.module('utils').check_ab, [ab, 0], {})
        return self.call(c, ms, mr, iso)

    def d(self, t, k):
        """derivative along receiver coordinate k"""
        if k == 2:
            return diff(t, self.zr, {})
        do, da = diff(t, self.off, {}), diff(t, self.ang, {})
        c, s = fn('cos', self.ang, sort='R'), fn('sin', self.ang, sort='R')
        if k == 0:
            return add(mul(c, do), neg(mul(s, da, power(self.off, lit(-1)))))
        return add(mul(s, do), mul(c, da, power(self.off, lit(-1))))

    def med(self, n):
        a = self.l[n]
        return mul(a, a)

    def curl(self, F):
        D = [[self.d(F[a], k) for k in range(3)] for a in range(3)]
        return [add(D[2][1], neg(D[1][2])), add(D[0][2], neg(D[2][0])), add(D[1][0], neg(D[0][1]))]


def unit_maxwell(s):
    """the six components for source s satisfy Maxwell's equations away from the source"""
    def run(I):
        w = Full(I)
        F = [w.field(r, s) for r in range(1, 7)]
        v = vf.V(I)
        E, H = F[:3], F[3:]
        cE, cH = w.curl(E), w.curl(H)
        for k in range(3):
            v.eq('curl E + zeta H = 0, component %d' % (k+1), add(cE[k], mul(w.med('mV' if k == 2 else 'mH'), H[k])), 0)
            v.eq('curl H - eta E = 0, component %d' % (k+1), add(cH[k], neg(mul(w.med('lV' if k == 2 else 'lH'), E[k]))), 0)
    return vf.verify('kernel.fullspace: Maxwell equations, source %d' % s, run, PRINT, {}, 120)


def unit_vertical(mag):
    """vertical source: fields from the scalar potential psi = sqrt(eH/eV) exp(-g R)/(4 pi R)"""
    def run(I):
        w = Full(I)
        v = vf.V(I)
        s = 6 if mag else 3
        eH, eV, zH = ('mH', 'mV', 'lH') if mag else ('lH', 'lV', 'mH')
        ratio = div(w.l[eH], w.l[eV])
        dz = add(w.zr, neg(w.zs))
        R = sqrt_(add(mul(w.off, w.off), mul(dz, dz, ratio, ratio)))
        psi = div(mul(ratio, exp_(neg(mul(w.l[zH], w.l[eV], R)))), mul(4, tm.PI, R))
        zero = lit(0)
        B = w.curl([zero, zero, psi])
        px, py = w.d(psi, 0), w.d(psi, 1)
        pz = w.d(psi, 2)
        Eh = [div(w.d(pz, 0), w.med(eH)), div(w.d(pz, 1), w.med(eH)), neg(div(add(w.d(px, 0), w.d(py, 1)), w.med(eV)))]
        # electric: H = curl(psi z), eta E = curl H; magnetic source (dual): E = -curl(psi z), zeta H = -curl E
        own, oth = (Eh, B)
        for k in range(3):
            if mag:
                v.eq('H_%d of a vertical magnetic dipole' % (k+1), w.field(4+k, s), own[k])
                v.eq('E_%d of a vertical magnetic dipole' % (k+1), w.field(1+k, s), neg(oth[k]))
            else:
                v.eq('E_%d of a vertical electric dipole' % (k+1), w.field(1+k, s), own[k])
                v.eq('H_%d of a vertical electric dipole' % (k+1), w.field(4+k, s), oth[k])
    return vf.verify('kernel.fullspace: vertical %s source from its potential' % ('magnetic' if mag else 'electric'), run, PRINT, {}, 120)


def unit_reciprocal(r):
    """vertical receiver component r in (3, 6): reciprocal of the vertical source"""
    def run(I):
        w = Full(I)
        v = vf.V(I)
        for s in (1, 2, 4, 5):
            a = w.field(r, s)
            b = w.field(s, r)
            # exchange source and receiver: angle + pi (cos, sin change sign), depths exchanged
            t = tm.subst(b, {w.zs: w.zr, w.zr: w.zs})
            t = bottom_up(t, lambda x: neg(x) if x.op == 'f' and x.args[0] in ('cos', 'sin') and x.args[1] is w.ang else x, {})
            same = (r > 3) == (s > 3)
            v.eq('G_%d%d(rec, src) = %sG_%d%d(src, rec)' % (r, s, '' if same else '-', s, r), a, t if same else neg(t))
    return vf.verify('kernel.fullspace: vertical receiver %d by reciprocity' % r, run, PRINT, {}, 120)


def turned(w, t):
    """source and receiver exchanged: angle + pi (cos, sin change sign), depths exchanged"""
    t = tm.subst(t, {w.zs: w.zr, w.zr: w.zs})
    return bottom_up(t, lambda x: neg(x) if x.op == 'f' and x.args[0] in ('cos', 'sin') and x.args[1] is w.ang else x, {})


def unit_fs_reciprocal(s):
    """two runs of the code: component rs against component sr of the exchanged experiment"""
    def run(I):
        w = Full(I)
        v = vf.V(I)
        for r in range(1, s+1):
            t = turned(w, w.field(s, r))
            v.eq('full space: component %d%d against %d%d' % (r, s, s, r), w.field(r, s), t if (r > 3) == (s > 3) else neg(t))
    return vf.verify('kernel.fullspace: reciprocity, source %d' % s, run, PRINT, {}, 200)


def unit_fs_moved(s):
    """two runs of the code: the experiment moved vertically, and mirrored in a horizontal plane"""
    def run(I):
        w = Full(I)
        v = vf.V(I)
        c = sym('c', 'R')
        par = lambda d: -1 if d in (3, 4, 5) else 1
        for r in range(1, 7):
            t = w.field(r, s)
            v.eq('component %d%d moved' % (r, s), tm.subst(t, {w.zs: add(w.zs, c), w.zr: add(w.zr, c)}), t)
            v.eq('component %d%d mirrored' % (r, s), tm.subst(t, {w.zs: neg(w.zs), w.zr: neg(w.zr)}), mul(par(r)*par(s), t))
    return vf.verify('kernel.fullspace: vertical shift and mirroring, source %d' % s, run, PRINT, {}, 200)


def unit_isotropic(s):
    """unit dipole in an isotropic medium: dyadic closed form"""
    def run(I):
        w = Full(I)
        v = vf.V(I)
        x = [mul(w.off, fn('cos', w.ang, sort='R')), mul(w.off, fn('sin', w.ang, sort='R')), add(w.zr, neg(w.zs))]
        R = sqrt_(add(mul(w.off, w.off), mul(x[2], x[2])))
        k = mul(w.l['lH'], w.l['mH'])
        G = div(exp_(neg(mul(k, R))), mul(4, tm.PI, R))
        d1 = neg(mul(add(k, div(1, R)), G))
        d2 = mul(add(mul(k, k), div(mul(2, k), R), div(2, mul(R, R))), G)
        n = [div(c, R) for c in x]
        eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}
        for r in range(1, 7):
            i, j = (r-1) % 3, (s-1) % 3
            er, es = r < 4, s < 4
            if er == es:
                a, b = (w.med('mH'), w.med('lH')) if er else (w.med('lH'), w.med('mH'))
                dd = add(mul(n[i], n[j], add(d2, neg(div(d1, R)))), div(d1, R) if i == j else lit(0))
                want = add(neg(mul(a, G)) if i == j else lit(0), div(dd, b))
            else:
                want = mul(-1 if er else 1, add(lit(0), *[mul(eps.get((i, q, j), 0), n[q], d1) for q in range(3)]))
            v.eq('component %d%d' % (r, s), w.field(r, s, True), want)
    return vf.verify('kernel.fullspace: isotropic closed form, source %d' % s, run, PRINT, {}, 120)


# ------------------------------------------------------------------ half space
POSITIVE = 'sqrt(a b) = sqrt(a) sqrt(b) for the positive factors time, resistivity, anisotropy, squared distances'


def root_c(k):
    """square root of a positive rational: rational factor times the root of a square-free integer"""
    from fractions import Fraction
    k = Fraction(k)
    n, out = k.numerator*k.denominator, Fraction(1, k.denominator)
    p = 2
    while p*p <= n and p < 1000:
        while n % (p*p) == 0:
            n //= p*p
            out *= p
        p += 1
    return mul(mk_c(out), sqrt_(mk_c(n)) if n != 1 else lit(1))


class Half:
    def __init__(self, I, signal):
        self.I, self.signal = I, signal
        self.nf, self.no, self.nl = size(I, 'nf'), size(I, 'noff'), size(I, 'nlayer')
        self.i, self.j = sym('i', 'I'), sym('j', 'I')
        self.zs, self.zr = sym('zsrc', 'R'), sym('zrec', 'R')

    def generic(self):
        I = self.I
        I.assume(tm.and_(tm.le(0, self.i), tm.lt(self.i, self.nf), tm.le(0, self.j), tm.lt(self.j, self.no)))
        I.gen_vars.append([self.i, self.j])

    def call(self, ab, solution, signal=None):
        I = self.I
        signal = signal['signal'] if isinstance(signal, dict) else self.signal
        eta = [A.build((tm.unlit(self.nf), tm.unlit(self.nl)), lambda i, l, n=n: fn(n, i, l, sort='R'), A.DC) for n in ('etaH', 'etaV')]
        fd = signal is None
        ft = A.build((tm.unlit(self.nf), 1), lambda i, z: fn('freqtime', i, sort='C' if fd else 'R'), A.DC if fd else A.DF)
        for k, x in enumerate(eta+[ft]):
            vf.frame(I, ('etaH', 'etaV', 'freqtime')[k], x)
        out = I.call_body(I.module('kernel').halfspace, [vec(I, 'off', self.no), vec(I, 'angle', self.no), self.zs, self.zr, *eta, ft, ab, signal, solution], {})
        out = out if isinstance(out, tuple) else (out,)
        for x in out:
            if not isinstance(x, A.SArr) or x.ndim != 2:
                raise Unsupported('result is not a two-dimensional array %r' % x)
        v = vf.V(I)
        for x in out:
            v.true('%s: one entry per frequency/time and offset' % solution, tm.and_(tm.cmp_eq(lit(x._shape[0]), self.nf), tm.cmp_eq(lit(x._shape[1]), self.no)))
        return [x.at(self.i, self.j) for x in out]

    def positive(self, t):
        if t.op == 'c':
            return t.args[0] > 0
        if t.op == 'pi' or (t.op == 'f' and t.args[0] in ('etaH', 'etaV', 'freqtime')):
            return True
        if t.op == 'f' and t.args[0] == 'sqrt':
            return self.positive(t.args[1])
        if t.op == '+':
            c, d = tm._parts(t)
            return c >= 0 and all(k > 0 and all(int(e) == e and (e % 2 == 0 or self.positive(a)) for a, e in tm._facts(m).items()) for m, k in d.items())
        return False

    def split(self, t):
        """sqrt of a product of positive factors"""
        if t.op == '*':
            f = tm._facts(t)
            if any(a.op == 'f' and a.args[0] == 'sqrt' and int(e) == e and abs(e) > 1 and self.positive(a.args[1]) for a, e in f.items()):
                return mul(1, *[power(a.args[1], lit(int(e)//2)) if a.op == 'f' and a.args[0] == 'sqrt' and int(e) == e and e % 2 == 0 else power(a, lit(e)) for a, e in f.items()])
            return t
        if t.op == 'f' and t.args[0] == 'sqrt':
            c, d = tm._parts(t.args[1])
            if c == 0 and len(d) == 1:
                (m, k), = d.items()
                f = tm._facts(m)
                if k > 0 and all(self.positive(a) and int(e) == e for a, e in f.items()) and (len(f) > 1 or k != 1):
                    self.I.assumed.add(POSITIVE)
                    return mul(root_c(k), *[power(sqrt_(a), lit(int(e))) for a, e in f.items()])
        return t

    def norm(self, t):
        for _ in range(6):
            n = bottom_up(t, self.split, {})
            if n is t:
                return t
            t = n
        return t


def unit_half_parts(ab, signal):
    """the parts add up, whatever form of output is requested"""
    def run(I):
        w = Half(I, signal)
        w.generic()
        v = vf.V(I)
        out = {s: w.call(ab, s) for s in ('dhs', 'dfs', 'dsplit', 'dtetm')}
        n = {k: len(x) for k, x in out.items()}
        if n != dict(dhs=1, dfs=1, dsplit=3, dtetm=5):
            v.fact('number of parts', False, str(n))
            return
        (d, r, a), (dte, dtm, rte, rtm, air) = out['dsplit'], out['dtetm']
        v.eq('total = direct + reflected + airwave', out['dhs'][0], add(d, r, a))
        v.eq('direct part', out['dfs'][0], d)
        v.eq('direct = TE + TM', d, add(dte, dtm))
        v.eq('reflected = TE + TM', r, add(rte, rtm))
        v.eq('airwave', a, air)
    return vf.verify('kernel.halfspace: parts (ab=%d, signal=%s)' % (ab, signal), run, PRINT, {}, 120)


def unit_half_off(ab):
    """switch-off = late-time value minus switch-on, part by part"""
    def run(I):
        w = Half(I, 1)
        w.generic()
        v = vf.V(I)
        on, off = w.call(ab, 'dtetm', dict(signal=1)), w.call(ab, 'dtetm', dict(signal=-1))
        for nm, a, b in zip(('direct TE', 'direct TM', 'reflected TE', 'reflected TM', 'airwave'), on, off):
            late = tm.subst(a, {fn('freqtime', w.i, sort='R'): lit(10000)})
            want, b = add(late, neg(a)), I.resolve(b, {})
            if nm == 'airwave':
                b, want = (lit(0), lit(0)) if b is want else (b, want)
            v.eq('switch-off of the %s part' % nm, *((b, want) if b is want else (w.norm(b), w.norm(want))))
    return vf.verify('kernel.halfspace: switch-off (ab=%d)' % ab, run, PRINT, {}, 120)


def unit_half_impulse(ab):
    """impulse = time derivative of the switch-on response"""
    def run(I):
        w = Half(I, 1)
        w.generic()
        v = vf.V(I)
        t = fn('freqtime', w.i, sort='R')
        on, imp = w.call(ab, 'dtetm', dict(signal=1)), w.call(ab, 'dtetm', dict(signal=0))
        for nm, a, b in list(zip(('direct TE', 'direct TM', 'reflected TE', 'reflected TM'), on, imp)):
            v.eq('impulse of the %s part' % nm, w.norm(b), w.norm(diff(w.norm(a), t, {})))
    return vf.verify('kernel.halfspace: impulse (ab=%d)' % ab, run, PRINT, {}, 120)


LAPLACE = ('inverse Laplace transforms of s^(m/2) exp(-2 sqrt(s tau)), m = 0, 1, 2 (table), and that a transform known for positive real s is known for s = 2 pi i f '
           '(analytic continuation)')


def unit_half_pair(ab):
    """impulse = inverse Laplace transform of the frequency-domain response, term by term"""
    def run(I):
        w = Half(I, 0)
        w.generic()
        v = vf.V(I)
        t, v0 = fn('freqtime', w.i, sort='R'), fn('sqrt_of_s', sort='R')
        imp = w.call(ab, 'dtetm', dict(signal=0))
        fd = w.call(ab, 'dtetm', dict(signal=None))
        s = fn('freqtime', w.i, sort='C')
        pos = w.positive
        w.positive = lambda x: x is v0 or pos(x)
        I.assumed.add(LAPLACE)
        for nm, a, b in list(zip(('direct TE', 'direct TM', 'reflected TE', 'reflected TM'), fd, imp)):
            a = tm.subst(a, {s: power(v0, lit(2)), t: power(v0, lit(2))})
            a = bottom_up(a, lambda x: v0 if x.op == 'f' and x.args[0] == 'sqrt' and x.args[1] is power(v0, lit(2)) else x, {})
            a = w.norm(a)
            es = [x for x in tm.atoms_of(a) if x.op == 'f' and x.args[0] == 'exp']
            if len(es) != 1:
                if a.op == 'c' and a.args[0] == 0:
                    v.eq('%s part' % nm, w.norm(b), lit(0))
                    continue
                raise Unsupported('%d exponentials in the %s part' % (len(es), nm))
            e, = es
            rt = w.norm(div(e.args[1], mul(-2, v0)))           # sqrt(tau)
            one, zero = tm.subst(a, {e: lit(1)}), tm.subst(a, {e: lit(0)})
            v.eq('%s part: a multiple of exp(-2 sqrt(s tau))' % nm, w.norm(add(a, neg(zero))), w.norm(mul(e, one)))
            v.eq('%s part: no other term' % nm, zero, lit(0))
            d1 = diff(one, v0, {})
            c0, c1, c2 = [tm.subst(x, {v0: lit(0)}) for x in (one, d1, mul(power(lit(2), lit(-1)), diff(d1, v0, {})))]
            v.eq('%s part: three powers of sqrt(s)' % nm, w.norm(one), w.norm(add(c0, mul(c1, v0), mul(c2, v0, v0))))
            x, it = mul(rt, rt), power(t, lit(-1))
            r_pit, ex = power(sqrt_(mul(tm.PI, t)), lit(-1)), exp_(neg(mul(x, it)))
            half = power(lit(2), lit(-1))
            g0 = mul(rt, r_pit, it, ex)
            g1 = mul(add(mul(x, it), neg(half)), r_pit, it, ex)
            g2 = mul(rt, add(mul(x, it), mul(-3, half)), r_pit, it, it, ex)
            v.eq('%s part: inverse transform' % nm, w.norm(b), w.norm(add(mul(c0, g0), mul(c1, g1), mul(c2, g2))))
    return vf.verify('kernel.halfspace: Laplace pair (ab=%d)' % ab, run, PRINT, {}, 120)


if __name__ == '__main__':
    main(globals())
