"""Lemmas over the contracts of the kernel: relations between the specified solution of two experiments.

Each lemma is an induction over the layers, stated for every number of layers; the induction hypothesis enters as a
rewriting of the specification functions of the second experiment at the neighbouring layer.  What ties the lemmas to
the code are the contracts of kernel.* (units of kunits.KERNEL)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, exp_, INF
from pv import verify as vf
from pv.interp import Obligation
from kspec import Refl, Fields, Green, World, AB_CALC, PLUS, jparts
from uspec import size


class W:
    """layer stack: number of layers and interface depths (no arrays)"""

    def __init__(self, N, depthf):
        self.N, self.depthf = lit(N), depthf

    def h(self, l):
        return tm.add(self.depthf(tm.add(l, 1)), tm.neg(self.depthf(l)))


def base(I, minlayers=1):
    w = World(I, minlayers=minlayers)
    return W(w.N, w.depthf)


def layer(I, w, name):
    l = sym(name, 'I')
    I.assume(tm.le(0, l))
    I.assume(tm.lt(l, w.N))
    return l


def is_r(t, tag):
    return t.op == 'f' and t.args[0] in ('R+', 'R-') and t.args[1] == tag


def at(ctx, a, b):
    return ctx.decide(tm.cmp_eq(a, b)) is True


class Split:
    """experiment B: layer m of experiment A divided at depth d"""

    def __init__(self, I):
        self.I = I
        self.A = base(I)
        self.m = layer(I, self.A, 'm')
        self.d = sym('d', 'R')
        m, d, dep = self.m, self.d, self.A.depthf
        self.B = W(tm.add(self.A.N, 1), lambda k: tm.ite(tm.le(k, m), dep(k), tm.ite(tm.cmp_eq(k, tm.add(m, 1)), d, dep(tm.add(k, -1)))))

    def par(self, f):
        """layer parameter of B"""
        return lambda *k: self._par(f, *k)

    def _par(self, f, *k):
        # the layer is the second index, or the third of Gamma(i, ii, l, iv)
        p = 2 if len(k) == 4 else 1
        g = lambda l: f(*k[:p], l, *k[p+1:])
        return tm.ite(tm.le(k[p], self.m), g(k[p]), g(tm.add(k[p], -1)))

    def back(self, l):
        """layer of A a layer of B belongs to"""
        return tm.ite(tm.le(l, self.m), l, tm.add(l, -1))

    def R(self, pm, RA, RB, i, ii, l, iv):
        """R of B at layer l (of B) in terms of A, by the lemmas below"""
        I, m = self.I, self.m
        a = RA.R(pm, i, ii, self.back(l), iv)
        # the inner of the two parts sees the field through the other part
        inner = m if pm > 0 else tm.add(m, 1)
        other = tm.add(m, 1) if pm > 0 else m
        return tm.ite(tm.cmp_eq(l, inner), tm.mul(a, exp_(-2*RA.G(i, ii, m, iv)*self.B.h(other))), a)


def idx():
    return sym('i', 'I'), sym('ii', 'I'), sym('iv', 'I')


def unit_split_refl(pm):
    """R+/R- of the divided stack, by induction over the layers of B"""
    def run(I):
        S = Split(I)
        e, G = (lambda i, l: fn('e', i, l)), (lambda i, ii, l, iv: fn('Gam', i, ii, l, iv))
        RA, RB = Refl(S.A, 'A', e, G), Refl(S.B, 'B', S.par(e), S.par(G))
        i, ii, iv = idx()
        l = layer(I, S.B, 'l')
        m = S.m
        # case analysis: position of l and of its neighbour
        nb = tm.add(l, pm)
        last = tm.add(S.B.N, -1) if pm > 0 else lit(0)
        if not I.decide(tm.cmp_eq(l, last)):
            I.decide(tm.cmp_eq(nb, last))
        if not I.decide(tm.cmp_eq(l, m)) and not I.decide(tm.cmp_eq(l, tm.add(m, 1))):
            I.decide(tm.lt(l, m))
            I.decide(tm.cmp_eq(nb, m))
            I.decide(tm.cmp_eq(nb, tm.add(m, 1)))
        start = RB.R(pm, i, ii, l, iv)

        def unfold(t, ctx):
            if is_r(t, 'A'):
                end = at(ctx, t.args[4], S.A.N-1 if pm > 0 else 0)
                if end or (at(ctx, t.args[4], S.back(l)) and not at(ctx, l, m if pm > 0 else tm.add(m, 1))):
                    return RA.unfold(t, ctx)
            if is_r(t, 'B'):
                if at(ctx, t.args[4], l):
                    return RB.unfold(t, ctx)                      # the definition, once
                if at(ctx, t.args[4], nb):
                    return S.R(pm, RA, RB, i, ii, t.args[4], iv)   # the induction hypothesis
            return None
        v = vf.V(I, unfold)
        v.eq('R%s of the divided stack' % '+-'[pm < 0], start, S.R(pm, RA, RB, i, ii, l, iv))
    return vf.verify('lemma: global reflection coefficient R%s is unchanged by a fictitious interface (induction over the layers)' % '+-'[pm < 0], run, {}, {}, 60)


class SplitFields:
    """amplitudes of B in terms of those of A; sB is the layer of the source in B"""

    def __init__(self, S, FA, FB):
        self.S, self.A, self.B = S, FA, FB

    def claim(self, ctx, up, i, ii, l, iv):
        """value of U_B/D_B at layer l of B, or None: inside the divided source layer (by definition there)"""
        S, FA = self.S, self.A
        m = S.m
        inner = m if up else tm.add(m, 1)          # the part of layer m that is reached second
        X = FA.U if up else FA.D
        if at(ctx, l, inner):
            if at(ctx, FA.s, m):
                return None
            G = FA.R.G(i, ii, m, iv)
            return tm.mul(X(i, ii, m, iv), exp_(-G*S.B.h(tm.add(m, 1) if up else m)))
        return X(i, ii, S.back(l), iv)

    def refl(self, t, ctx):
        """R of B in terms of A (proved above), and its end values in A"""
        S = self.S
        if is_r(t, self.B.R.tag):
            i, ii, l, iv = t.args[2:]
            return S.R(1 if t.args[0] == 'R+' else -1, self.A.R, self.B.R, i, ii, l, iv)
        if is_r(t, self.A.R.tag) and at(ctx, t.args[4], S.A.N-1 if t.args[0] == 'R+' else 0):
            return lit(0)
        return None


def branch(I, S, sA):
    """relative position of source layer, divided layer and ends"""
    N1 = tm.add(S.A.N, -1)
    if not I.decide(tm.cmp_eq(sA, S.m)):
        I.decide(tm.lt(sA, S.m))
    I.decide(tm.cmp_eq(sA, 0))
    I.decide(tm.cmp_eq(sA, N1))
    I.decide(tm.cmp_eq(S.m, 0))
    I.decide(tm.cmp_eq(S.m, N1))


def unit_split_fields(up, pm):
    def run(I):
        S = Split(I)
        e, G = (lambda i, l: fn('e', i, l)), (lambda i, ii, l, iv: fn('Gam', i, ii, l, iv))
        sA, sB = layer(I, S.A, 'sA'), layer(I, S.B, 'sB')
        I.assume(tm.cmp_eq(sA, S.back(sB)))
        z = sym('zsrc', 'R')
        FA = Fields(Refl(S.A, 'A', e, G), sA, sA, z, pm)
        FB = Fields(Refl(S.B, 'B', S.par(e), S.par(G)), sB, sB, z, pm)
        L = SplitFields(S, FA, FB)
        i, ii, iv = idx()
        l = layer(I, S.B, 'l')
        I.assume(tm.lt(l, sB) if up else tm.lt(sB, l))
        branch(I, S, sA)
        I.decide(tm.cmp_eq(sB, S.m))
        pr = tm.add(l, 1 if up else -1)
        I.decide(tm.cmp_eq(l, 0 if up else tm.add(S.B.N, -1)))
        if not I.decide(tm.cmp_eq(pr, sB)):
            I.decide(tm.cmp_eq(pr, S.m))
            I.decide(tm.cmp_eq(pr, tm.add(S.m, 1)))
        I.decide(tm.cmp_eq(l, S.m))
        I.decide(tm.cmp_eq(l, tm.add(S.m, 1)))
        I.decide(tm.lt(l, S.m))
        want = L.claim(I.ctx, up, i, ii, l, iv)
        if want is None:
            I.obls.append(Obligation('inside the divided source layer', 'proved', 'by definition there', 'definition'))
            return
        name = 'U' if up else 'D'
        inner = S.m if up else tm.add(S.m, 1)

        def unfold(t, ctx):
            if t.op == 'f' and t.args[0] == name and t.args[1] == 'B':
                if at(ctx, t.args[4], l):
                    return FB.unfold(t, ctx)
                if at(ctx, t.args[4], pr):
                    c = L.claim(ctx, up, *t.args[2:])
                    return FB.unfold(t, ctx) if c is None else c
                return None
            if t.op == 'f' and t.args[0] == name and t.args[1] == 'A' and at(ctx, t.args[4], S.back(l)) and not at(ctx, l, inner):
                return FA.unfold(t, ctx)
            return L.refl(t, ctx)
        unfold.depth = 400
        vf.V(I, unfold).eq('%s of the divided stack' % name, (FB.U if up else FB.D)(i, ii, l, iv), want)
    return vf.verify('lemma: %sgoing amplitude is unchanged by a fictitious interface (induction over the layers, sign %+d)' % ('up' if up else 'down', pm), run, {}, {}, 100)


def unit_split_green(ab, msrc=False, mrec=False):
    """P^TM, P^TE (contract of greenfct) with the direct field: the same for the divided stack"""
    def run(I):
        S = Split(I)
        raw = {n: (lambda i, l, n=n: fn(n, i, l)) for n in ('etaH', 'etaV', 'zetaH', 'zetaV')}
        ls = [layer(I, S.A, 'lsrcA'), layer(I, S.A, 'lrecA'), layer(I, S.B, 'lsrcB'), layer(I, S.B, 'lrecB')]
        zs, zr = sym('zsrc', 'R'), sym('zrec', 'R')
        for a, b, z in ((ls[0], ls[2], zs), (ls[1], ls[3], zr)):
            I.assume(tm.cmp_eq(a, S.back(b)))
            # the depth lies in its layer of B (the contract of get_layer_nr)
            I.assume(tm.or_(tm.cmp_eq(b, 0), tm.lt(S.B.depthf(b), z)))
            I.assume(tm.or_(tm.cmp_eq(b, tm.add(S.B.N, -1)), tm.le(z, S.B.depthf(tm.add(b, 1)))))
        gA = Green(I, S.A, ab, msrc, mrec, False, raw, (ls[0], ls[1], zs, zr), 'A')
        gB = Green(I, S.B, ab, msrc, mrec, False, {n: S.par(f) for n, f in raw.items()}, (ls[2], ls[3], zs, zr), 'B')
        i, ii, iv = idx()
        branch(I, S, gA.s)
        I.decide(tm.cmp_eq(gB.s, S.m))
        if not I.decide(tm.cmp_eq(gA.r, gA.s)):
            I.decide(tm.lt(gA.r, gA.s))
        I.decide(tm.cmp_eq(gA.r, 0))
        I.decide(tm.cmp_eq(gA.r, tm.add(S.A.N, -1)))
        if not I.decide(tm.cmp_eq(gB.r, S.m)) and not I.decide(tm.cmp_eq(gB.r, tm.add(S.m, 1))):
            I.decide(tm.lt(gB.r, S.m))
        if I.decide(tm.cmp_eq(gA.r, gA.s)):
            I.decide(tm.le(zs, zr))
        Ls = {t: SplitFields(S, gA.mode[t], gB.mode[t]) for t in ('TM', 'TE')}

        def unfold(t, ctx):
            if t.op == 'f' and t.args[0] in ('U', 'D') and t.args[1] in ('TMB', 'TEB'):
                L = Ls[t.args[1][:2]]
                c = L.claim(ctx, t.args[0] == 'U', *t.args[2:])
                return L.B.unfold(t, ctx) if c is None else c
            if t.op == 'f' and t.args[0] in ('R+', 'R-'):
                return Ls[t.args[1][:2]].refl(t, ctx)
            return None
        unfold.depth = 400
        v = vf.V(I, unfold)
        for nm in ('TM', 'TE'):
            v.eq('P%s of the divided stack' % nm, gB.P(nm, i, ii, iv), gA.P(nm, i, ii, iv))
    return vf.verify('lemma: the solution is unchanged by a fictitious interface (ab=%d, msrc=%s, mrec=%s)' % (ab, msrc, mrec), run, {}, {}, 200)


# ------------------------------------------------------------------ reciprocity
def PAR():
    return (lambda i, l: fn('e', i, l)), (lambda i, ii, l, iv: fn('Gam', i, ii, l, iv))


class Chain:
    """delta(s, l): transmission from layer s down to l > s, upsilon(r, l): from r up to l < r, without the factor
    that depends on the source depth:  D_s(l) = S_s delta(s, l),  U_r(l) = pm S'_r upsilon(r, l)."""

    def __init__(self, R):
        self.R, self.w = R, R.w

    def M(self, i, ii, l, iv):
        R = self.R
        ends = tm.or_(tm.cmp_eq(l, 0), tm.cmp_eq(l, tm.add(self.w.N, -1)))
        return tm.ite(ends, lit(1), 1-R.R(1, i, ii, l, iv)*R.R(-1, i, ii, l, iv)*R.E2(i, ii, l, iv))

    def enter(self, up, i, ii, l, iv):
        R = self.R
        end = tm.cmp_eq(l, 0 if up else tm.add(self.w.N, -1))
        return tm.ite(end, lit(1), 1+R.R(-1 if up else 1, i, ii, l, iv)*R.E2(i, ii, l, iv))

    def leave(self, up, i, ii, l, iv):
        return 1+self.R.R(-1 if up else 1, i, ii, l, iv)

    def atom(self, up, i, ii, s, l, iv):
        return fn('ups' if up else 'dlt', self.R.tag, i, ii, s, l, iv)

    def one(self, up, i, ii, s, iv):
        """the first step, s to its neighbour"""
        return self.leave(up, i, ii, s, iv)/self.M(i, ii, s, iv)/self.enter(up, i, ii, tm.add(s, -1 if up else 1), iv)

    def step(self, up, i, ii, l, iv):
        """factor from layer l to the next"""
        R = self.R
        return self.leave(up, i, ii, l, iv)*exp_(-R.G(i, ii, l, iv)*self.w.h(l))/self.enter(up, i, ii, tm.add(l, -1 if up else 1), iv)

    def S(self, up, pm, z, i, ii, s, iv):
        """dependence on the source depth"""
        R, w = self.R, self.w
        E = lambda x: exp_(-R.G(i, ii, s, iv)*x)
        dp, dm = w.depthf(tm.add(s, 1))-z, z-w.depthf(s)
        a, b, end, q = (dm, dp, tm.add(w.N, -1), 1) if up else (dp, dm, 0, -1)
        return tm.ite(tm.cmp_eq(s, end), E(a), E(a)+pm*R.R(q, i, ii, s, iv)*E(w.h(s)+b))


def ends(I, w, *ls):
    for l in ls:
        I.decide(tm.cmp_eq(l, 0))
        I.decide(tm.cmp_eq(l, tm.add(w.N, -1)))


def zero_ends(R):
    """end values of the reflection coefficients"""
    def f(t, ctx):
        if is_r(t, R.tag) and at(ctx, t.args[4], R.w.N-1 if t.args[0] == 'R+' else 0):
            return lit(0)
        return None
    f.depth = 400
    return f


def unit_chain(up, pm):
    """U/D of the contract of `fields` = source factor times transmission (induction over the layers)"""
    def run(I):
        w = base(I, 2)
        R = Refl(w, 'A', *PAR())
        s, l, z = layer(I, w, 's'), layer(I, w, 'l'), sym('zsrc', 'R')
        I.assume(tm.lt(l, s) if up else tm.lt(s, l))
        F, C = Fields(R, s, s, z, pm), Chain(R)
        i, ii, iv = idx()
        pr = tm.add(l, 1 if up else -1)
        first = I.decide(tm.cmp_eq(pr, s))
        ends(I, w, s, l)
        X = F.U if up else F.D
        S = tm.mul(pm if up else 1, C.S(up, pm, z, i, ii, s, iv))
        want = tm.mul(S, C.one(up, i, ii, s, iv) if first else tm.mul(C.atom(up, i, ii, s, pr, iv), C.step(up, i, ii, pr, iv)))
        zero = zero_ends(R)

        def unfold(t, ctx):
            if t.op == 'f' and t.args[0] in 'UD':
                if at(ctx, t.args[4], l):
                    return F.unfold(t, ctx)
                return tm.mul(S, C.atom(up, i, ii, s, pr, iv)) if not first else None
            return zero(t, ctx)
        unfold.depth = 400
        vf.V(I, unfold).eq('amplitude = source factor x transmission', X(i, ii, l, iv), want)
    return vf.verify('lemma: %sgoing amplitude is source factor times transmission (sign %+d)' % ('up' if up else 'down', pm), run, {}, {}, 60)


def unit_chain_compose():
    """upsilon(r, s) = upsilon(r-1, s) upsilon(r, r-1) exp(-G h)(r-1) M(r-1) for s < r-1, by induction over s downwards"""
    def run(I):
        w = base(I, 2)
        R = Refl(w, 'A', *PAR())
        C = Chain(R)
        r, s = layer(I, w, 'r'), layer(I, w, 's')
        i, ii, iv = idx()
        q = tm.add(r, -1)
        I.assume(tm.lt(s, q))
        nb = tm.add(s, 1)
        start = I.decide(tm.cmp_eq(nb, q))
        ends(I, w, r, q, s)
        comp = lambda l: C.atom(True, i, ii, q, l, iv)*C.one(True, i, ii, r, iv)*exp_(-R.G(i, ii, q, iv)*w.h(q))*C.M(i, ii, q, iv)
        left = (C.one(True, i, ii, r, iv) if start else comp(nb))*C.step(True, i, ii, nb, iv)

        def unfold(t, ctx):
            if t.op == 'f' and t.args[0] == 'ups' and at(ctx, t.args[4], q) and at(ctx, t.args[5], s):
                return C.one(True, i, ii, q, iv) if start else C.atom(True, i, ii, q, nb, iv)*C.step(True, i, ii, nb, iv)
            return None
        unfold.depth = 400
        vf.V(I, unfold).eq('composition of upward transmissions', left, comp(s))
    return vf.verify('lemma: the transmission from layer r upwards passes through layer r-1 (induction over the layers)', run, {}, {}, 60)


def ratio(R, i, ii, l, iv):
    return R.e(i, l)/R.G(i, ii, l, iv)


def unit_chain_reciprocal():
    """e/G (s) delta(s, r) = e/G (r) upsilon(r, s) for s < r, by induction over r"""
    def run(I):
        w = base(I, 2)
        R = Refl(w, 'A', *PAR())
        C = Chain(R)
        s, r = layer(I, w, 's'), layer(I, w, 'r')
        I.assume(tm.lt(s, r))
        i, ii, iv = idx()
        q = tm.add(r, -1)
        start = I.decide(tm.cmp_eq(q, s))
        ends(I, w, s, q, r)
        if start:
            left, right = C.one(False, i, ii, s, iv), C.one(True, i, ii, r, iv)

            def unfold(t, ctx):
                # R+ of the upper by that of the lower layer, R- of the lower by that of the upper one
                if is_r(t, 'A') and ((t.args[0] == 'R+' and at(ctx, t.args[4], s)) or (t.args[0] == 'R-' and at(ctx, t.args[4], r))
                                     or at(ctx, t.args[4], w.N-1 if t.args[0] == 'R+' else 0)):
                    return R.unfold(t, ctx)
                return None
        else:
            left = C.atom(False, i, ii, s, q, iv)*C.step(False, i, ii, q, iv)
            # composition lemma, then the induction hypothesis at (s, r-1), then the base case at (r-1, r)
            ups = C.atom(False, i, ii, s, q, iv)*ratio(R, i, ii, s, iv)/ratio(R, i, ii, q, iv)
            one = C.one(False, i, ii, q, iv)*ratio(R, i, ii, q, iv)/ratio(R, i, ii, r, iv)
            right = ups*one*exp_(-R.G(i, ii, q, iv)*w.h(q))*C.M(i, ii, q, iv)
            unfold = zero_ends(R)
        unfold.depth = 400
        vf.V(I, unfold).eq('reciprocity of the transmission', tm.mul(left, ratio(R, i, ii, s, iv)), tm.mul(right, ratio(R, i, ii, r, iv)))
    return vf.verify('lemma: reciprocity of the transmission between two layers (induction over the layers)', run, {}, {}, 60)


def transpose(ab):
    return 10*(ab % 10)+ab//10


ODD = (13, 23, 31, 32)           # components whose angle factor changes sign when source and receiver are interchanged


def raw_par():
    return {n: (lambda i, l, n=n: fn(n, i, l)) for n in ('etaH', 'etaV', 'zetaH', 'zetaV')}


def unit_reciprocal(ab, dual):
    """jparts of component ab from s to r = +-jparts of the transposed component from r to s"""
    def run(I):
        w = base(I)
        s, r, zs, zr = layer(I, w, 'lsrc'), layer(I, w, 'lrec'), sym('zsrc', 'R'), sym('zrec', 'R')
        raw = raw_par()
        same = I.decide(tm.cmp_eq(zs, zr))
        if same:
            zr = zs
        else:
            I.decide(tm.le(zs, zr))
        g1 = Green(I, w, ab, dual, dual, False, raw, (s, r, zs, zr), '1')
        g2 = Green(I, w, transpose(ab), dual, dual, False, raw, (r, s, zr, zs), '2')
        i, ii, iv = idx()
        one = I.decide(tm.cmp_eq(s, r))
        if not one:
            I.decide(tm.lt(s, r))
        ends(I, w, s, r)
        if same and not one:
            return          # excluded by the contract of get_layer_nr: one depth, one layer

        def unfold(t, ctx):
            if t.op != 'f' or t.args[0] not in ('R+', 'R-', 'U', 'D'):
                return None
            mode, k = t.args[1][:2], t.args[1][2]
            R = g1.mode[mode].R
            if t.args[0] in ('R+', 'R-'):
                if at(ctx, t.args[4], w.N-1 if t.args[0] == 'R+' else 0):
                    return lit(0)
                return fn(t.args[0], mode+'1', *t.args[2:]) if k == '2' else None
            F = (g1 if k == '1' else g2).mode[mode]
            C = Chain(R)
            i, ii, l, iv = t.args[2:]
            up = t.args[0] == 'U'
            S = tm.mul(F.pm if up else 1, C.S(up, F.pm, F.z, i, ii, F.s, iv))
            if not up:
                return tm.mul(S, C.atom(False, i, ii, F.s, l, iv))
            # reciprocity of the transmission
            return S*C.atom(False, i, ii, l, F.s, iv)*ratio(R, i, ii, l, iv)/ratio(R, i, ii, F.s, iv)
        unfold.depth = 400
        v = vf.V(I, unfold)
        sg = -1 if ab in ODD else 1
        lam = fn('lambd', ii, iv, sort='R')
        j1 = jparts(ab, dual, *(g1.P(t, i, ii, iv) for t in ('TM', 'TE')), lam)
        j2 = jparts(transpose(ab), dual, *(g2.P(t, i, ii, iv) for t in ('TM', 'TE')), lam)
        for nm, x, y in zip(('J0', 'J1', 'J0b'), j1, j2):
            if x is None or y is None:
                v.fact('%s: absent in both' % nm, x is y)
            else:
                v.eq('%s kernel of the reciprocal experiment' % nm, tm.mul(sg, x), y)
    return vf.verify('lemma: reciprocity of component %d (%s)' % (ab, 'magnetic' if dual else 'electric'), run, {}, {}, 200)


def unit_reciprocal_mixed(ab):
    """a magnetic receiver of an electric source is computed as the reciprocal experiment"""
    def run(I):
        w = base(I)
        s, r, zs, zr = layer(I, w, 'lsrc'), layer(I, w, 'lrec'), sym('zsrc', 'R'), sym('zrec', 'R')
        raw = raw_par()
        for xd in (True, False):
            g1 = Green(I, w, ab, False, True, xd, raw, (s, r, zs, zr))
            g2 = Green(I, w, ab, True, False, xd, raw, (r, s, zr, zs))
            i, ii, iv = idx()
            lam = fn('lambd', ii, iv, sort='R')
            v = vf.V(I)
            j1 = jparts(ab, True, *(g1.P(t, i, ii, iv) for t in ('TM', 'TE')), lam)
            j2 = jparts(ab, False, *(g2.P(t, i, ii, iv) for t in ('TM', 'TE')), lam)
            for nm, x, y in zip(('J0', 'J1', 'J0b'), j1, j2):
                if x is None or y is None:
                    v.fact('%s: absent in both' % nm, x is y)
                else:
                    v.eq('%s kernel of the reciprocal experiment, with the opposite sign' % nm, tm.neg(x), y)
    return vf.verify('lemma: reciprocity of the mixed component %d' % ab, run, {}, {}, 60)


# ------------------------------------------------------------------ vertical origin and mirroring
class Moved:
    """experiment B: A moved vertically by c, or mirrored in a horizontal plane"""

    def __init__(self, I, mirror):
        self.mirror = mirror
        self.A = A_ = base(I)
        self.c = sym('c', 'R')
        if mirror:
            # interface k of B is interface N-k of A, upside down
            df = lambda k: tm.ite(tm.le(k, 0), tm.neg(INF), tm.neg(A_.depthf(tm.add(A_.N, tm.neg(lit(k))))))
        else:
            df = lambda k: tm.ite(tm.le(k, 0), tm.neg(INF), tm.add(A_.depthf(k), self.c))
        self.B = W(A_.N, df)

    def back(self, l):
        return tm.add(self.A.N, -1, tm.neg(lit(l))) if self.mirror else lit(l)

    def z(self, z):
        return tm.neg(z) if self.mirror else tm.add(z, self.c)

    def par(self, f):
        return lambda *k: f(*[self.back(x) if n == (2 if len(k) == 4 else 1) else x for n, x in enumerate(k)])

    def R(self, name, tagA, i, ii, l, iv):
        if self.mirror:
            name = {'R+': 'R-', 'R-': 'R+'}[name]
        return fn(name, tagA, i, ii, self.back(l), iv)

    def X(self, name, tagA, pm, i, ii, l, iv):
        """U, D of B in terms of A"""
        if not self.mirror:
            return fn(name, tagA, i, ii, l, iv)
        return tm.mul(pm, fn({'U': 'D', 'D': 'U'}[name], tagA, i, ii, self.back(l), iv))


def word(mirror):
    return 'in the mirrored experiment' if mirror else 'after a vertical shift'


def unit_moved_refl(mirror, pm):
    def run(I):
        S = Moved(I, mirror)
        e, G = PAR()
        RA, RB = Refl(S.A, 'A', e, G), Refl(S.B, 'B', S.par(e), S.par(G))
        i, ii, iv = idx()
        l = layer(I, S.B, 'l')
        nb, last = tm.add(l, pm), tm.add(S.B.N, -1) if pm > 0 else lit(0)
        if not I.decide(tm.cmp_eq(l, last)):
            I.decide(tm.cmp_eq(nb, last))

        def unfold(t, ctx):
            if is_r(t, 'B'):
                return RB.unfold(t, ctx) if at(ctx, t.args[4], l) else S.R(t.args[0], 'A', *t.args[2:]) if at(ctx, t.args[4], nb) else None
            if is_r(t, 'A') and at(ctx, t.args[4], S.back(l)):
                return RA.unfold(t, ctx)
            return None
        unfold.depth = 400
        vf.V(I, unfold).eq('reflection coefficient', RB.R(pm, i, ii, l, iv), S.R('R+' if pm > 0 else 'R-', 'A', i, ii, l, iv))
    return vf.verify('lemma: R%s %s (induction over the layers)' % ('+-'[pm < 0], word(mirror)), run, {}, {}, 60)


def moved_refl(S, ctx, t, tagB, tagA):
    if is_r(t, tagB):
        return S.R(t.args[0], tagA, *t.args[2:])
    if is_r(t, tagA) and at(ctx, t.args[4], S.A.N-1 if t.args[0] == 'R+' else 0):
        return lit(0)
    return None


def unit_moved_fields(mirror, up, pm):
    def run(I):
        S = Moved(I, mirror)
        e, G = PAR()
        s, l, z = layer(I, S.B, 's'), layer(I, S.B, 'l'), sym('zsrc', 'R')
        FA = Fields(Refl(S.A, 'A', e, G), S.back(s), S.back(s), z, pm)
        FB = Fields(Refl(S.B, 'B', S.par(e), S.par(G)), s, s, S.z(z), pm)
        i, ii, iv = idx()
        I.assume(tm.lt(l, s) if up else tm.lt(s, l))
        pr = tm.add(l, 1 if up else -1)
        first = I.decide(tm.cmp_eq(pr, s))
        ends(I, S.B, s, l)
        nm = 'U' if up else 'D'

        def unfold(t, ctx):
            if t.op == 'f' and t.args[0] in 'UD':
                if t.args[1] == 'B':
                    return FB.unfold(t, ctx) if at(ctx, t.args[4], l) else S.X(nm, 'A', pm, *t.args[2:]) if not first else None
                return FA.unfold(t, ctx) if at(ctx, t.args[4], S.back(l)) else None
            return moved_refl(S, ctx, t, 'B', 'A')
        unfold.depth = 400
        vf.V(I, unfold).eq('amplitude', (FB.U if up else FB.D)(i, ii, l, iv), S.X(nm, 'A', pm, i, ii, l, iv))
    return vf.verify('lemma: %sgoing amplitude %s (sign %+d, induction over the layers)' % ('up' if up else 'down', word(mirror), pm), run, {}, {}, 60)


def parity(ab):
    """sign of a component under z -> -z: vertical electric and horizontal magnetic dipoles change sign"""
    p = lambda d: -1 if d in (3, 4, 5) else 1
    return p(ab//10)*p(ab % 10)


def unit_moved_green(mirror, ab, msrc, mrec, xd):
    def run(I):
        S = Moved(I, mirror)
        raw = raw_par()
        s, r, zs, zr = layer(I, S.B, 'lsrc'), layer(I, S.B, 'lrec'), sym('zsrc', 'R'), sym('zrec', 'R')
        if I.decide(tm.cmp_eq(zs, zr)):
            zr = zs
            if mirror and parity(ab) < 0 and not xd:
                return           # a component that is odd in z: at equal depths its one-sided limits are opposite
        else:
            I.decide(tm.le(zs, zr))
        gA = Green(I, S.A, ab, msrc, mrec, xd, raw, (S.back(s), S.back(r), zs, zr), 'A')
        gB = Green(I, S.B, ab, msrc, mrec, xd, {n: S.par(f) for n, f in raw.items()}, (s, r, S.z(zs), S.z(zr)), 'B')
        i, ii, iv = idx()
        if not I.decide(tm.cmp_eq(s, r)):
            I.decide(tm.lt(s, r))
        ends(I, S.B, s, r)

        def unfold(t, ctx):
            if t.op != 'f' or t.args[0] not in ('R+', 'R-', 'U', 'D'):
                return None
            mode = t.args[1][:2]
            if t.args[0] in 'UD':
                return S.X(t.args[0], mode+'A', gB.mode[mode].pm, *t.args[2:]) if t.args[1] == mode+'B' else None
            return moved_refl(S, ctx, t, mode+'B', mode+'A')
        unfold.depth = 400
        v = vf.V(I, unfold)
        sg = parity(ab) if mirror else 1
        for nm in ('TM', 'TE'):
            v.eq('P%s %s' % (nm, word(mirror)), gB.P(nm, i, ii, iv), tm.mul(sg, gA.P(nm, i, ii, iv)))
    return vf.verify('lemma: the solution %s (ab=%d, msrc=%s, mrec=%s, xdirect=%s)' % (word(mirror), ab, msrc, mrec, xd), run, {}, {}, 200)
