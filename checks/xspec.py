"""Contracts of the add-on scripts.tmtemod (split into TM/TE, up- and downgoing parts)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, exp_, add, mul, neg
from pv import verify as vf
from pv.interp import PyRaise
from pv.terms import Unsupported
from kspec import World, Refl, Fields, Green, rarray, same_arr, same_int, need, jparts
from mspec import utils_contracts, mark, LS
from pv.arrays import SArr
from uspec import vec, size, PRINT, main, expect_raise

MOD = 'scripts.tmtemod'
UD = ('uu', 'ud', 'du', 'dd', 'df')


def shifted(t, c):
    """t with every finite interface depth and the depths of source and receiver increased by c"""
    at = {x: add(x, c) for x in tm.atoms_of(t) if x.op == 'f' and x.args[0] == 'depth'}
    return tm.subst(t, {**at, sym('zsrc', 'R'): add(sym('zsrc', 'R'), c), sym('zrec', 'R'): add(sym('zrec', 'R'), c)})


def ends(I, w, l):
    I.decide(tm.cmp_eq(l, 0))
    I.decide(tm.cmp_eq(l, add(w.N, -1)))


def unit_fields(TM):
    """the four amplitudes add up to the up- and downgoing amplitudes of kernel.fields; they depend on distances only"""
    def run(I):
        w = World(I, minlayers=2)
        l = w.layer('lsrc')
        ends(I, w, l)
        G = lambda i, ii, l, iv: fn('Gam', i, ii, l, iv)
        R = Refl(w, 'X', lambda i, l: fn('e', i, l), G)
        z = sym('zsrc', 'R')
        F = Fields(R, l, l, z, -1 if TM else 1)
        Rp, Rm = rarray(w, R, 1, l, l, I, 'Rp'), rarray(w, R, -1, l, l, I, 'Rm')
        out = I.call_body(I.module(MOD).fields, [w.depth(), Rp, Rm, w.arr('Gam', (w.nf, w.no, w.N, w.nl), G), l, l, z, TM], {})
        v = vf.V(I, F.unfold)
        if not isinstance(out, tuple) or len(out) != 4:
            raise Unsupported('four arrays expected')
        sh = (w.nf, w.no, w.nl)
        for nm, a, b, up in (('upgoing', out[0], out[1], True), ('downgoing', out[2], out[3], False)):
            v.array('the two %s parts add up to the amplitude of the kernel' % nm, A.arr(a)+A.arr(b), sh, lambda i, ii, iv: F.P(up, i, ii, iv))
        c = sym('shift', 'R')
        ix = [sym(k, 'I') for k in ('i', 'ii', 'iv')]
        for k, d in zip(ix, sh):
            I.assume(tm.and_(tm.le(0, k), tm.lt(k, d)))
        I.gen_vars.append(ix)
        for k, x in zip(UD, out):
            t = x.at(*ix)
            v.eq('amplitude %s does not depend on the vertical origin' % k, shifted(t, c), t)
    return vf.verify('tmtemod.fields (TM=%s)' % TM, run, {}, {}, 60)


def unit_greenfct():
    """the five parts of each mode add up to the kernel of the total field"""
    def run(I):
        w = World(I, minlayers=2)
        l = w.layer('lsrc')
        zs, zr = sym('zsrc', 'R'), sym('zrec', 'R')
        ends(I, w, l)
        g = Green(I, w, 11, False, False, False, args=(l, l, zs, zr))

        def which(I, Gam, e=None):
            for tag, F in g.mode.items():
                if same_arr(I, Gam, lambda i, ii, l, iv: F.R.G(i, ii, l, iv)) and (e is None or same_arr(I, e, F.R.e)):
                    return tag
            return None

        def refl(I, b):
            tag = which(I, b['Gam'], b['e_zH'])
            need(I, 'reflections: layer parameters', tag is not None)
            need(I, 'reflections: depth', same_arr(I, b['depth'], w.depthf))
            need(I, 'reflections: layers', same_int(I, b['lrec'], l) and same_int(I, b['lsrc'], l))
            R = g.mode[tag].R
            return rarray(w, R, 1, l, l, I, 'Rp'), rarray(w, R, -1, l, l, I, 'Rm')

        def fld(I, b):
            tag = which(I, b['Gam'])
            need(I, 'fields: wavenumbers', tag is not None)
            F = g.mode[tag]
            need(I, 'fields: depth', same_arr(I, b['depth'], w.depthf))
            need(I, 'fields: layers, source depth', same_int(I, b['lrec'], l) and same_int(I, b['lsrc'], l) and same_int(I, b['zsrc'], zs))
            need(I, 'fields: mode', bool(b['TM']) == (tag == 'TM'))
            for nm, x, pm in (('Rp', b['Rp'], 1), ('Rm', b['Rm'], -1)):
                need(I, 'fields: content of %s' % nm, x.ndim == 4 and same_arr(I, x, lambda i, ii, s, iv: F.R.R(pm, i, ii, l, iv), F.unfold))
            part = lambda k, i, ii, iv: fn('part:'+k, tag, i, ii, iv)
            mk = lambda f: A.build((w.nf, w.no, w.nl), f, A.DC)
            return (mk(lambda i, ii, iv: F.P(True, i, ii, iv)-part('u', i, ii, iv)), mk(lambda i, ii, iv: part('u', i, ii, iv)),
                    mk(lambda i, ii, iv: part('d', i, ii, iv)), mk(lambda i, ii, iv: F.P(False, i, ii, iv)-part('d', i, ii, iv)))
        I.contracts.update({'kernel.reflections': refl, MOD+'.fields': fld})
        ar = [w.arr(n, (w.nf, w.N), g.raw[n]) for n in ('etaH', 'etaV', 'zetaH', 'zetaV')]
        out = I.call_body(I.module(MOD).greenfct, [zs, zr, l, l, w.depth(), *ar, w.arr('lambd', (w.no, w.nl), g.lam, A.DF)], {})
        v = vf.V(I, g.unfold)
        sh = (w.nf, w.no, w.nl)
        c = sym('shift', 'R')
        ix = [sym(k, 'I') for k in ('i', 'ii', 'iv')]
        for k, d in zip(ix, sh):
            I.assume(tm.and_(tm.le(0, k), tm.lt(k, d)))
        I.gen_vars.append(ix)
        if len(out) != 2 or any(len(x) != 5 for x in out):
            raise Unsupported('two times five parts expected')
        for nm, parts in zip(('TM', 'TE'), out):
            v.eq('the %s parts add up to the %s part of the kernel' % (nm, nm), add(*[x.at(*ix) for x in parts]), g.P(nm, *ix))
            for k, x in zip(UD, parts):
                t = tm.subst(x.at(*ix), {p: lit(1) for p in tm.atoms_of(x.at(*ix)) if p.op == 'f' and p.args[0].startswith('part:')})
                v.eq('part %s of %s: no dependence on the vertical origin' % (k, nm), shifted(t, c), t)
    return vf.verify('tmtemod.greenfct', run, {}, {}, 100)


def unit_k0(pm):
    """at vanishing wavenumber the reflection coefficients of TE are minus those of TM, in isotropic magnetic and electric permittivity; induction over the layers"""
    def run(I):
        w = World(I)
        l = w.layer('l')
        i, z = sym('i', 'I'), lit(0)
        e, ze = (lambda i, l: fn('etaH', i, l)), (lambda i, l: fn('zetaH', i, l))
        G = lambda i, ii, l, iv: tm.sqrt_(mul(ze(i, l), e(i, l)))
        TM, TE = Refl(w, 'TM', e, G), Refl(w, 'TE', ze, G)
        end = add(w.N, -1) if pm > 0 else lit(0)
        if not I.decide(tm.cmp_eq(l, end)):
            I.decide(tm.cmp_eq(add(l, pm), end))
        hyp = add(l, pm)

        def unfold(t, ctx):
            if t.op != 'f' or t.args[0] not in ('R+', 'R-'):
                return None
            at_l = ctx.decide(tm.cmp_eq(t.args[4], l)) is True
            if at_l:
                return (TM if t.args[1] == 'TM' else TE).unfold(t, ctx)
            if t.args[1] == 'TE' and ctx.decide(tm.cmp_eq(t.args[4], hyp)) is True:
                return neg(fn(t.args[0], 'TM', *t.args[2:]))
            return None
        v = vf.V(I, unfold)
        v.eq('R%s of TE = - R%s of TM at vanishing wavenumber' % (('+', '+') if pm > 0 else ('-', '-')), TE.R(pm, i, z, l, z), neg(TM.R(pm, i, z, l, z)))
    return vf.verify('lemma: reflection at vanishing wavenumber (%s)' % ('from below' if pm > 0 else 'from above'), run, {}, {}, 30)


class Filt:
    def __init__(self, I):
        n = size(I, 'nfilt')
        self.n = n
        for k in ('base', 'j0', 'j1'):
            setattr(self, k, vec(I, 'filt:'+k, n))


def unit_dipole(ns='n', nr='n', inside=True):
    """the ten parts add up to the total field of the same model; only requests within the scope are answered"""
    def run(I):
        nf, N = lit(1) if inside else size(I, 'nf'), size(I, 'N')
        nS, nR = (size(I, 'nsrc') if ns == 'n' else lit(1)), (size(I, 'nrec') if nr == 'n' else lit(1))
        for n, k in ((nS, ns), (nR, nr)):
            if k == 'n':
                I.assume(tm.le(2, n))
        I.assume(tm.and_(tm.le(0, LS), tm.lt(LS, N)))
        src = [vec(I, 'xs', nS), vec(I, 'ys', nS), vec(I, 'zs', 1)]
        rec = [vec(I, 'xr', nR), vec(I, 'yr', nR), vec(I, 'zr', 1)]
        dep, res, fr = vec(I, 'depth', N), vec(I, 'res', N), vec(I, 'freq', nf)
        opt = {k: vec(I, k, N) for k in ('aniso', 'eperm', 'mperm')}
        filt = Filt(I)
        c = I.contracts
        zs, zr = fn('zs', lit(0), sort='R'), fn('zr', lit(0), sort='R')
        seen = {}
        w = World(I)
        w.N = lit(N)
        kind = dict(res='res', aniso='aniso', epermH='eperm', epermV='eperm', mpermH='mperm', mpermV='mperm')

        def check_model(I, a):
            need(I, 'check_model: depth', same_arr(I, A.arr(a['depth']), lambda l: fn('depth', l, sort='R')))
            pr = [A.build((tm.unlit(lit(N)),), lambda l, p=p, k=k: fn('m:'+k, l, mark(a[p]), sort='R'), A.DF) for p, k in kind.items()]
            d = A.build((tm.unlit(lit(N)),), w.depthf, A.DF)
            return (d, *pr, sym('isfullspace', 'B'))

        def check_frequency(I, a):
            seen['freq'] = a
            C = lambda n: A.build((tm.unlit(lit(nf)), tm.unlit(lit(N))), lambda i, l: fn(n, i, l), A.DC)
            return (a['freq'], C('etaH'), C('etaV'), C('zetaH'), C('zetaV'))

        lay = lambda z: fn('layer', z, sort='I')

        def get_layer_nr(I, a):
            need(I, 'get_layer_nr: depth', same_arr(I, A.arr(a['depth']), w.depthf))
            z = a['inp'][2]
            z = z[0] if isinstance(z, SArr) else z
            z = z.item() if isinstance(z, SArr) else z
            l = lay(lit(z))
            I.assume(tm.and_(tm.le(0, l), tm.lt(l, N)))
            return (l, z)

        part = lambda m, k, i, ii, iv: fn('P%s%s' % (m, k), i, ii, iv)

        def green(I, b):
            seen['green'] = b
            mk = lambda m: [A.build((tm.unlit(lit(nf)), tm.unlit(mul(nR, nS)), tm.unlit(filt.n)), lambda i, ii, iv, k=k: part(m, k, i, ii, iv), A.DC) for k in UD]
            return (mk('TM'), mk('TE'))

        def angle(I, b):
            need(I, 'angle_factor: component', same_int(I, b['ab'], 11) and not b['msrc'] and not b['mrec'])
            a = A.arr(b['angle'])
            return A.build(a._shape, lambda j: fn('angfact', a.at(j), sort='R'), A.DF)

        e, ze = (lambda i, l: fn('etaH', i, l)), (lambda i, l: fn('zetaH', i, l))
        G = lambda i, ii, l, iv: tm.sqrt_(mul(ze(i, l), e(i, l)))
        RM, RE = Refl(w, 'TM', e, G), Refl(w, 'TE', ze, G)

        def refl(I, b):
            need(I, 'reflections: depth', same_arr(I, b['depth'], w.depthf))
            need(I, 'reflections: wavenumbers', same_arr(I, b['Gam'], G))
            tag = 'TM' if same_arr(I, b['e_zH'], e) else 'TE' if same_arr(I, b['e_zH'], ze) else None
            need(I, 'reflections: layer parameters', tag is not None)
            l = lay(zs)
            need(I, 'reflections: layers', same_int(I, b['lrec'], l) and same_int(I, b['lsrc'], l))
            # contract of reflections; TE written with the lemma (unit_k0)
            sg = 1 if tag == 'TM' else -1
            mk = lambda pm: A.build((tm.unlit(lit(nf)), 1, 1, 1), lambda i, ii, s, iv: mul(sg, RM.R(pm, i, lit(0), l, lit(0))), A.DC)
            return mk(1), mk(-1)
        c.update({'utils.check_model': check_model, 'utils.check_frequency': check_frequency, 'utils.get_layer_nr': get_layer_nr, MOD+'.greenfct': green,
                  'kernel.reflections': refl, 'kernel.angle_factor': angle})
        off_ang = c['utils.get_off_ang'](I, dict(src=src, rec=rec, nsrc=nS, nrec=nR))
        c['filters.Hankel'] = lambda I, a, k: type('H', (), {'key_201_2012': filt})()
        ls, lr = lay(zs), lay(zr)
        scope = tm.and_(tm.cmp_eq(ls, lr), tm.le(2, lit(N)), tm.le(lit(nf), 1))
        I.assume(scope if inside else tm.not_(scope))
        call = lambda: I.call_body(I.module(MOD).dipole, [src, rec, dep, res, fr], {**opt, 'verb': sym('verb', 'I')})
        if not inside:
            expect_raise(I, 'requests outside the scope are refused', call, ValueError)
            return
        ends(I, w, ls)
        out = call()
        v = vf.V(I)
        if len(out) != 2 or any(len(x) != 5 for x in out):
            raise Unsupported('two times five parts expected')
        # what the internal functions are given
        if 'freq' not in seen or 'green' not in seen:
            raise Unsupported('check_frequency or greenfct not called')
        a = seen['freq']
        for p, k in kind.items():
            given = res if k == 'res' else opt[k]
            v.array('check_frequency: %s of the model as given' % p, A.arr(a[p]), (N,), lambda l, k=k: fn('m:'+k, l, mark(given), sort='R'))
        v.array('check_frequency: frequency', A.arr(a['freq']), (nf,), lambda i: fn('freq', i, sort='R'))
        b = seen['green']
        off, ang = off_ang
        same = lambda x, f: same_arr(I, A.arr(x), f)
        lam = lambda ii, iv: tm.div(fn('filt:base', iv, sort='R'), off.at(ii))
        need(I, 'greenfct: scalars', all(same_int(I, b[k], x) for k, x in (('zsrc', zs), ('zrec', zr), ('lsrc', ls), ('lrec', lr))))
        need(I, 'greenfct: depth, medium, wavenumbers', same(b['depth'], w.depthf) and all(same(b[n], lambda i, l, n=n: fn(n, i, l)) for n in ('etaH', 'etaV', 'zetaH', 'zetaV')) and same(b['lambd'], lam))
        q, r = sym('q', 'I'), sym('r', 'I')
        I.assume(tm.and_(tm.le(0, q), tm.lt(q, nS), tm.le(0, r), tm.lt(r, nR)))
        I.gen_vars.append([q, r])
        j = add(mul(q, nR), r)
        dims = tuple(d for d, k in ((nR, nr), (nS, ns)) if k == 'n')
        ix = tuple(d for d, k in ((r, nr), (q, ns)) if k == 'n')
        tot = lit(0)
        for m in out:
            for x in m:
                x = A.arr(x)
                v.true('one value per receiver and source', tm.and_(*[tm.cmp_eq(lit(d), e) for d, e in zip(x._shape, dims)]) if len(x._shape) == len(dims) else tm.FALSE)
                tot = add(tot, x.at(*ix))
        o, an = off.at(j), fn('angfact', ang.at(j), sort='R')
        z = lit(0)

        def total(f, n):
            k = tm.fresh('k', 'I')
            return tm.sum_(k, lit(0), filt.n, mul(f(k), fn('filt:'+n, k, sort='R')))
        P = lambda m, k: add(*[part(m, u, z, j, k) for u in UD])
        J = lambda n: (lambda k: jparts(11, False, P('TM', k), P('TE', k), lam(j, k))[n])
        want = tm.div(add(total(J(0), 'j0'), mul(an, total(J(2), 'j0')), mul(an, tm.div(total(J(1), 'j1'), o))), o)
        v.eq('the parts add up to the total field', tot, want)
    con = {**PRINT, **utils_contracts(lit(1) if inside else sym('nf', 'I'), sym('N', 'I'))}
    return vf.verify('tmtemod.dipole (%s, %s sources, %s receivers)' % ('in scope' if inside else 'outside the scope', ns, nr), run, con, {}, 100)


if __name__ == '__main__':
    main(globals())
