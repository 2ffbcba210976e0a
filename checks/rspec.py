"""Contracts of the result array: amplitude and phase (utils.EMArray)."""
from uspec import *  # noqa


def data(I, nd, kind):
    """an array of any lengths with nd axes"""
    sh = tuple(size(I, 'n%d' % j) for j in range(nd))
    if kind == 'complex':
        f = lambda *i: fn('z', *[lit(x) for x in i], sort='C')
    else:
        f = lambda *i: fn('z', *[lit(x) for x in i], sort='R')
    a = A.build(tuple(tm.unlit(n) for n in sh), f, A.DC if kind == 'complex' else A.DF) if nd else A.scalar_arr(f())
    vf.frame(I, 'self', a)
    return sh, f, a


def unit_emarray(nd, kind, what, **opt):
    """what: new, amp, pha"""
    def run(I):
        sh, f, a = data(I, nd, kind)
        v = vf.V(I)
        if what == 'new':
            cls = type('EMArray', (), {})
            out = I.call_body(I.method('utils', 'EMArray', '__new__'), [cls, a], {})
            v.array('the data as given', out, sh, f)
            return
        if what == 'amp':
            out = I.call_body(I.method('utils', 'EMArray', 'amp'), [a], {})
            v.array('the modulus of each entry', out, sh, lambda *i: tm.abs_(f(*i)))
            return
        out = I.call_body(I.method('utils', 'EMArray', 'pha'), [a], dict(opt))
        sg = 1 if opt.get('lag', True) else -1
        w = A.build(tuple(tm.unlit(n) for n in sh), lambda *i: tm.mul(sg, tm.fn('arctan2', tm.im_(f(*i)), tm.re_(f(*i)), sort='R')), A.DF) if nd else A.scalar_arr(
            tm.mul(sg, tm.fn('arctan2', tm.im_(f()), tm.re_(f()), sort='R')))
        if nd and opt.get('unwrap', True):
            one = tm.TRUE
            for n in sh:
                one = tm.and_(one, tm.cmp_eq(n, 1))
            if not I.decide(one):
                w = npshim.NP['unwrap'](w)
        fac = tm.div(180, tm.PI) if opt.get('deg', False) else lit(1)
        v.array('the argument of each entry, as asked for', out, sh, lambda *i: tm.mul(w.at(*i), fac))
    o = ', '.join('%s=%s' % x for x in opt.items())
    return vf.verify('utils.EMArray.%s (%d axes, %s%s)' % ({'new': '__new__'}.get(what, what), nd, kind, ', '+o if o else ''), run, {}, {}, 60)


def unit_pha(nd, kind, deg, unwrap, lag):
    o = {k: x for k, x in zip(('deg', 'unwrap', 'lag'), (deg, unwrap, lag)) if x is not None}
    return unit_emarray(nd, kind, 'pha', **o)


if __name__ == '__main__':
    main(globals())
