"""Contract of the waveform (utils.check_waveform): a piecewise linear current, convolved with the step or impulse response."""
from uspec import *  # noqa


def unit_waveform(S, signal=0, nquad=None, verb=False):
    """S segments (number fixed, values arbitrary), any number of times, offsets and quadrature points"""
    def run(I):
        nt, no = size(I, 'nt'), size(I, 'noff')
        nq = size(I, 'nquad') if nquad is None else nquad
        m = sym('min_time', 'R')
        setglob(I, 'utils', '_min_time', m)
        t = vec(I, 'time', nt)
        node = [sym('node%d' % k, 'R') for k in range(S+1)]
        cur = [sym('current%d' % k, 'R') for k in range(S+1)]
        for a, b in zip(node, node[1:]):
            I.assume(tm.lt(a, b))
        N = A.mktab((S+1,), {(k,): x for k, x in enumerate(node)}, A.DF)
        C = A.mktab((S+1,), {(k,): x for k, x in enumerate(cur)}, A.DF)
        vf.frame(I, 'nodes', N)
        vf.frame(I, 'amplitudes', C)
        slope = [tm.div(tm.add(cur[k+1], tm.neg(cur[k])), tm.add(node[k+1], tm.neg(node[k]))) for k in range(S)]
        tt = lambda i: fn('time', i, sort='R')
        used = [lambda i, k=k: tm.and_(tm.not_(tm.cmp_eq(slope[k], 0)), tm.lt(node[k], tt(i))) for k in range(S)]
        q = tm.fresh('qt', 'I')
        none = tm.and_(*[tm.or_(tm.cmp_eq(slope[k], 0), tm.all_(q, lit(0), lit(nt), tm.not_(tm.lt(node[k], tt(q))))) for k in range(S)])
        v = vf.V(I)
        try:
            out = I.call_body(I.module('utils').check_waveform, [t, N, C, sym('verb', 'I') if verb else 0, signal, nq], {})
        except PyRaise as e:
            v.fact('refused with a ValueError', isinstance(e.exc, ValueError), repr(e.exc))
            v.true('refused only if the current does not change before any of the times', none)
            return
        v.true('refused if the current does not change before any of the times', tm.not_(none))
        if not (isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], dict) and set(out[1]) == {'signal', 'apply_waveform'}):
            raise Unsupported('the form of the result')
        v.eq('the signal of the response', out[1]['signal'], signal)
        ct = out[0]
        g = lambda x, j: fn('g', x, j, sort='R')
        n = ct._shape[0]
        resp = A.build((n, tm.unlit(no)), lambda k, j: g(ct.at(k), j), A.DF)
        vf.frame(I, 'resp', resp)
        res = I.call(out[1]['apply_waveform'], [resp], {})

        def want(i, j):
            s = lit(0)
            for k in range(S):
                a = tm.add(tt(i), tm.neg(node[k]))
                b = tm.ite(tm.lt(tt(i), node[k+1]), lit(0), tm.add(tt(i), tm.neg(node[k+1])))
                h = tm.div(tm.add(b, tm.neg(a)), 2)

                def node_(x):
                    z = tm.add(tm.mul(h, fn('legendre_x', lit(nq), x, sort='R')), tm.div(tm.add(a, b), 2))
                    return tm.mul(fn('legendre_w', lit(nq), x, sort='R'), g(tm.ite(tm.lt(z, m), m, z), j))
                w = A.gen_sum(nq, node_) if nquad is None else tm.add(*[node_(lit(x)) for x in range(nq)])
                s = tm.add(s, tm.ite(used[k](i), tm.mul(h, slope[k], w), lit(0)))
            return s
        v.array('the sum over the segments of slope times the integral of the response', res, (nt, no), want)
    return vf.verify('utils.check_waveform (%d segments, signal %d%s)' % (S, signal, ', verbose' if verb else ''), run, PRINT, {}, 100)


def unit_waveform_refused(what):
    def run(I):
        t = vec(I, 'time', size(I, 'nt'))
        setglob(I, 'utils', '_min_time', sym('min_time', 'R'))
        n, k = size(I, 'n', 2), size(I, 'k', 2)
        if what == 'shape':
            I.assume(tm.not_(tm.cmp_eq(n, k)))
        N, C = vec(I, 'nodes', n), vec(I, 'amplitudes', k if what == 'shape' else n)
        sg = sym('signal', 'I')
        if what == 'signal':
            I.assume(tm.not_(tm.or_(*[tm.cmp_eq(sg, x) for x in (-1, 0, 1)])))
        else:
            sg = 0
        expect_raise(I, 'refused', lambda: I.call_body(I.module('utils').check_waveform, [t, N, C, 0, sg], {}), ValueError)
    return vf.verify('utils.check_waveform (%s refused)' % what, run, PRINT, {}, 30)


if __name__ == '__main__':
    main(globals())
