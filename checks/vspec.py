"""Contracts of the input checks: what is refused, what is passed on, what is reported (C24; poles also C16, filters also C27)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import terms as tm, arrays as A
from pv.terms import lit, fn, sym, Unsupported
from pv.arrays import SArr
from pv import verify as vf
from pv.interp import PyRaise, Obligation, Obj
from uspec import vec, size, expect_raise, iff, setglob, PRINT, main, check_min_contract


class Other(str):
    """a string about which only is known that it is none of the names the code compares it with"""
    def _no(self, *a, **k):
        raise Unsupported('operation on an unknown string')
    __eq__ = lambda self, o: o is self
    __ne__ = lambda self, o: o is not self
    __hash__ = lambda self: 17
    lower = strip = lambda self: self
    __format__ = lambda self, f: '<text>'
    __str__ = __repr__ = lambda self: '<text>'
    __contains__ = __getitem__ = __iter__ = __len__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __mod__ = _no
    startswith = endswith = upper = capitalize = casefold = title = split = find = index = count = replace = encode = _no


def accepted(I, name, f):
    """the call must not raise"""
    try:
        return f()
    except PyRaise as e:
        I.obls.append(Obligation(name, 'refuted', 'raises %r | path: %s' % (e.exc, vf.path_text(I)), 'symbolic execution'))
        return None


def warnings(I, n0):
    return [t for t in I.printed[n0:] if 'WARNING' in t]


def warn_iff(I, v, verb, n0, due, what):
    """a warning is printed exactly if it is due and verbosity is above zero"""
    w = warnings(I, n0)
    v.true('%s: warning exactly if verbosity is above zero' % what if due else 'no warning without reason (%s)' % what, tm.lt(0, verb) if w and due else tm.FALSE if w else tm.le(verb, 0) if due else tm.TRUE)


# ------------------------------------------------------------------ poles
def unit_check_dipole(nx, ny, nz='1', length=3):
    """nx, ny: '1' one entry, 'n' n>1 entries, 'm' another number of entries >1; nz: 's' a number, '1' one entry, 'n' n>1 entries"""
    def run(I):
        n, m = size(I, 'n', 2), size(I, 'm', 2)
        I.assume(tm.not_(tm.cmp_eq(n, m)))
        L = {'1': 1, 'n': n, 'm': m}
        x, y = vec(I, 'x', L[nx]), vec(I, 'y', L[ny])
        z = sym('z', 'R') if nz == 's' else vec(I, 'z', L[nz])
        inp = [x, y, z, vec(I, 'q', 1)][:length]
        call = lambda: I.call_body(I.module('utils').check_dipole, [inp, 'src', sym('verb', 'I')], {})
        if length != 3 or nz == 'n' or {nx, ny} == {'n', 'm'}:
            expect_raise(I, 'coordinates that do not fit together are refused', call, (ValueError, TypeError))
            return
        out = accepted(I, 'valid coordinates are accepted', call)
        if out is None:
            return
        v = vf.V(I)
        if not (isinstance(out, tuple) and len(out) == 2 and len(out[0]) == 3):
            raise Unsupported('coordinates and their number expected')
        N = n if 'n' in (nx, ny) else 1
        v.eq('number of poles', out[1], lit(N))
        for nm, c, k in (('x', out[0][0], nx), ('y', out[0][1], ny)):
            v.array('%s of every pole' % nm, c, (lit(N),), lambda i, nm=nm, k=k: fn(nm, lit(0) if k == '1' else i, sort='R'))
        v.array('one depth', out[0][2], (lit(1),), lambda i: z if nz == 's' else fn('z', lit(0), sort='R'))
    return vf.verify('utils.check_dipole (x: %s, y: %s, z: %s entries%s)' % (nx, ny, nz, '' if length == 3 else '; %d coordinates' % length), run, PRINT, {}, 60)


NM5, NM6 = ('x', 'y', 'z', 'azm', 'dip'), ('x0', 'x1', 'y0', 'y1', 'z0', 'z1')


def unit_check_bipole(sizes, mx='B', name='src'):
    """sizes: per entry 's' (a number), '1', 'n' or 'm' (another number > 1); mx: 'B' a boolean, None (old signature), or a string"""
    dip = len(sizes) == 5
    nms = NM5 if dip else NM6

    def run(I):
        n, m = size(I, 'n', 2), size(I, 'm', 2)
        I.assume(tm.lt(m, n))
        L = {'1': 1, 'n': n, 'm': m}
        inp = [sym(k+'0', 'R') if s == 's' else vec(I, k, L[s]) for k, s in zip(nms, sizes)] if len(sizes) in (5, 6) else [vec(I, 'q%d' % k, L[s]) for k, s in enumerate(sizes)]
        b = sym('mx', 'B') if mx == 'B' else mx
        call = lambda: I.call_body(I.module('utils').check_bipole, [inp, name, b, sym('verb', 'I')], {})
        if len(sizes) not in (5, 6) or ('m' in sizes and 'n' in sizes):
            expect_raise(I, 'entries that do not fit together are refused', call, ValueError)
            return
        if mx not in ('B', None) and not (mx in ('b', 'loop') or (mx == 'j' and name == 'rec')):
            expect_raise(I, 'another quantity is refused', call, (ValueError, TypeError, IndexError))
            return
        v = vf.V(I)
        many = 'n' in sizes
        N = n if many else lit(1)
        a = lambda nm, i: sym(nm+'0', 'R') if sizes[nms.index(nm)] == 's' else fn(nm, i if sizes[nms.index(nm)] == 'n' else lit(0), sort='R')
        i = tm.fresh('i', 'I')
        near = lambda nm: tm.all_(i, lit(0), N, tm.le(tm.abs_(tm.add(a(nm, i), tm.neg(a(nm, lit(0))))), lit(1e-8))) if sizes[nms.index(nm)] == 'n' else tm.TRUE
        if not dip:
            flat = {k: near(k) for k in ('z0', 'z1')}
            zz = lambda k: (lambda j: tm.ite(flat[k], a(k, lit(0)), a(k, j)))
            diff = lambda j: tm.or_(*[tm.not_(tm.cmp_eq(p, q)) for p, q in ((a('x0', j), a('x1', j)), (a('y0', j), a('y1', j)), (zz('z0')(j), zz('z1')(j)))])
            good = tm.all_(i, lit(0), N, diff(i))
        try:
            out = call()
        except PyRaise as e:
            if dip or not isinstance(e.exc, ValueError):
                I.obls.append(Obligation('valid poles are accepted', 'refuted', 'raises %r | path: %s' % (e.exc, vf.path_text(I)), 'symbolic execution'))
            else:
                v.true('refused only if a pole is a point', tm.not_(good))
            return
        if not dip:
            v.true('accepted only if no pole is a point', good)
        if not isinstance(out, tuple) or len(out) != (4 if mx is None else 6) or len(out[0]) != len(sizes):
            raise Unsupported('result of another form')
        v.eq('number of poles', out[1], N)
        v.fact('kind of pole', out[3] is dip or lit(out[3]) is lit(dip), repr(out[3]))
        flatz = tm.and_(*[near(k) for k in (('z',) if dip else ('z0', 'z1'))])
        nz = tm.ite(flatz, lit(1), N)
        v.true('number of depths', tm.cmp_eq(lit(out[2]), nz))
        one = I.ctx.entails(flatz)
        for nm, c in zip(nms, out[0]):
            if nm[0] in 'xy':
                v.array('%s of every pole' % nm, c, (N,), lambda j, nm=nm: a(nm, j))
            elif nm[0] == 'z':
                v.array('%s of every pole' % nm, c, (lit(1) if one else N,), lambda j, nm=nm: a(nm, lit(0)) if one else a(nm, j) if dip else zz(nm)(j))
            else:
                k = sizes[nms.index(nm)] == 'n' or (many and not one)
                v.array('%s of every pole' % nm, c, (N if k else lit(1),), lambda j, nm=nm: a(nm, j))
        if mx == 'B':
            v.true('kind of quantity', iff(tm.tob(out[4]), b))
            v.fact('no flux or current density', out[5] is None, repr(out[5]))
        elif mx is not None:
            v.true('kind of quantity', tm.tob(out[4]) if mx in ('b', 'loop') else tm.not_(tm.tob(out[4])))
            v.fact('flux or current density', out[5] == ('j' if mx == 'j' else 'b'), repr(out[5]))
    return vf.verify('utils.check_bipole (%d entries: %s; %s; %s)' % (len(sizes), ''.join(sizes), name, mx), run, PRINT, {}, 60)


# ------------------------------------------------------------------ solution, loop
SOLUTIONS = ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm')


def unit_check_solution(solution, signal):
    def run(I):
        ms, mr = sym('msrc', 'B'), sym('mrec', 'B')
        known = solution in SOLUTIONS
        call = lambda: I.call_body(I.module('utils').check_solution, [solution if known else Other('other'), signal, sym('ab', 'I'), ms, mr], {})
        v = vf.V(I)
        bad = tm.TRUE if not known or (solution == 'fs' and signal is not None) else tm.or_(ms, mr) if solution != 'fs' else tm.FALSE
        try:
            call()
        except PyRaise as e:
            v.fact('refused with a ValueError', isinstance(e.exc, ValueError), repr(e.exc))
            v.true('refused only without reason to accept', bad)
            return
        v.true('accepted only without reason to refuse', tm.not_(bad))
    return vf.verify('utils.check_solution (%s, signal %s)' % (solution, signal), run, {}, {}, 30)


def unit_check_loop(ht, loop):
    def run(I):
        p = sym('pts_per_dec', 'R')
        out = accepted(I, 'accepted', lambda: I.call_body(I.module('utils').check_loop, [Other('other') if loop == 'other' else loop, ht, {'pts_per_dec': p, 'dlf': 'x'}, sym('verb', 'I')], {}))
        if out is None:
            return
        v = vf.V(I)
        fr, of = out
        lagged = tm.not_(tm.cmp_eq(p, 0)) if ht == 'dlf' else tm.TRUE
        v.true('loop over frequencies: where the method needs it, otherwise on request', iff(tm.tob(fr), tm.or_(lagged, tm.TRUE if loop == 'freq' else tm.FALSE)))
        v.true('loop over offsets: on request, where the method allows it', iff(tm.tob(of), tm.and_(tm.not_(lagged), tm.TRUE if loop == 'off' else tm.FALSE)))
    return vf.verify('utils.check_loop (%s, loop=%s)' % (ht, loop), run, {}, {}, 30)


# ------------------------------------------------------------------ keywords
KNOWN = ('depth', 'ht', 'htarg', 'ft', 'ftarg', 'xdirect', 'loop', 'signal', 'ab', 'freqtime', 'freq', 'wavenumber', 'solution', 'cf', 'gain',
         'msrc', 'srcpts', 'mrec', 'recpts', 'strength', 'squeeze', 'bandpass')
WANTED = (('verb', 'ht', 'htarg', 'ft', 'ftarg', 'xdirect', 'loop', 'squeeze', 'bandpass'), ('verb', 'squeeze'), ('verb',))


def unit_get_kwargs(wanted, given, rest):
    """wanted names; those given; rest: None, 'known' (every keyword of another routine, one at a time), 'unknown', 'both'"""
    def run(I):
        v = vf.V(I)
        for extra in [k for k in KNOWN if k not in wanted] if rest in ('known', 'both') else [None]:
            n0 = len(I.printed)
            D = {k: sym('default:'+k, 'I') for k in wanted}
            G = {k: sym('given:'+k, 'I') for k in given}
            kw = dict(G)
            if extra:
                kw[extra] = sym('extra', 'I')
            if rest in ('unknown', 'both'):
                kw[Other('other')] = sym('unknown', 'I')
            call = lambda: I.call_body(I.module('utils').get_kwargs, [list(wanted), [D[k] for k in wanted], kw], {})
            if rest in ('unknown', 'both'):
                expect_raise(I, 'an unknown keyword is refused', call, TypeError)
                continue
            out = accepted(I, 'valid keywords are accepted', call)
            if out is None:
                return
            v.fact('as many values as names', len(out) == len(wanted), repr(out))
            for k, x in zip(wanted, out):
                v.eq('%s: as given, otherwise its default' % k, x, G.get(k, D[k]))
            verb = G.get('verb', D['verb'])
            warn_iff(I, v, verb, n0, bool(extra), 'keyword of another routine')
    return vf.verify('utils.get_kwargs (%s; given: %s; rest: %s)' % ('/'.join(wanted), '/'.join(given), rest), run, {}, {}, 60)


# ------------------------------------------------------------------ Hankel and Fourier arguments
class Filter(Obj):
    pass


def flt(parts, tag='user'):
    return Filter(name='<text>', tag=tag, **{p: '<%s>' % p for p in parts})


class Lib:
    """the filter library: one filter per name (C27)"""

    def __init__(self, parts):
        self._p = parts
        self._o = Obj()

    def get(self, n):
        return self._o.__dict__.setdefault(n, flt(self._p, n))


def library(I):
    lib = {}

    def mk(kind, parts, names):
        o = Obj(**{n: flt(parts, kind+':'+n) for n in names})
        lib[kind] = o
        return lambda *a: o
    h = mk('Hankel', ('base', 'factor', 'j0', 'j1'), ('key_201_2009', 'wer_201_2018'))
    f = mk('Fourier', ('base', 'factor', 'sin', 'cos'), ('key_201_2012', 'key_81_CosSin_2009'))
    setglob(I, 'utils', 'filters', Obj(Hankel=h, Fourier=f))
    return lib


HOPT = {'dlf': dict(pts_per_dec=('R', 0.)), 'qwe': dict(rtol=('R', 1e-12), atol=('R', 1e-30), nquad=('I', 51), maxint=('I', 100), pts_per_dec=('I', 0), diff_quad=('R', 100), a=('R', None), b=('R', None), limit=('I', None)),
        'quad': dict(rtol=('R', 1e-12), atol=('R', 1e-20), limit=('I', 500), a=('R', 1e-6), b=('R', .1), pts_per_dec=('I', 40))}
PMIN = {'qwe': 0, 'quad': 1}
SPELL = {'dlf': 'DLF', 'qwe': 'QWE', 'quad': 'Quad', 'fft': 'FFT', 'fftlog': 'FFTLog'}


def unit_check_hankel(ht, given='all', dlf=None, extra=False, upper=False):
    """given: 'all' or 'none' of the options; dlf: None, 'name', or the parts of a user filter; extra: an option of no use to the method is given"""
    def run(I):
        lib = library(I)
        verb = sym('verb', 'I')
        if ht == 'other':
            expect_raise(I, 'an unknown method is refused', lambda: I.call_body(I.module('utils').check_hankel, [Other('other'), {}, verb], {}), ValueError)
            return
        opt = HOPT[ht]
        G = {k: sym('o:'+k, s) for k, (s, d) in opt.items()} if given == 'all' else {}
        arg = dict(G)
        user = None
        if dlf == 'name':
            arg['dlf'] = 'wer_201_2018'
        elif dlf is not None:
            user = arg['dlf'] = flt(dlf)
        if extra:
            arg[Other('option')] = 1
        n0 = len(I.printed)
        call = lambda: I.call_body(I.module('utils').check_hankel, [SPELL[ht] if upper else ht, arg, verb], {})
        if user is not None and set(dlf) != {'base', 'factor', 'j0', 'j1'}:
            expect_raise(I, 'a filter without the needed parts is refused', call, AttributeError)
            return
        out = accepted(I, 'valid arguments are accepted', call)
        if out is None:
            return
        v = vf.V(I)
        v.fact('the method', isinstance(out, tuple) and out[0] == ht, repr(out))
        t = out[1]
        for k, (s, d) in opt.items():
            want = G.get(k, d)
            if want is None:
                v.fact('%s: not set' % k, t[k] is None, repr(t[k]))
                continue
            want = lit(want)
            if k == 'pts_per_dec' and ht in PMIN:
                want = tm.ite(tm.lt(want, PMIN[ht]), lit(PMIN[ht]), want)
            v.eq('%s: as given, otherwise its default' % k, t[k].item() if isinstance(t[k], SArr) else t[k], want)
        if ht == 'dlf':
            v.fact('the filter', t['dlf'] is (user if user is not None else lib['Hankel'].__dict__['wer_201_2018' if dlf == 'name' else 'key_201_2009']), 'another filter')
        w = warnings(I, n0)
        extra_ = extra
        due = [x for x in w if 'pts_per_dec' not in x and 'values <' not in x]
        v.true('an option of no use is reported' if extra_ else 'no report without reason', (tm.lt(0, verb) if due else tm.le(verb, 0)) if extra_ else (tm.FALSE if due else tm.TRUE))
    return vf.verify('utils.check_hankel (%s, options: %s%s%s%s)' % (SPELL.get(ht, ht) if upper else ht, given, '' if dlf is None else ', filter '+(dlf if dlf == 'name' else '/'.join(dlf)), ', unused option' if extra else '', ''),
                     run, {**PRINT, 'utils._check_min': check_min_contract}, {}, 60)


TOPT = {'dlf': dict(pts_per_dec=('R', -1.)),
        'qwe': dict(rtol=('R', 1e-8), atol=('R', 1e-20), nquad=('I', 21), maxint=('I', 200), pts_per_dec=('I', 20), diff_quad=('I', 100), a=('R', None), b=('R', None), limit=('I', None)),
        'fftlog': dict(pts_per_dec=('I', 10), q=('R', 0)),
        'fft': dict(dfreq=('R', .002), nfreq=('I', 2048), ntot=('I', None), pts_per_dec=('I', None))}
TMIN = {'qwe': 1, 'fftlog': 1, 'fft': 1}


def unit_check_time_only(kind):
    """kind: 'number' (any integer), 'dict' (a waveform), 'none', 'other' (a string)"""
    def run(I):
        n, m = size(I, 'nt'), sym('min_time', 'R')
        I.assume(tm.lt(0, m))
        setglob(I, 'utils', '_min_time', m)
        t = vec(I, 'time', n)
        verb = sym('verb', 'I')
        wave = {'nodes': vec(I, 'nodes', 2), 'amplitudes': vec(I, 'ampl', 2), 'signal': 1}
        got = []

        def waveform(I, a):
            got.append(a)
            return ('<times>', {'signal': a.get('signal', 0), 'apply_waveform': '<f>'})
        I.contracts['utils.check_waveform'] = waveform
        sg = {'number': sym('signal', 'I'), 'dict': wave, 'none': None, 'other': Other('other')}[kind]
        call = lambda: I.call_body(I.module('utils').check_time_only, [t, sg, verb], {'new': True})
        cl = lambda k: tm.ite(tm.lt(fn('time', k, sort='R'), m), m, fn('time', k, sort='R'))
        if kind in ('none', 'other'):
            expect_raise(I, 'another signal is refused', call, (ValueError, TypeError))
            return
        v = vf.V(I)
        ok = tm.TRUE if kind == 'dict' else tm.or_(*[tm.cmp_eq(sg, k) for k in (-1, 0, 1)])
        try:
            out = call()
        except PyRaise as e:
            v.fact('refused with a ValueError', isinstance(e.exc, ValueError), repr(e.exc))
            v.true('refused only if the signal is none of -1, 0, 1', tm.not_(ok))
            return
        v.true('accepted only if the signal is -1, 0, 1 or a waveform', ok)
        if kind == 'dict':
            v.fact('the waveform is handed on', len(got) == 1 and got[0]['nodes'] is wave['nodes'] and got[0]['amplitudes'] is wave['amplitudes'] and got[0].get('signal') == 1, 'another waveform')
            v.array('times of the waveform: at least the minimum', got[0]['time'], (n,), cl)
            v.fact('times and signal of the waveform', out[0] == '<times>' and isinstance(out[1], dict), repr(out))
        else:
            v.array('times: at least the minimum', out[0], (n,), cl)
            v.eq('signal', out[1], sg)
    return vf.verify('utils.check_time_only (signal: %s)' % kind, run, {**PRINT, 'utils._check_min': check_min_contract}, {}, 30)


def unit_check_time(ft, signal, given='all', flt_=None, extra=False, upper=False):
    """flt_: None, 'name', or the parts of a user filter; signal: -1, 0, 1 or 'dict'"""
    def run(I):
        lib = library(I)
        verb, n = sym('verb', 'I'), size(I, 'nt')
        t = vec(I, 'time', n)
        sg = {'signal': 0, 'apply_waveform': '<f>'} if signal == 'dict' else signal
        tc = vec(I, 'timec', n)
        j = tm.fresh('j', 'I')
        I.assume(tm.all_(j, lit(0), n, tm.lt(0, fn('timec', j, sort='R'))))
        used = []

        def time_only(I, a):
            used.append(1)
            return (tc, sg)
        I.contracts['utils.check_time_only'] = time_only
        if ft == 'other':
            expect_raise(I, 'an unknown method is refused', lambda: I.call_body(I.module('utils').check_time, [t, sg, Other('other'), {}, verb], {'new': True}), ValueError)
            return
        pts = []

        def points(I, a):
            pts.append(a)
            L = size(I, 'npts')
            return (A.build((tm.unlit(L),), lambda k: fn('points', k, sort='R'), A.DF), None)
        loginput = []

        def fftlog_input(I, a):
            loginput.append(a)
            L = size(I, 'npts')
            return (A.build((tm.unlit(L),), lambda k: fn('points', k, sort='R'), A.DF), 'tcalc', 'dlnr', 'kr', 'rk')
        I.contracts['transform.get_dlf_points'] = points
        I.contracts['transform.get_fftlog_input'] = fftlog_input
        opt = TOPT[ft]
        G = {k: sym('o:'+k, s) for k, (s, d) in opt.items() if given == 'all' or (given == 'some' and k in ('dfreq', 'nfreq'))}
        if ft in ('fft', 'qwe'):
            for k in ('nfreq', 'maxint', 'nquad', 'dfreq'):
                if k in G:
                    I.assume(tm.lt(0, G[k]))
        arg = dict(G)
        user = None
        s = 0 if signal == 'dict' else signal
        if ft == 'dlf' and given == 'all':
            arg['kind'] = 'cos'
        kind = 'cos' if s < 0 or (s == 0 and given == 'all') else 'sin'
        if flt_ == 'name':
            arg['dlf'] = 'key_81_CosSin_2009'
        elif flt_ is not None:
            user = arg['dlf'] = flt(flt_)
        if extra:
            arg[Other('option')] = 1
        n0 = len(I.printed)
        call = lambda: I.call_body(I.module('utils').check_time, [t, sg, SPELL[ft] if upper else ft, arg, verb], {'new': True})
        if user is not None and not set(flt_) >= {'base', 'factor', kind}:
            expect_raise(I, 'a filter without the needed parts is refused', call, AttributeError)
            return
        out = accepted(I, 'valid arguments are accepted', call)
        if out is None:
            return
        v = vf.V(I)
        if not isinstance(out, tuple) or len(out) != 5 or not used:
            raise Unsupported('five results expected')
        time, freq, m, g, w = out
        v.fact('the method', m == ft, repr(m))
        v.fact('the signal or waveform', w is sg or w == sg, repr(w))
        v.array('the times', time, (n,), lambda k: fn('timec', k, sort='R'))
        for k, (srt, d) in opt.items():
            want = G.get(k, d)
            x = g[k].item() if isinstance(g[k], SArr) and g[k].ndim == 0 else g[k]
            if k == 'ntot':
                continue
            if want is None:
                v.fact('%s: not set' % k, g[k] is None, repr(g[k]))
                continue
            want = lit(want)
            if k == 'pts_per_dec' and ft in TMIN:
                want = tm.ite(tm.lt(want, TMIN[ft]), lit(TMIN[ft]), want)
            if k == 'q':
                want = tm.ite(tm.lt(1, want), lit(1), tm.ite(tm.lt(want, -1), lit(-1), want))
            v.eq('%s: as given, otherwise its default' % k, x, want)
        if ft == 'dlf':
            v.fact('sine or cosine as the signal demands', g['kind'] == kind, repr(g['kind']))
            v.fact('the filter', g['dlf'] is (user if user is not None else lib['Fourier'].__dict__['key_81_CosSin_2009' if flt_ == 'name' else 'key_201_2012']), 'another filter')
            a = list(pts[0].values()) if pts else []
            if len(pts) != 1 or a[0] is not g['dlf'] or not isinstance(a[1], SArr):
                raise Unsupported('points of the filter')
            v.array('points for the times', a[1], (n,), lambda k: fn('timec', k, sort='R'))
            v.eq('points per decade', a[2].item() if isinstance(a[2], SArr) else a[2], G.get('pts_per_dec', -1.))
            if not I.decide(tm.cmp_eq(sym('npts', 'I'), 1)):
                v.array('frequencies: angular frequency / (2 pi)', freq, (sym('npts', 'I'),), lambda k: tm.div(fn('points', k, sort='R'), tm.mul(2, tm.PI)))
        elif ft == 'qwe':
            v.fact('sine or cosine as the signal demands', g['sincos'] is A_np(I, 'sin' if s >= 0 else 'cos'), repr(g['sincos']))
        elif ft == 'fftlog':
            v.eq('sine or cosine as the signal demands', g['mu'], lit(.5 if s >= 0 else -.5))
        elif ft == 'fft':
            x = g['ntot']
            x = x.item() if isinstance(x, SArr) else x
            nf = G.get('nfreq', lit(2048))
            if given == 'all':
                v.true('the total number is as given if it is at least the number of frequencies', tm.or_(tm.lt(G['ntot'], nf), tm.cmp_eq(x, G['ntot'])))
            if given == 'some':
                v.array('frequencies: multiples of dfreq', freq, (nf,), lambda k: tm.mul(tm.add(k, 1), G['dfreq']))
            elif given == 'none':
                v.true('number of frequencies', tm.cmp_eq(lit(freq._shape[0]), nf))
        due = [x for x in warnings(I, n0) if 'pts_per_dec' not in x and 'values <' not in x]
        v.true('an option of no use is reported' if extra else 'no report without reason', (tm.lt(0, verb) if due else tm.le(verb, 0)) if extra else (tm.FALSE if due else tm.TRUE))
    return vf.verify('utils.check_time (%s, signal: %s, options: %s%s%s)' % (SPELL.get(ft, ft) if upper else ft, signal, given, '' if flt_ is None else ', filter '+(flt_ if flt_ == 'name' else '/'.join(flt_)), ', unused option' if extra else ''),
                     run, {**PRINT, 'utils._check_min': check_min_contract}, {}, 60)


def A_np(I, n):
    from pv import npshim
    return npshim.NP[n]


if __name__ == '__main__':
    main(globals())
