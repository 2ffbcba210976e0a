"""Oracles on refusal and warnings (C24), filters (C27), EMArray (C28), input/output (C29), command line (C30), TM/TE split (C31)."""
import contextlib
import io as _io
import json
import os
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import empymod
from empymod import utils, filters, __main__ as cli
from empymod.scripts import tmtemod
from .core import oracle
from .util import *
from .o_model import experiment, NZ
from empymod import io  # noqa (not the io of the standard library)

MOD = dict(depth=[0, 100.], res=[20, 1, 30.])


def base(c, routine):
    """a valid call"""
    f = c.lu(.1, 10)
    if routine == 'bipole':
        src = c.pick([0, 0, 10, 0, 0], [0, 10, 0, 5, 10, 12])
        rec = c.pick([500, 10, 20, 0, 0], [500, 510, 10, 11, 20, 22])
    else:
        src, rec = [0, 0, 10], [500, 10, 20]
    kw = dict(src=src, rec=rec, verb=0)
    if routine == 'analytical':
        kw.update(res=3., freqtime=f)
    elif routine == 'dipole_k':
        kw.update(freq=f, wavenumber=np.array([1e-3, 1e-2]), **MOD)
    else:
        kw.update(freqtime=f, **MOD)
    if routine == 'gpr':
        kw.update(cf=250e6, freqtime=np.array([1e-7, 2e-7]), ht='dlf', htarg={'dlf': TINY}, ftarg={'nfreq': 16, 'dfreq': 1e6, 'ntot': 16})
    return kw


ROUT = ('dipole', 'bipole', 'analytical', 'dipole_k', 'gpr')


def wrong_sizes(c, m):
    """poles whose entries have different numbers of elements, neither of which is one (for a point or a finite dipole)"""
    n = c.i(2, 4)
    bad = c.i(0, m-1)
    p = []
    for k in range(m):
        full = c.coin() or (k == 0 and bad != 0) or (k == 1 and bad == 0)
        p.append([float(10*k+3*j+c.u(0, 1)) for j in range(n)] if full else c.u(0, 50))
    wrong = n+c.pick(-1, 1, 2) if n > 2 else n+c.pick(1, 2)
    p[bad] = [float(10*bad+3*j) for j in range(wrong)]
    return p


@oracle('C24', 60)
def sizes_refused(c):
    """poles whose entries do not fit together"""
    r = c.pick('bipole', 'bipole', 'dipole', 'analytical', 'gpr')
    kw = base(c, r)
    w = c.pick('src', 'rec')
    if r == 'bipole':
        kw[w] = wrong_sizes(c, c.pick(5, 5, 6))
        if c.coin():
            kw['src' if w == 'rec' else 'rec'] = [1000., 10., 15., 0., 0.]
    else:
        n = c.i(2, 4)
        x, y = [float(v) for v in range(n)], [float(v) for v in range(c.pick(*[q for q in (2, 3, 4, 5) if q != n]))]
        kw[w] = c.pick([x, y, 1.], [x, y[:1], x], [1., 2., y], [x, x, x])
    c.note(routine=r, **{k: v for k, v in kw.items() if k not in ('htarg', 'ftarg')})
    refused(c, getattr(empymod, r), exc=(ValueError, TypeError, AttributeError), what='%s with sizes that do not fit' % r, **kw)


@oracle('C24', 250)
def call_refused(c):
    r = c.pick(*ROUT)
    kw = base(c, r)
    fn = getattr(empymod, r)
    kind = c.pick('kw', 'shape', 'ht', 'htarg', 'point', 'model', 'mx', 'missing', 'ft')
    e = (ValueError, TypeError, AttributeError)
    if kind == 'kw':
        kw[c.pick('some', 'epermh', 'Loop', 'verbose', 'depths', 'sourcepts', 'intpts', 'x')] = 1
        e = (TypeError,)
    elif kind == 'shape':
        w = c.pick('src', 'rec')
        if r == 'bipole':
            kw[w] = c.pick([0, 0, 0], [0, 0, 0, 0], [0, 1, 0, 1, 0, 1, 0], 3., wrong_sizes(c, 5), wrong_sizes(c, 6))
        else:
            kw[w] = c.pick([0, 0], [0, 0, 0, 0], [[0, 1], [0, 1, 2], 0], [[0, 1, 2], [0, 1], 0], [0, 0, [1, 2]], [[1, 2], [3, 4], [5, 6]], [1.])
    elif kind in ('ht', 'htarg'):
        if r not in ('dipole', 'bipole'):
            r, fn, kw = 'dipole', empymod.dipole, base(c, 'dipole')
        if kind == 'ht':
            kw['ht'] = c.pick('dl', 'hqwe', 'qw', 'qua', '', 'q', 'd', 'ad', 'fft', 'uad', 'a', 'fht')
        else:
            f = filters.DigitalFilter('x')
            for k in [q for q in ('base', 'factor', 'j0', 'j1') if q != c.pick('base', 'factor', 'j0', 'j1')][:3]:
                setattr(f, k, np.array([1., 2., 4.]))
            miss = [q for q in ('base', 'factor', 'j0', 'j1') if not hasattr(f, q)]
            if not miss:
                delattr(f, 'j1')
            kw['htarg'] = {'dlf': c.pick(f, f, 'key_101', 'none', '')}
    elif kind == 'point':
        r, fn, kw = 'bipole', empymod.bipole, base(c, 'bipole')
        w = c.pick('src', 'rec')
        n = c.i(1, 3)
        p = [c.u(0, 9) for _ in range(3)]
        q = [p[0], p[0], p[1], p[1], p[2], p[2]]
        if n > 1:
            k = c.i(0, n-1)
            q = [[v]*n for v in q]
            for i in range(n):
                if i != k:
                    q[c.pick(1, 3, 5)][i] += 1 + c.u(0, 3)
        kw[w] = q
    elif kind == 'model':
        if r == 'analytical':
            kw['res'] = c.pick([1, 2.], [3, 4, 5.])
        else:
            kw['res'] = c.pick([1, 2.], [1, 2, 3, 4.], 5.)
    elif kind == 'mx':
        r, fn, kw = 'bipole', empymod.bipole, base(c, 'bipole')
        if c.coin():
            kw['msrc'] = c.pick('j', 'x', 'e', 'h', 3, 'B')
        else:
            kw['mrec'] = c.pick('x', 'e', 'h', 3, 'J')
        e = (ValueError, TypeError, AttributeError, IndexError)
    elif kind == 'missing':
        k = c.pick('src', 'rec', 'res')
        del kw[k]
        e = (TypeError,)
    elif kind == 'ft':
        if r not in ('dipole', 'bipole'):
            r, fn, kw = 'dipole', empymod.dipole, base(c, 'dipole')
        kw.update(signal=c.pick(0, 1, -1), ft=c.pick('sin', 'cos', 'fht', 'ffht', 'ff', '', 'log', 'quad', 'fftl'))
    c.note(routine=r, kind=kind, **{k: v for k, v in kw.items() if k not in ('htarg', 'ftarg')})
    refused(c, fn, exc=e, what='%s (%s)' % (r, kind), **kw)


@oracle('C24', 120)
def unused_reported(c):
    """known keywords not used by the routine, and transform options not used by the method: a warning at verb > 0"""
    r = c.pick('dipole', 'bipole', 'analytical', 'hankel', 'hankel', 'hankel')
    v = c.pick(0, 1, 2)
    if r == 'hankel':
        ht = c.pick('dlf', 'qwe', 'quad')
        alien = {'dlf': ['rtol', 'nquad', 'limit', 'a', 'foo'], 'qwe': ['dlf', 'foo', 'fhtfilt'], 'quad': ['dlf', 'nquad', 'maxint', 'diff_quad', 'bar']}[ht]
        k = c.pick(*alien)
        arg = {k: 3}
        if c.coin():
            arg['pts_per_dec'] = 10
        c.note(ht=ht, htarg=arg, verb=v)
        keep = dict(arg)
        (h, targ), t = out(utils.check_hankel, ht, arg, v)
        c.ok(h == ht, 'method')
        c.ok(arg == keep, 'options of the caller modified')
        if v == 0:
            c.ok(t == '', 'printed at verbosity zero', printed=t)
        else:
            c.ok('WARNING' in t and k in t, 'unused option is not reported', printed=t)
        ok, t2 = out(utils.check_hankel, ht, {}, 2)
        c.ok('WARNING' not in t2, 'warning without unused option', printed=t2)
        return
    kw = base(c, r)
    kw['verb'] = v
    k = {'dipole': ('msrc', 'srcpts', 'strength', 'mrec', 'cf', 'gain', 'solution', 'wavenumber'), 'bipole': ('ab', 'cf', 'solution', 'gain'),
         'analytical': ('ht', 'htarg', 'ft', 'xdirect', 'loop', 'msrc', 'cf')}[r]
    k = c.pick(*k)
    kw[k] = 1
    c.note(routine=r, unused=k, verb=v)
    e, t = out(getattr(empymod, r), **kw)
    if v == 0:
        c.ok(t == '', 'printed at verbosity zero', printed=t)
    else:
        c.ok('WARNING' in t and k in t, 'unused keyword is not reported', printed=t)
    del kw[k]
    e2, t2 = out(getattr(empymod, r), **kw)
    c.ok('WARNING' not in t2, 'warning without reason', printed=t2)
    c.ok(np.array_equal(e, e2), 'unused keyword changes the result')


@oracle('C24', 80)
def valid_accepted(c):
    """valid input is not refused; every documented spelling is understood"""
    r = c.pick('dipole', 'bipole')
    kw = base(c, r)
    k = c.pick('ht', 'ft', 'forms', 'loop')
    if k == 'ht':
        ht = c.pick('dlf', 'qwe', 'quad', 'DLF', 'Quad', 'QWE')
        kw['ht'] = ht
        if ht.lower() == 'dlf':
            kw['htarg'] = c.pick({}, {'dlf': 'key_101_2009'}, {'dlf': filters.Hankel().wer_201_2018, 'pts_per_dec': c.pick(0, -1, 30)})
        else:
            kw['htarg'] = {'rtol': 1e-2, **({'maxint': 30, 'nquad': 9, 'pts_per_dec': c.pick(0, 20)} if ht.lower() == 'qwe' else {'a': 1e-4, 'b': .03, 'limit': 40})}
        kw['xdirect'] = c.pick(True, False, None)
    elif k == 'ft':
        kw.update(freqtime=[1., 3.], signal=c.pick(0, 1, -1), ft=c.pick('dlf', 'DLF', 'fftlog', 'FFTLog', 'qwe', 'fft'), htarg={'dlf': 'key_51_2012'})
        if kw['ft'] == 'fft':
            kw['ftarg'] = {'dfreq': .1, 'nfreq': 32, 'pts_per_dec': c.pick(None, 5)}
        elif kw['ft'] == 'qwe':
            kw['ftarg'] = {'maxint': 20, 'nquad': 9, 'pts_per_dec': 5}
    elif k == 'loop':
        kw['loop'] = c.pick(None, 'freq', 'off')
    else:
        kw['rec'] = ([np.array([500, 600.]), 10, 20] if c.coin() else [(500, 600), [10, 20], [20]]) + ([0, 0] if r == 'bipole' else [])
        kw['res'] = c.pick(np.array([20, 1, 30]), [20, 1, 30], (20, 1, 30))
        kw['depth'] = c.pick([0, 100], np.array([0, 100.]), [-np.inf, 0, 100, np.inf], [-np.inf, 0, 100], [100, 0][::-1])
    c.note(routine=r, kind=k, **{q: v for q, v in kw.items()})
    with silent():
        e = getattr(empymod, r)(squeeze=False, **kw)
    nf = 2 if k == 'ft' else 1
    nr = 2 if k == 'forms' else 1
    c.ok(e.shape == (nf, nr, 1), 'shape', shape=str(e.shape))
    c.ok(np.all(np.isfinite(e)), 'not finite')


# ------------------------------------------------------------------ C27
def libs():
    r = []
    for k, t in (('hankel', filters.Hankel), ('fourier', filters.Fourier)):
        for n in filters.FILTERS[k]:
            r.append((k, t, n))
    return r


LIB = libs()
OLD = ['kong_61_2007', 'kong_241_2007', 'key_101_2009', 'key_201_2009', 'key_401_2009', 'anderson_801_1982', 'key_51_2012', 'key_101_2012', 'key_201_2012',
       'wer_201_2018', 'key_81_CosSin_2009', 'key_241_CosSin_2009', 'key_601_CosSin_2009', 'key_101_CosSin_2012', 'key_201_CosSin_2012']


@oracle('C27', len(LIB))
def library(c):
    import libdlf
    kind, cls, name = LIB[c.index % len(LIB)]
    c.note(kind=kind, name=name)
    f = getattr(cls(), name)
    c.ok(f.name == name and f.savename == name, 'name of the filter', got=f.name)
    vals = ('j0', 'j1') if kind == 'hankel' else ('sin', 'cos')
    src = getattr(getattr(libdlf, kind), name)
    ref = dict(zip(['base']+src.values, src()))
    for k, v in ref.items():
        c.ok(np.array_equal(getattr(f, k), v), 'coefficients differ from the library', which=k)
    has = [k for k in ('j0', 'j1', 'sin', 'cos') if hasattr(f, k)]
    c.ok(sorted(has) == sorted(src.values), 'coefficient vectors', got=str(has))
    for k in has:
        c.ok(getattr(f, k).shape == f.base.shape, 'length of the coefficients', which=k)
    q = f.base[1:]/f.base[:-1]
    c.close(np.ravel(f.factor), np.array([f.base[1]/f.base[0]]), 'factor is not the ratio of the base values', rtol=1e-14)
    c.ok(np.all(q > 1) and np.ptp(q) < 1e-3*q.mean(), 'base is not in geometric progression')
    g = getattr(cls(), name)
    c.ok(same({k: getattr(f, k) for k in ['base', 'factor', *has]}, {k: getattr(g, k) for k in ['base', 'factor', *has]}), 'different on a second access')
    c.ok(name in cls().available, 'not listed as available')
    # other filters do not interfere
    k2, cls2, n2 = LIB[c.i(0, len(LIB)-1)]
    getattr(cls2(), n2)
    h = getattr(cls(), name)
    c.ok(h.name == name and np.array_equal(h.base, ref['base']), 'changed by an access to another filter', other=n2)


@oracle('C27', 60)
def roundtrip(c):
    with tempfile.TemporaryDirectory() as d:
        if c.coin():
            kind, cls, name = LIB[c.i(0, len(LIB)-1)]
            f = getattr(cls(), name)
            g = filters.DigitalFilter('new', savename=name)
            keep = {k: np.array(v) for k, v in f.__dict__.items() if isinstance(v, np.ndarray)}
            extra = []
        else:
            extra = c.pick([], ['my'], ['aa', 'bb'])
            f = filters.DigitalFilter('rnd', c.pick(None, 'stored'), extra or None)
            n = c.i(2, 60)
            f.base = np.exp(c.u(-5, 0)+c.u(.01, 1)*np.arange(n))*10**c.u(-8, 8)
            f.factor = np.around([f.base[1]/f.base[0]], 15)
            for k in ['j0', 'j1', 'sin', 'cos']+extra:
                if c.coin(.6):
                    setattr(f, k, c.rng.normal(size=n)*10.**c.rng.integers(-30, 30, n))
            g = filters.DigitalFilter('rnd2', f.savename, extra or None)
            keep = {k: np.array(v) for k, v in f.__dict__.items() if isinstance(v, np.ndarray)}
        p = os.path.join(d, c.pick('filters', 'a/b', '.'))
        c.note(name=f.savename, arrays=sorted(keep), extra=extra)
        f.tofile(p)
        c.ok(all(np.array_equal(getattr(f, k), v) for k, v in keep.items()), 'writing modifies the filter')
        if c.coin(.3):    # other filter in the same folder
            o = filters.DigitalFilter(f.savename+'_other')
            o.base, o.j0 = np.array([1., 2.]), np.array([3., 4.])
            o.tofile(p)
        g.fromfile(p)
        got = {k: v for k, v in g.__dict__.items() if isinstance(v, np.ndarray)}
        c.ok(sorted(got) == sorted(keep), 'arrays of the filter read back', got=sorted(got), expected=sorted(keep))
        for k in keep:
            c.ok(np.array_equal(got[k], keep[k]) and got[k].shape == keep[k].shape, 'filter read back differs', which=k)


@oracle('C27', len(OLD))
def old_names(c):
    n = OLD[c.index % len(OLD)]
    new = n.replace('_CosSin', '')
    new = {'kong_61_2007': 'kong_61_2007b'}.get(new, new)
    cls = filters.Fourier if 'CosSin' in n else filters.Hankel
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        f = getattr(filters, n)()
    c.note(name=n)
    g = getattr(cls(), new)
    c.ok(f.name == g.name and np.array_equal(f.base, g.base), 'deprecated name gives another filter')
    for k in ('j0', 'j1', 'sin', 'cos'):
        c.ok(hasattr(f, k) == hasattr(g, k) and (not hasattr(f, k) or np.array_equal(getattr(f, k), getattr(g, k))), 'deprecated name gives another filter', which=k)


# ------------------------------------------------------------------ C28
@oracle('C28', 200)
def emarray(c):
    nd = c.i(0, 3)
    sh = tuple(c.i(1, 4) for _ in range(nd))
    z = c.rng.normal(size=sh)*10.**c.rng.integers(-20, 5, sh)+1j*c.rng.normal(size=sh)*10.**c.rng.integers(-20, 5, sh)
    if c.coin(.2):
        z = np.real(z)
    if c.coin(.2):
        z = np.where(c.rng.random(sh) < .3, 0, z)
    c.note(shape=sh, data=z)
    inp = z.tolist() if c.coin(.3) else z
    a = utils.EMArray(inp)
    keep = np.array(a)
    c.ok(np.shape(a) == sh and np.array_equal(np.asarray(a), z), 'data')
    c.close(np.asarray(a.amp()), np.abs(z), 'amplitude is not the modulus', rtol=1e-14)
    for deg in (False, True):
        for unwrap in (False, True):
            for lag in (True, False):
                if not lag and not np.iscomplexobj(z):
                    continue  # the argument of a negative real number is pi or -pi
                w = np.arctan2(np.imag(z), np.real(z)) if lag else np.arctan2(np.imag(np.conj(z)), np.real(z))
                if unwrap and np.size(z) > 1:
                    w = np.unwrap(w)
                if deg:
                    w = w*180/np.pi
                got = a.pha(deg=deg, unwrap=unwrap, lag=lag)
                c.close(np.asarray(got), w, 'phase (deg=%s, unwrap=%s, lag=%s)' % (deg, unwrap, lag), rtol=1e-13, atol=1e-14)
    w = np.arctan2(np.imag(z), np.real(z))
    c.close(np.asarray(a.pha()), np.unwrap(w) if np.size(z) > 1 else w, 'phase by default: radians, lag, unwrapped', rtol=1e-13, atol=1e-14)
    c.ok(np.array_equal(np.asarray(a), keep) and np.shape(a) == sh, 'data changed')
    if np.iscomplexobj(z) and nd > 1:
        c.close(np.asarray(a[0].amp()), np.abs(z[0]), 'amplitude of a part', rtol=1e-14)


# ------------------------------------------------------------------ C29
def values(c, depth=0):
    k = c.i(0, 9 if depth < 2 else 7)
    return [lambda: c.i(-10**6, 10**6), lambda: c.rng.normal()*10.**c.i(-300, 300), lambda: c.pick('dlf', 'a b', 'ü', '', 'he said "x"\n'),
            lambda: c.pick(True, False, None), lambda: c.pick(np.inf, -np.inf, 0., -0.), lambda: [c.u(-9, 9) for _ in range(c.i(0, 4))],
            lambda: c.pick(np.float64(c.u(-1, 1)), np.int64(c.i(-5, 5)), np.float32(.5), np.bool_(True), np.int32(3)),
            lambda: c.rng.normal(size=tuple(c.i(1, 3) for _ in range(c.i(1, 3))))*10.**c.i(-30, 30),
            lambda: {'k%d' % i: values(c, depth+1) for i in range(c.i(0, 3))}, lambda: [values(c, depth+1) for _ in range(c.i(0, 3))]][k]()


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, filters.DigitalFilter):
        return v.name
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


@oracle('C29', 120)
def input_roundtrip(c):
    d0 = {'%s%d' % (c.pick('src', 'res', 'depth', 'x'), i): values(c) for i in range(c.i(1, 6))}
    if c.coin(.5):
        d0['depth'] = np.r_[-np.inf, np.sort(c.rng.normal(size=2)), np.inf]
    if c.coin(.3):
        d0['htarg'] = {'dlf': filters.Hankel().key_51_2012, 'pts_per_dec': -1}
    keep = snapshot({k: v for k, v in d0.items() if k != 'htarg'})
    c.note(data=d0)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, c.pick('in.json', 'a b.json'))
        io.save_input(p, d0)
        got = io.load_input(p)
        c.ok(same({k: v for k, v in d0.items() if k != 'htarg'}, keep), 'saving modifies the input')
        c.ok(same(got, plain(d0)), 'input read back differs', got=got)
        for bad in ('in.txt', 'in', 'in.jsn', 'in.npz'):
            refused(c, io.save_input, os.path.join(d, bad), d0, what='extension', exc=(ValueError,))
            refused(c, io.load_input, os.path.join(d, bad), what='extension', exc=(ValueError,))
        c.ok(sorted(os.listdir(d)) == [os.path.basename(p)], 'other files written')


@oracle('C29', 160)
def data_roundtrip(c):
    sh = tuple(c.i(1, 4) for _ in range(3))
    z = c.rng.normal(size=sh)*10.**c.rng.integers(-300, 300, sh)
    if c.coin(.7):
        z = z+1j*c.rng.normal(size=sh)*10.**c.rng.integers(-300, 300, sh)
    if c.coin(.15):
        z[0, 0, 0] = c.pick(0, np.inf, -np.inf, np.nan)
        if np.iscomplexobj(z):
            z[0, 0, 0] = complex(c.pick(0., np.inf, 1.), c.pick(0., -np.inf, np.nan))
    if c.coin(.3):
        z = np.asfortranarray(z)
    ext = c.pick('txt', 'json')
    kw = {}
    if c.coin(.4):
        kw['info'] = c.pick('abc', 'with : colon', 'x')
    c.note(data=z, ext=ext, **kw)
    a = utils.EMArray(z) if c.coin() else z
    keep = np.array(a)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'out.'+ext)
        io.save_data(p, a, **kw)
        b = io.load_data(p)
        c.ok(np.array_equal(np.asarray(a), keep, equal_nan=True), 'saving modifies the data')
        c.ok(isinstance(b, utils.EMArray), 'type of the data read back')
        c.ok(b.shape == sh and b.dtype == z.dtype, 'shape or type of the data read back', got=str(b.shape)+str(b.dtype))
        g, w = np.asarray(b), np.asarray(z)
        c.ok(np.array_equal(np.real(g), np.real(w), equal_nan=True) and np.array_equal(np.imag(g), np.imag(w), equal_nan=True), 'data read back differ', got=g)
        refused(c, io.save_data, os.path.join(d, c.pick('o.dat', 'o', 'o.npy')), a, what='extension', exc=(ValueError,))
        refused(c, io.save_data, os.path.join(d, 'o2.'+ext), np.squeeze(z[0]), what='data that are not three-dimensional', exc=(ValueError,))


# ------------------------------------------------------------------ C30
def cli_case(c):
    r = ('dipole', 'bipole', 'loop', 'analytical')[c.index % 4]
    nr = c.i(1, 3)
    kw = dict(verb=0, freqtime=[c.lu(.1, 10) for _ in range(c.i(1, 2))])
    pos = lambda: [[c.u(100, 900) for _ in range(nr)], [c.u(-90, 90) for _ in range(nr)], c.u(10, 90)]
    s0 = [c.u(-9, 9), c.u(-9, 9), c.u(1, 50)]
    az = lambda: [c.u(-90, 90), c.u(-90, 90)]
    if r == 'dipole':
        kw.update(src=s0, rec=pos(), ab=c.pick(*NZ), htarg={'dlf': 'key_51_2012'}, **MOD)
        if c.coin(.3):
            kw['depth'] = [-np.inf, 0., 100., np.inf]
        if c.coin(.3):
            kw.update(signal=c.pick(0, 1, -1), freqtime=[1., 2.], ftarg={'dlf': 'key_81_2009', 'pts_per_dec': -1})
    elif r == 'bipole':
        kw.update(src=s0+az(), rec=pos()+az(), msrc=c.coin(), mrec=c.pick(True, False, 'b', 'j'), htarg={'dlf': 'key_51_2012'}, **MOD)
    elif r == 'loop':
        kw.update(src=s0+az(), rec=pos()+az(), mrec=c.pick(True, False, 'loop'), htarg={'dlf': 'key_51_2012'}, **MOD)
    else:
        kw.update(src=s0, rec=pos(), res=c.u(1, 9), ab=c.pick(11, 12, 13, 22, 33, 31))
        if c.coin():
            kw.update(solution=c.pick('fs', 'dfs', 'dhs'))
    if c.coin(.3):
        kw['squeeze'] = c.coin()
    return r, kw


@oracle('C30', 48)
def command_line(c):
    r, kw = cli_case(c)
    sub = c.index < 4 and c.index % 4 == c.i(0, 3)
    ext = c.pick('json', 'txt', None)
    c.note(routine=r, ext=ext, **kw)
    with warnings.catch_warnings(), silent():
        warnings.simplefilter('ignore')
        want = np.asarray(getattr(empymod, r)(**{**kw, 'squeeze': False}))
    with tempfile.TemporaryDirectory() as d:
        p, q = os.path.join(d, 'in.json'), os.path.join(d, 'out.%s' % ext)
        with open(p, 'w') as f:
            json.dump(kw, f)
        before = open(p).read()
        args = [r, p]+([q] if ext else [])
        if sub:
            s = subprocess.run([sys.executable, '-m', 'empymod', *args], cwd=d, capture_output=True, text=True)
            c.ok(s.returncode == 0, 'exit status', stderr=s.stderr[-500:], status=s.returncode)
            txt = s.stdout
        else:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                e, txt = out(cli.main, args)
            c.ok(e is None or e == 0, 'the command line fails', error=repr(e))
        c.ok(open(p).read() == before, 'input file changed')
        if ext:
            got = io.load_data(q)
            c.ok(got.shape == want.shape, 'shape written', got=str(got.shape))
            c.close(np.asarray(got), want, 'data written differ from the library', rtol=1e-14, scale=np.abs(want), atol=1e-300)
            c.ok('[' not in txt, 'result printed although written to a file', printed=txt)
        else:
            with np.printoptions():
                c.ok(txt.strip() == str(utils.EMArray(want)).strip(), 'printed data differ from the library', printed=txt, expected=str(want))
    # failing calls are reported, not swallowed
    if c.index % 3 == 0:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'in.json')
            bad = {**kw, **c.pick({'src': [1, 2]}, {'nonsense': 3}, {'freqtime': 'abc'})}
            with open(p, 'w') as f:
                json.dump(bad, f)
            e, txt = out(cli.main, [r, p, os.path.join(d, 'out.json')])
            c.ok(isinstance(e, Exception), 'a failing call is not reported', returned=repr(e))
            c.ok(not os.path.exists(os.path.join(d, 'out.json')), 'output of a failing call')
            e, txt = out(cli.main, [r, os.path.join(d, 'missing.json')])
            c.ok(isinstance(e, Exception), 'a missing input file is not reported')


# ------------------------------------------------------------------ C31
def tmte_case(c):
    N = c.i(2, 5)
    m = model(c, N=N, air=False)
    m.pop('epermV', None)
    m.pop('mpermV', None)
    if N > 2 and np.any(np.diff(m['depth']) < 1):       # room for source and receiver inside the layers
        m['depth'] = m['depth']+np.arange(N-1)
    d = np.r_[m['depth'][0]-300, m['depth'], m['depth'][-1]+300]
    l = c.i(0, N-1)
    z = lambda: float(np.round(d[l]+(d[l+1]-d[l])*c.u(.05, .95), 3))
    kw = dict(depth=m['depth'], res=m['res'], aniso=m.get('aniso'), eperm=m.get('epermH'), mperm=m.get('mpermH'))
    n = c.i(1, 3)
    rec = [[c.u(50, 900) for _ in range(n)], [c.u(-300, 300) for _ in range(n)], z()]
    if n == 1:
        rec = [rec[0][0], rec[1][0], rec[2]]
    src = [c.u(-20, 20), c.u(-20, 20), z()]
    if c.coin(.2):
        src = [[c.u(-20, 20), c.u(-20, 20)], [c.u(-20, 20), c.u(-20, 20)], src[2]]
    return m, kw, src, rec, l, c.lu(.05, 100)


@oracle('C31', 150)
def tmte_sum(c):
    m, kw, src, rec, l, f = tmte_case(c)
    c.note(src=src, rec=rec, freqtime=f, **kw)
    TM, TE = tmtemod.dipole(src, rec, freqtime=f, verb=0, **kw)
    c.ok(len(TM) == 5 and len(TE) == 5, 'number of parts')
    want = empymod.dipole(src, rec, freqtime=f, ab=11, xdirect=False, verb=0, ht='dlf', htarg={'dlf': 'key_201_2012', 'pts_per_dec': 0},
                          depth=kw['depth'], res=kw['res'], aniso=kw['aniso'], epermH=kw['eperm'], mpermH=kw['mperm'])
    sc = sum(np.abs(q) for q in TM)+sum(np.abs(q) for q in TE)
    c.close(sum(TM)+sum(TE), np.asarray(want), 'TM and TE parts do not add up to the total field', rtol=1e-5, scale=sc, atol=1e-300)
    N = kw['res'].size
    if l == 0:
        c.ok(all(np.all(q == 0) for q in (TM[2], TM[3], TE[2], TE[3])), 'downgoing part although the receiver is in the first layer')
    if l == N-1:
        c.ok(all(np.all(q == 0) for q in (TM[0], TM[1], TE[0], TE[1])), 'upgoing part although the receiver is in the last layer')
    # direct parts: only the layer of source and receiver matters
    if N > 2 or True:
        o = dict(kw)
        one = lambda v: None if v is None else np.r_[v[l], v[l]]
        o.update(depth=np.array([max(np.max(src[2]), np.max(rec[2]))+50]), res=one(kw['res']), aniso=one(kw['aniso']), eperm=one(kw['eperm']), mperm=one(kw['mperm']))
        T1, E1 = tmtemod.dipole(src, rec, freqtime=f, verb=0, **o)
        c.close(TM[4], T1[4], 'direct TM part depends on other layers', rtol=1e-7, scale=np.abs(T1[4])+1e-3*sc)
        c.close(TE[4], E1[4], 'direct TE part depends on other layers', rtol=1e-7, scale=np.abs(E1[4])+1e-3*sc)


@oracle('C31', 60)
def tmte_translation(c):
    """the parts do not depend on the vertical origin"""
    m, kw, src, rec, l, f = tmte_case(c)
    h = float(np.round(c.u(-900, 900), 3))
    c.note(src=src, rec=rec, freqtime=f, shift=h, **kw)
    a = tmtemod.dipole(src, rec, freqtime=f, verb=0, **kw)
    kw['depth'] = kw['depth']+h
    up = lambda p: [p[0], p[1], p[2]+h]
    b = tmtemod.dipole(up(src), up(rec), freqtime=f, verb=0, **kw)
    sc = sum(np.abs(q) for q in a[0])+sum(np.abs(q) for q in a[1])
    for k in range(2):
        for i in range(5):
            c.close(b[k][i], a[k][i], 'part %s depends on the vertical origin' % (('TM', 'TE')[k]+('uu', 'ud', 'du', 'dd', 'df')[i]), rtol=1e-5, scale=sc, atol=1e-300)


@oracle('C31', 40)
def tmte_refused(c):
    m, kw, src, rec, l, f = tmte_case(c)
    k = c.pick('layer', 'freq', 'single')
    if k == 'layer':
        d = np.r_[kw['depth'][0]-300, kw['depth'], kw['depth'][-1]+300]
        j = c.i(0, kw['res'].size-1)
        if j == l:
            j = (l+1) % kw['res'].size
        rec = [rec[0], rec[1], float((d[j]+d[j+1])/2)]
    elif k == 'freq':
        f = [f, 2*f]
    else:
        kw = dict(depth=[], res=1.)
    c.note(kind=k, src=src, rec=rec, freqtime=f, **kw)
    refused(c, tmtemod.dipole, src, rec, freqtime=f, verb=0, what='TM/TE split outside its scope (%s)' % k, exc=(ValueError,), **kw)
