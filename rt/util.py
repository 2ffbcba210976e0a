"""Shared helpers of the oracles."""
import contextlib
import copy
import io
import numpy as np
from empymod import filters, utils


def tiny(c=None, n=9, spread=2.5, seed=3):
    """a short filter with arbitrary coefficients (relations that hold per wavenumber hold for it)"""
    r = np.random.default_rng(seed)
    f = filters.DigitalFilter('tiny')
    f.base = np.exp(np.linspace(-spread, spread, n))
    f.j0 = r.uniform(-1, 1, n)
    f.j1 = r.uniform(-1, 1, n)
    f.factor = np.around([f.base[1]/f.base[0]], 15)
    return f


def tinyf(n=7, seed=4):
    r = np.random.default_rng(seed)
    f = filters.DigitalFilter('tinyf')
    f.base = np.exp(np.linspace(-2., 2., n))
    f.sin = r.uniform(-1, 1, n)
    f.cos = r.uniform(-1, 1, n)
    f.factor = np.around([f.base[1]/f.base[0]], 15)
    return f


TINY, TINYF = tiny(), tinyf()
DLF = dict(ht='dlf', htarg={'dlf': TINY, 'pts_per_dec': 0})


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()) as s:
        yield s


def out(f, *a, **k):
    """value and printed text"""
    with contextlib.redirect_stdout(io.StringIO()) as s:
        r = f(*a, **k)
    return r, s.getvalue()


def refused(c, f, *a, exc=(ValueError, TypeError, AttributeError, IndexError, KeyError), what='', **k):
    """the call raises"""
    try:
        with silent():
            r = f(*a, **k)
    except exc:
        c.checks += 1
        return
    c.ok(False, 'not refused: '+what, returned=r)


def snapshot(x):
    return copy.deepcopy(x)


def same(a, b):
    """deep equality with NaN == NaN, types of containers included"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, '__dict__') and not callable(a):
        return type(a) == type(b) and same(a.__dict__, b.__dict__)
    if isinstance(a, float) and a != a:
        return b != b
    return type(a) == type(b) and (a == b or a is b)


def model(c, N=None, air=True, diff=False, big=False):
    """random layered model: dict of depth, res, aniso, eperm*, mperm*"""
    N = N or (c.i(6, 11) if c.coin(.05) else c.i(1, 5))
    z0 = c.u(-200, 200) if c.coin(.6) else 0.
    if c.coin(.05):
        z0 = float(np.round(c.pick(-1, 1)*c.lu(1e3, 1e5)))
    th = [c.lu(5, 400) for _ in range(max(N-2, 0))]
    if th and c.coin(.12):
        th[c.i(0, len(th)-1)] = c.pick(c.lu(1e-3, .5), .001, .01, c.lu(.5, 5), c.lu(400, 1e4))
    depth = np.r_[z0, z0+np.cumsum(np.round(th, 3))][:N-1] if N > 1 else np.array([])
    depth = np.round(depth, 3)      # the code rounds coordinates of finite bipoles to mm (documented)
    m = dict(depth=depth, res=np.array([c.lu(.2, 500) for _ in range(N)]))
    if N > 1 and air and c.coin(.3):
        m['res'][0] = c.pick(2e14, 1e8)
    if c.coin(.7):
        m['aniso'] = np.array([c.u(.6, 2.5) for _ in range(N)])
    if not diff:
        hi = 1e5 if big else 80
        if c.coin(.5):
            m['epermH'] = np.array([c.u(0, hi) for _ in range(N)])
        if c.coin(.4):
            m['epermV'] = np.array([c.u(0, hi) for _ in range(N)])
        if c.coin(.5):
            m['mpermH'] = np.array([c.u(.5, 20) for _ in range(N)])
        if c.coin(.4):
            m['mpermV'] = np.array([c.u(.5, 20) for _ in range(N)])
    if N > 1 and c.coin(.18):        # layers that are equal, or almost, or equal in some parameters only
        i, j = [int(q) for q in c.rng.permutation(N)[:2]]
        e = c.pick(0, 0, 1e-7, 1e-5, 1e-3)
        for k in m:
            if k != 'depth' and c.coin(.75):
                m[k][i] = m[k][j]*(1+e*c.pick(0, 1, -1))
    elif N > 1 and c.coin(.06):      # almost homogeneous
        e = c.pick(1e-9, 1e-7, 1e-5, 1e-3)
        for k in m:
            if k != 'depth':
                m[k] = m[k][0]*(1+e*c.rng.uniform(-1, 1, N))
    return m


def zin(c, depth, at=False):
    """a depth anywhere in the model, sometimes exactly on an interface"""
    d = np.asarray(depth)
    if d.size and c.coin(.12):
        return float(c.pick(*d))
    if d.size and c.coin(.06):
        return float(np.round(c.pick(*d)+c.pick(-1, 1)*c.pick(.001, .004, .01, .1, .5), 3))
    lo, hi = (d.min()-250, d.max()+250) if d.size else (-300, 300)
    return float(np.round(c.u(lo, hi), 3))


def layer(z, depth):
    """the layer that contains z; on an interface the upper one"""
    return int(np.sum(np.asarray(depth, dtype=float) < z))


def freqs(c, n=None, laplace=.15):
    n = n or c.i(1, 3)
    f = np.array([c.lu(1e-2, 1e3) for _ in range(n)])
    return -f*c.lu(1, 10) if c.coin(laplace) else f


def scale_of(*xs):
    return max(np.abs(x).max() if np.size(x) else 0 for x in xs)


def rt(m, r=2e-6):
    """tolerance for relations between two evaluations: air layers cost digits"""
    q = np.asarray(m['res'], dtype=float)
    return r*max(1., min(1e3, (q.max()/q.min())*1e-6))


MU0 = 4e-7*np.pi
EPS0 = 1./(MU0*299792458**2)


def medium(m, freq, l=None):
    """eta/zeta of all layers: (nf, N) arrays"""
    f = np.atleast_1d(np.asarray(freq, dtype=float))
    s = (2j*np.pi*f if np.any(f > 0) else -f)[:, None]
    res = np.asarray(m['res'], dtype=float)
    N = res.size
    one = np.ones(N)
    g = lambda k, d: np.asarray(m[k], dtype=float) if m.get(k) is not None else d
    ani = g('aniso', one)
    eh = g('epermH', one)
    ev = g('epermV', eh)
    mh = g('mpermH', one)
    mv = g('mpermV', mh)
    return 1/res+s*eh*EPS0, 1/(res*ani**2)+s*ev*EPS0, s*mh*MU0, s*mv*MU0
