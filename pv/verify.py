"""Verification of one function (one unit): explores all paths of the real code,
collects the obligations and classifies them:
  proved     discharged by the named back end
  refuted    a model of the path condition falsifies it (numeric witness)
  undecided  the prover cannot settle it, or the code left the supported subset
"""
import time
import traceback
from . import terms as tm, arrays as A, numev, prover, npshim
from .terms import lit
from .arrays import SArr
from .prover import Prover, PROVED
from .interp import Interp, Obligation, PyRaise, PathLimit, Func, Unmodelled, Opaque, Infeasible
from .terms import Unsupported


class Unit:
    """Result of verifying one function under contract."""

    def __init__(self, name):
        self.name = name
        self.obls = []
        self.limits = []       # why the code left the verifier's reach
        self.functions = set()
        self.paths = 0
        self.wall = 0.0
        self.assumed = set()
        self.np_used = set()
        self.stats = {}

    @property
    def ok(self):
        return not self.limits and self.obls and all(o.status == 'proved' for o in self.obls)

    def refuted(self):
        return [o for o in self.obls if o.status == 'refuted']

    def open(self):
        return [o for o in self.obls if o.status not in ('proved', 'refuted')]

    def as_dict(self):
        n = {}
        for o in self.obls:
            n[o.status] = n.get(o.status, 0) + 1
        by = {}
        for o in self.obls:
            if o.status == 'proved':
                by[o.backend] = by.get(o.backend, 0) + 1
        return dict(name=self.name, paths=self.paths, obligations=len(self.obls), status=n, discharged_by=by, limits=self.limits[:5],
                    functions=sorted(self.functions), wall_s=round(self.wall, 2), assumed=sorted(self.assumed),
                    numpy_contracts=sorted(self.np_used), stats=self.stats,
                    open=[dict(name=o.name, status=o.status, detail=o.detail[:600]) for o in self.obls if o.status != 'proved'][:12])


def path_text(I):
    return ' & '.join(tm.show(p) for p in I.path)[-500:]


class V:
    """Obligation helpers bound to a running interpreter."""

    def __init__(self, I, unfold=None, maxsplit=4000):
        self.I, self.unfold, self.maxsplit = I, unfold, maxsplit

    def true(self, name, c):
        I = self.I
        c = tm.tob(c)
        if I.ctx.entails(c):
            I.obls.append(Obligation(name, 'proved', '', 'z3'))
            return True
        w = numev.refute(I.ctx, c, tm.TRUE, self.unfold)
        I.obls.append(Obligation(name, 'refuted' if w else 'undecided', '%s | path: %s | %s' % (tm.show(c)[:300], path_text(I), w), 'z3'))
        return False

    def fact(self, name, ok, detail=''):
        self.I.obls.append(Obligation(name, 'proved' if ok else 'refuted', '' if ok else '%s | path: %s' % (detail, path_text(self.I)), 'symbolic execution'))
        return ok

    def eq(self, name, a, b):
        I = self.I
        for x in (a, b):
            if isinstance(x, Opaque):
                x._no()
        try:
            a, b = lit(a), lit(b)
        except Exception:
            return self.fact(name, a is b or (type(a) is type(b) and a == b), '%r is not %r' % (a, b))
        a, b = I.resolve(a), I.resolve(b)
        pr = Prover(I.ctx, unfold=self.unfold, maxsplit=self.maxsplit, deadline=I.deadline)
        r = pr.equal(a, b)
        if r == PROVED:
            I.obls.append(Obligation(name, 'proved', '', 'nf+z3'))
            return True
        w = pr.numwit
        wit = getattr(pr, 'witness', None)
        if any(t.op == 'f' and t.args[0].startswith('havoc') for t in tm.atoms_of(a)):
            wit = a = b = w = None
        if wit is not None and w is None:
            ctx2 = prover.Ctx()
            for f in wit[2]:
                ctx2.add(f)
            w = numev.refute(ctx2, wit[0], wit[1], self.unfold)
        if w is None and a is not None:
            w = numev.refute(I.ctx, a, b, self.unfold)
        if a is None:
            I.obls.append(Obligation(name, 'undecided', 'value not covered by the loop invariant', 'nf+z3'))
            return False
        I.obls.append(Obligation(name, 'refuted' if w else 'undecided',
                                 'code: %s | spec: %s | %s | path: %s | %s' % (tm.show(a)[:400], tm.show(b)[:400], pr.fail, path_text(I), w), 'nf+z3'))
        return False

    def array(self, name, x, shape, f, kind=None):
        """x is an array of this shape whose generic element is f(*idx)."""
        I = self.I
        if isinstance(x, Opaque):
            x._no()
        if not isinstance(x, SArr):
            if len(shape) == 0:
                return self.eq(name, x, f())
            return self.fact(name+': is an array', False, repr(x))
        if x.ndim != len(shape):
            return self.fact(name+': dimensions', False, '%r instead of %r' % (x.shape, shape))
        for k, (p, q) in enumerate(zip(x._shape, shape)):
            if isinstance(p, A.MaskDim):
                raise Unsupported('selection as result')
            self.true(name+': length of axis %d' % k, tm.cmp_eq(lit(p), lit(q)))
        dims = [A.as_int(lit(p)) for p in x._shape]
        if None not in dims and 0 < __import__('math').prod(dims) <= 16 and len(dims):
            for k in __import__('itertools').product(*[range(d) for d in dims]):
                k = [lit(e) for e in k]
                self.eq(name, x.at(*k), f(*k))
            return
        vs = [tm.fresh('e', 'I') for _ in shape]
        I.ctx.push()
        I.gen_vars.append(vs)
        try:
            for v, d in zip(vs, shape):
                I.ctx.add(tm.le(0, v))
                I.ctx.add(tm.lt(v, lit(d)))
            if I.ctx.sat() is False:
                return self.fact(name+': empty array', True)
            want = f(*vs)
            return self.eq(name, x.at(*vs), want)
        finally:
            I.gen_vars.pop()
            I.ctx.pop()


FRAME = 'frame: argument %s is not modified'
FRAME_ALL = [False]        # every argument of the function under contract belongs to its frame (C23)


def frame(I, name, x, seen=None):
    """mark an argument as not to be modified"""
    fr = I.__dict__.setdefault('framed', {})
    if isinstance(x, SArr):
        if x.base.readonly is None:
            x.base.readonly = name
        fr[x.base.readonly] = x
    elif isinstance(x, (list, dict)):
        if not hasattr(I, 'readonly_ids') or I.readonly_ids is None:
            I.readonly_ids = {}
        if id(x) in I.readonly_ids:
            return
        I.readonly_ids[id(x)] = name
        fr[name] = x
        for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
            frame(I, '%s[%r]' % (name, k), v)
    elif isinstance(x, tuple):
        for k, v in enumerate(x):
            frame(I, '%s[%r]' % (name, k), v)


def verify(name, run, contracts=None, loopspecs=None, seconds=120, max_paths=3000, require_path=True):
    """run(I) executes the function on symbolic inputs and states its obligations
    (I.obls); returns a Unit."""
    u = Unit(name)
    t0 = time.time()
    s0 = dict(prover.STATS)
    npshim.USED.clear()
    I = Interp(contracts, loopspecs)
    I.deadline = t0 + seconds
    I.max_paths = max_paths

    def wrapped(I):
        I.readonly_ids, I.framed, I.globals_written = {}, {}, []
        I.frame_args = (lambda n, x: frame(I, n, x)) if FRAME_ALL[0] else None
        try:
            run(I)
            bad = {o.name for o in I.obls}
            for n in I.framed:
                if FRAME % n not in bad:
                    I.obls.append(Obligation(FRAME % n, 'proved', '', 'symbolic execution'))
            if FRAME_ALL[0]:
                I.obls.append(Obligation('no module-level name is rebound', 'undecided' if I.globals_written else 'proved', str(I.globals_written), 'symbolic execution'))
            return I.obls, None
        except PyRaise as e:
            I.obls.append(Obligation('no exception for admissible input', 'refuted', '%s: %s | path: %s' % (type(e.exc).__name__, e.exc, path_text(I)), 'symbolic execution'))
            return I.obls, None
        except Unsupported as e:
            return I.obls, 'unsupported: %s' % e
        except PathLimit as e:
            return I.obls, 'limit: %s' % e
        except RecursionError:
            return I.obls, 'limit: recursion'
    try:
        for obls, lim in I.explore(wrapped):
            u.paths += 1
            for o in obls:
                if o.status == 'failed':
                    o.status = 'refuted' if o.name.startswith('frame') else 'undecided'
            u.obls += obls
            if lim:
                u.limits.append(lim)
                if 'time limit' in lim:
                    break
    except PathLimit as e:
        u.limits.append('limit: %s' % e)
    except Unsupported as e:
        u.limits.append('unsupported: %s' % e)
    except Infeasible:
        pass
    except Exception as e:                         # engine error: never counted for or against the code
        u.limits.append('engine: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip() + traceback.format_exc()[-900:])
    u.functions = set(I.functions_executed)
    u.assumed = set(I.assumed)
    u.np_used = set(npshim.USED)
    u.wall = time.time()-t0
    u.stats = {k: round(v-s0.get(k, 0), 3) for k, v in prover.STATS.items()}
    if u.paths == 0 and require_path:
        u.limits.append('vacuous: no feasible path')
    return u
