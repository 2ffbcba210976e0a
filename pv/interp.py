"""Verification-condition generator: symbolic execution of the real Python source.

 * functions with a contract are replaced, at call sites, by that contract;
   functions without one are executed in place (so a helper extracted from a
   verified function stays inside the verified text);
 * undecided conditions outside loops fork the path (all paths are explored);
 * loops over symbolic ranges: independent iterations (rule P, with disjointness
   obligations), inductive loop contracts (rule I); see exec_for.
What is dropped from the source: decorators (numba.njit, np.errstate),
docstrings, print output.
"""
import ast
import itertools
import os
import time
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T, lit, as_int, Unsupported, TRUE, FALSE
from . import arrays as A
from .arrays import SArr, SymRange
from . import npshim
from .npshim import Opaque, Unmodelled, Namespace
from .prover import Ctx

REPO = os.environ.get('PV_REPO', '/repo')
_SRC = {}
DEBUG = os.environ.get('PV_DEBUG')


def source(mod):
    """(source text, AST) of empymod/<mod>.py in the working tree."""
    if mod not in _SRC:
        p = os.path.join(REPO, 'empymod', *mod.split('.')) + '.py'
        with open(p) as f:
            s = f.read()
        _SRC[mod] = (s, ast.parse(s))
    return _SRC[mod]


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class LoopCarried(Unsupported):
    def __init__(self, msg, name=None, base=None):
        super().__init__(msg)
        self.name, self.base = name, base


class PyRaise(Exception):
    """An exception raised by the verified program."""

    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class Poison:
    def __init__(self, name, old):
        self.name, self.old = name, old


class Frame:
    def __init__(self, glob, env, parent=None, name=''):
        self.glob, self.env, self.parent, self.name = glob, env, parent, name
        self.nonlocals = set()
        self.globals = set()


class Func:
    def __init__(self, node, glob, closure, qual, interp):
        self.node, self.glob, self.closure, self.qual, self.interp = node, glob, closure, qual, interp
        self.__name__ = getattr(node, 'name', '<lambda>')

    def __call__(self, *a, **k):
        return self.interp.call(self, list(a), k)


class ClassVal:
    def __init__(self, name):
        self.name = name
        self.__name__ = name


BUILTIN_EXC = {n: getattr(__import__('builtins'), n) for n in
               ('ValueError', 'TypeError', 'AttributeError', 'KeyError', 'IndexError', 'Exception', 'ImportError',
                'ZeroDivisionError', 'RuntimeError', 'NotImplementedError', 'DeprecationWarning', 'UserWarning',
                'AssertionError', 'StopIteration', 'NameError', 'OverflowError', 'ArithmeticError')}


class Obligation:
    def __init__(self, name, status, detail='', backend='z3'):
        self.name, self.status, self.detail, self.backend = name, status, detail, backend


class Interp:
    """One run = one path; `explore` drives all paths."""

    def __init__(self, contracts=None, loopspecs=None, limits=None):
        self.contracts = contracts or {}
        self.loopspecs = loopspecs or {}
        self.np = npshim
        self.functions_executed = set()
        self.assumed = set()
        self.max_paths = 3000
        self.deadline = None
        self.modules = {}

    # ---------------------------------------------------------------- paths
    def explore(self, run):
        """run(self) is executed once per feasible path; yields its results."""
        stack = [[]]
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            self.reset(dec)
            try:
                r = run(self)
            except Infeasible:
                r = None
                continue
            finally:
                for k in range(len(self.decisions)-1, len(dec)-1, -1):
                    if self.decisions[k][1]:
                        stack.append([d[0] for d in self.decisions[:k]] + [not self.decisions[k][0]])
            yield r

    def reset(self, dec):
        self.ctx = Ctx()
        self.dec = dec
        self.decisions = []
        self.path = []
        self.obls = []
        self.guards = []
        self.loops = []         # active symbolic loops
        self.gen_vars = []      # active generic index variables
        self.journal = []
        self.reads = []
        self.printed = []
        self.modules = {}
        self._ext, self.extrema = {}, []
        self.extmods = {}          # ghost modules of a specification
        self.depth = 0
        self.cache_div = {}
        A.CUR = self
        T.decide = self.decide

    def decide(self, c):
        c = tm.tob(c)
        if c is TRUE or c is FALSE:
            return c is TRUE
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time limit')
        d = self.ctx.decide(c)
        if d is not None:
            return d
        if tm.has_inf(c):
            r = self.resolve(c, {})
            d = self.ctx.decide(r)
            if d is not None:
                return d
        if not self.loop_free(c):
            raise Unsupported('undecided condition on a generic element: %s' % tm.show(c)[:200])
        k = len(self.decisions)
        if k < len(self.dec):
            v = self.dec[k]
            self.decisions.append((v, False))
        else:
            v = True
            self.decisions.append((v, True))
        self.ctx.add(c if v else tm.not_(c))
        self.path.append(c if v else tm.not_(c))
        if self.ctx.sat() is False:
            raise Infeasible()
        return v

    def loop_free(self, t):
        vs = set()
        for l in self.loops:
            vs.add(l['v'])
        for g in self.gen_vars:
            vs |= set(g)
        return not (tm.fv(t) & vs)

    def assume(self, c, why=None):
        self.ctx.add(c)
        if why:
            self.assumed.add(why)

    def require(self, c, name):
        """Side obligation (e.g. index in bounds), proved right here."""
        c = tm.tob(c)
        if c is TRUE:
            return True
        ok = self.ctx.entails(tm.implies(tm.and_(*self.guards), c) if self.guards else c)
        self.obls.append(Obligation(name, 'proved' if ok else 'failed',
                                    '' if ok else 'cannot show %s under %s' % (tm.show(c), [tm.show(p) for p in self.path][-8:])))
        return ok

    def require_real(self, v):
        self.require(tm.cmp_eq(tm.im_(v), lit(0)), 'complex value stored in a real array')

    # ------------------------------------------------------ arrays callbacks
    def note_read(self, base, idx):
        if self.loops and not getattr(self, 'quiet', False):
            self.reads.append((base, idx, len(self.journal), [(l['v'], l['lo'], l['hi']) for l in self.loops],
                               [x for g in self.gen_vars for x in g]))

    def note_write(self, base):
        base.written = True
        if base.readonly:
            self.obls.append(Obligation('frame: argument %s is not modified' % base.readonly, 'failed', 'store to %s' % base.readonly))

    def note_store(self, base, st):
        self.journal.append((base, st))

    def journal_tab(self, base, idx):
        pass

    def exact_quotient(self, n, d):
        n, d = lit(n), lit(d)
        ci, cd = as_int(n), as_int(d)
        if ci is not None and cd is not None:
            return lit(ci//cd) if cd and ci % cd == 0 else None
        if cd == 1:
            return n
        if n is d:
            return lit(1)
        # n = q*d structurally
        c, p = tm._parts(n)
        dc, dp = tm._parts(d)
        if dc == 0 and len(dp) == 1:
            (dm, dk), = dp.items()
            df = tm._facts(dm)
            out = []
            if c != 0:
                return None
            for m, k in p.items():
                f = dict(tm._facts(m))
                for a, e in df.items():
                    f[a] = f.get(a, 0)-e
                    if f[a] < 0:
                        return None
                if (k/dk).denominator != 1:
                    return None
                out.append(tm._mkprod(k/dk, f, 'I'))
            return tm.add(lit(0), *out)
        return None

    def divmod_sym(self, x, n):
        """x = q*n + r with 0 <= r < n"""
        x, n = lit(x), lit(n)
        if as_int(n) == 1:
            return x, lit(0)
        if as_int(x) is not None and as_int(n) is not None:
            return lit(as_int(x)//as_int(n)), lit(as_int(x) % as_int(n))
        key = (x, n)
        c, p = tm._parts(x)
        nc, np_ = tm._parts(n)
        if nc == 0 and len(np_) == 1:
            (nm, nk), = np_.items()
            nf = tm._facts(nm)
            q, r = [lit(0)], [tm.const(c, 'I')]
            for m, k in p.items():
                f = dict(tm._facts(m))
                ok = nk == 1
                for a, e in nf.items():
                    f[a] = f.get(a, 0)-e
                    if f[a] < 0:
                        ok = False
                (q if ok else r).append(tm._mkprod(k, f, 'I') if ok else tm._mksum(Fr(0), {m: k}, 'I'))
            q, r = tm.add(*q), tm.add(*r)
            if self.ctx.entails(tm.and_(tm.le(0, r), tm.lt(r, n))):
                return q, r
        if self.ctx.entails(tm.and_(tm.le(0, x), tm.lt(x, n))):
            return lit(0), x
        if self.ctx.entails(tm.cmp_eq(n, 1)):
            return x, lit(0)
        q, r = tm.fn('divq', x, n, sort='I'), tm.fn('divr', x, n, sort='I')
        self.ctx.add(tm.and_(tm.le(0, r), tm.lt(r, n), tm.le(0, q)))
        self.ctx.add(tm.cmp_eq(x, tm.add(tm.mul(q, n), r)))
        return q, r

    def resolve(self, t, memo=None):
        """t with the quotients and remainders decided by the current context replaced"""
        if not isinstance(t, tm.T) or (memo is None and not any(x.op == 'f' and x.args[0] in ('divq', 'divr') for x in tm.atoms_of(t))):
            return t
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        if t.op in ('sum', 'all'):
            lo, hi = self.resolve(t.args[1]), self.resolve(t.args[2])
            v = tm.fresh('b', 'I')
            self.ctx.push()
            try:
                self.ctx.add(tm.and_(tm.le(lo, v), tm.lt(v, hi)))
                body = self.resolve(tm.subst(t.args[3], {t.args[0]: v}), {})
            finally:
                self.ctx.pop()
            r = (tm.sum_ if t.op == 'sum' else tm.all_)(v, lo, hi, body)
        elif t.op == 'ite':
            c = self.resolve(t.args[0], memo)
            d = self.ctx.decide(c)
            a, b = [None if d is (not k) else self.resolve(t.args[2-k], memo) for k in (True, False)]
            r = a if d is True else b if d is False else tm.ite(c, a, b)
        else:
            ch = [self.resolve(c, memo) for c in tm.children(t)]
            if t.op == 'f' and t.args[0] in ('divq', 'divr'):
                r = self.divmod_sym(ch[0], ch[1])[t.args[0] == 'divr']
            else:
                r = tm.rebuild(t, ch) if ch else t
        memo[t] = r
        return r

    def decide_dim1(self, d):
        d = lit(d)
        if as_int(d) is not None:
            return as_int(d) == 1
        return self.decide(tm.cmp_eq(d, 1))

    def np_extremum(self, a, which):
        memo = self.__dict__.setdefault('_ext', {})
        key = (which, id(a.base), len(a.base.stores)) if a.imap is None else None
        if key in memo:
            return memo[key][0]
        if self.gen_vars or self.loops:
            raise Unsupported('np.%s inside a symbolic loop' % which)
        v = tm.fresh(which, 'R')
        memo[key] = v, a
        self.assumed.add('np.%s returns an element bounding all others' % which)
        self.extrema.append((v, which, a))
        return v

    def np_where(self, c):
        return A.WhereIdx(c.copy() if isinstance(c, SArr) else c)

    def np_arange(self, lo, hi, st):
        """arange over reals: lo + k*st for k < ceil((hi-lo)/st), in exact arithmetic"""
        if not self.ctx.entails(tm.lt(0, st)):
            raise Unsupported('np.arange over reals')
        self.assumed.add('np.arange(a, a+n*h, h) has n elements (exact arithmetic; rounding may add one)')
        n = npshim.ceil_(tm.mul(tm.add(hi, tm.neg(lo)), tm.inv(st)))
        if not self.ctx.entails(tm.le(0, n)):
            n = tm.max_(n, lit(0))
        return A.build((tm.unlit(n),), lambda k: tm.add(lo, tm.mul(k, st)), A.DF)

    def np_masksize(self, d):
        return A.gen_sum(d.n, lambda k: tm.ite(d.cond(k), lit(1), lit(0)))

    # ---------------------------------------------------------------- modules
    def module(self, name):
        """Namespace of empymod.<name> (functions from the current source)."""
        if name in self.modules:
            return self.modules[name]
        src, tree = source(name)
        g = {}
        ns = Namespace('empymod.'+name, g)
        self.modules[name] = ns
        g['__name__'] = 'empymod.'+name
        fr = Frame(g, g, None, name)
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                g[st.name] = Func(st, g, None, name+'.'+st.name, self)
            elif isinstance(st, (ast.Import, ast.ImportFrom, ast.Try)):
                try:
                    self.exec_stmt(st, fr)
                except Unsupported:
                    pass
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                try:
                    self.exec_stmt(st, fr)
                except (Unsupported, PyRaise, AttributeError, TypeError):
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        if isinstance(t, ast.Name):
                            g[t.id] = Opaque('module constant '+t.id)
            elif isinstance(st, ast.ClassDef):
                g[st.name] = self.classval(st, name)
        return ns

    def classval(self, st, mod):
        if st.name == 'EMArray':
            self.assumed.add('EMArray(x) is a view of x (its body is under contract in C28)')
            return lambda x: x
        c = self.contracts.get(mod+'.'+st.name)
        if c is not None:
            return lambda *a, **k: c(self, a, k)
        return Opaque('class '+st.name)

    def method(self, mod, cls, name):
        """function `name` of the body of class `cls`, as in the current source"""
        g = self.module(mod)
        for st in source(mod)[1].body:
            if isinstance(st, ast.ClassDef) and st.name == cls:
                for f in st.body:
                    if isinstance(f, ast.FunctionDef) and f.name == name:
                        if f.decorator_list:
                            raise Unsupported('decorated method')
                        return Func(f, g.__dict__ if not hasattr(g, '_d') else g._d, None, '%s.%s.%s' % (mod, cls, name), self)
        raise Unsupported('no %s.%s' % (cls, name))

    def do_import(self, node, fr):
        for a in node.names:
            if isinstance(node, ast.Import):
                top = a.name.split('.')[0]
                v = self.ext(a.name if a.asname else top)
                self.store_name(a.asname or top, v, fr)
            else:
                mod = node.module or ''
                if mod == 'empymod' or (node.level and not mod):
                    v = self.empy(a.name)
                elif mod.startswith('empymod.') or node.level:
                    v = getattr(self.module(mod.replace('empymod.', '')), a.name)
                else:
                    m = self.ext(mod)
                    v = getattr(m, a.name) if m is not None else Unmodelled(mod+'.'+a.name)
                self.store_name(a.asname or a.name, v, fr)

    def empy(self, name):
        if name == 'filters':
            return Namespace('filters')
        return LazyMod(self, name)

    def ext(self, name):
        if name in self.extmods:
            return self.extmods[name]
        if name == 'numpy':
            return npshim.module_np()
        if name == 'scipy':
            return npshim.module_sp()
        if name == 'copy':
            return Namespace('copy', {'deepcopy': deepcopy, 'copy': deepcopy})
        if name == 'warnings':
            return Namespace('warnings', {'warn': lambda *a, **k: None, 'catch_warnings': npshim.Ctxm(), 'simplefilter': lambda *a, **k: None})
        if name == 'math':
            return Namespace('math', {k: npshim.NP[k] for k in ('sqrt', 'exp', 'pi', 'sin', 'cos', 'log', 'log10', 'inf')})
        if name == 'numba':
            return Namespace('nb')
        if name == 're':
            return Namespace('re', {k: getattr(__import__('re'), k) for k in ('split', 'match', 'search', 'findall', 'sub', 'compile')})
        return Namespace(name)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            c = self.contracts.get(f.qual)
            if c is not None:
                b = self.bind(f, args, kw)
                return c(self, b)
            return self.call_body(f, args, kw)
        if isinstance(f, (Unmodelled,)):
            return f(*args, **kw)
        if isinstance(f, Opaque):
            f._no()
        try:
            return f(*args, **kw)
        except (Unsupported, PyRaise, Infeasible, PathLimit, ReturnEx):
            raise
        except (ValueError, TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError) as e:
            raise PyRaise(e)

    def call_body(self, f, args, kw):
        if isinstance(f.node, ast.Lambda):
            env = self.bind(f, args, kw)
            return self.eval(f.node.body, Frame(f.glob, env, f.closure, 'lambda'))
        env = self.bind(f, args, kw)
        self.functions_executed.add(f.qual)
        if self.depth == 0 and getattr(self, 'frame_args', None):
            kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
            for n, x in [q for n, x in env.items() for q in (x.items() if n == kwn else [(n, x)])]:
                self.frame_args(n, x)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        fr = Frame(f.glob, env, f.closure, f.qual)
        try:
            self.exec_block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1

    def bind(self, f, args, kw):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs+a.args]
        args = list(args)
        kw = dict(kw)
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError('%s() takes %d positional arguments but %d were given' % (f.__name__, len(names), len(args))))
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n in list(kw):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in env:
                    raise PyRaise(TypeError('multiple values for argument %r' % n))
                env[n] = kw.pop(n)
        dfr = Frame(f.glob, {}, f.closure, 'defaults')
        for n, d in zip(names[len(names)-len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.eval(d, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval(d, dfr)
        if a.kwarg is not None:
            env[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise(TypeError('%s() got an unexpected keyword argument %r' % (f.__name__, list(kw)[0])))
        for n in names:
            if n not in env:
                raise PyRaise(TypeError('%s() missing argument %r' % (f.__name__, n)))
        return env

    # ---------------------------------------------------------------- names
    def load_name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.env and n not in f.globals:
                v = f.env[n]
                if isinstance(v, Poison):
                    raise LoopCarried('loop-carried variable %s' % n, name=n)
                return v
            f = f.parent
        if n in fr.glob:
            return fr.glob[n]
        if n in BUILTINS:
            return BUILTINS[n]
        if n in BUILTIN_EXC:
            return BUILTIN_EXC[n]
        x = getattr(__import__('builtins'), n, None)
        if isinstance(x, type) and issubclass(x, BaseException):
            return x
        if x is not None:
            raise Unsupported('builtin %s' % n)
        raise PyRaise(NameError('name %r is not defined' % n))

    def store_name(self, n, v, fr):
        if n in fr.globals:
            if getattr(self, 'globals_written', None) is not None:
                self.globals_written.append(n)
            fr.glob[n] = v
        elif n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.env:
                    f.env[n] = v
                    return
                f = f.parent
        else:
            fr.env[n] = v

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for i, st in enumerate(body):
            if isinstance(st, ast.If):
                c = self.cond(st.test, fr)
                if isinstance(c, T):
                    # condition on a generic loop element: if-conversion
                    self.if_convert(st, c, body[i+1:], fr)
                    return
                self.exec_block(st.body if c else st.orelse, fr)
            else:
                self.exec_stmt(st, fr)

    def cond(self, node, fr):
        """True/False, or an undecided T that depends on generic loop elements."""
        v = self.eval_cond(node, fr)
        if isinstance(v, T):
            d = self.ctx.decide(v)
            if d is not None:
                return d
            if self.loop_free(v) and not self.guards:
                return self.decide(v)
            if self.loop_free(v):
                return v
            return v
        return v

    def eval_cond(self, node, fr):
        if isinstance(node, ast.BoolOp):
            acc = None
            isand = isinstance(node.op, ast.And)
            for e in node.values:
                v = self.eval_cond(e, fr)
                if isinstance(v, T):
                    d = self.ctx.decide(v)
                    if d is not None:
                        v = d
                if not isinstance(v, T):
                    if isand and not v:
                        return False if acc is None else False
                    if not isand and v:
                        return True
                    continue
                acc = v if acc is None else (tm.and_(acc, v) if isand else tm.or_(acc, v))
            if acc is None:
                return isand
            return tm.unlit(acc)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            v = self.eval_cond(node.operand, fr)
            return tm.unlit(tm.not_(v)) if isinstance(v, T) else not v
        v = self.eval(node, fr)
        if isinstance(v, T):
            return tm.unlit(tm.tob(v))
        if isinstance(v, SArr):
            if all(as_int(lit(A.full(d))) == 1 for d in v._shape):
                return tm.unlit(tm.tob(v.item()))
            raise PyRaise(ValueError('The truth value of an array is ambiguous'))
        if isinstance(v, Opaque):
            v._no()
        return bool(v)

    def if_convert(self, st, c, rest, fr):
        res = []
        env0 = dict(fr.env)
        for val, blk in ((c, st.body), (tm.not_(c), st.orelse)):
            fr.env.clear()
            fr.env.update(env0)
            self.ctx.push()
            self.guards.append(val)
            status = 'ok'
            try:
                self.ctx.add(val)
                if self.ctx.sat() is False:
                    status = 'dead'
                else:
                    try:
                        self.exec_block(blk, fr)
                    except ContinueEx:
                        status = 'continue'
            finally:
                self.guards.pop()
                self.ctx.pop()
            res.append((status, dict(fr.env)))
        (s1, e1), (s2, e2) = res
        if s1 == 'dead':
            s1, e1 = s2, e2
            c = None
        elif s2 == 'dead':
            s2, e2 = s1, e1
            c = None
        fr.env.clear()
        if s1 == s2:
            fr.env.update(self.merge_env(c, e1, e2, env0) if c is not None else e1)
            if s1 == 'continue':
                raise ContinueEx()
            self.exec_block(rest, fr)
            return
        g, e = (tm.not_(c), e2) if s1 == 'continue' else (c, e1)
        fr.env.update(e)
        self.ctx.push()
        self.guards.append(g)
        try:
            self.ctx.add(g)
            self.exec_block(rest, fr)
        finally:
            self.guards.pop()
            self.ctx.pop()

    def merge_env(self, c, e1, e2, e0):
        out = {}
        for n in set(e1) | set(e2):
            if n in e1 and n in e2:
                a, b = e1[n], e2[n]
                if a is b:
                    out[n] = a
                elif isinstance(a, (T, int, float, Fr, bool)) and isinstance(b, (T, int, float, Fr, bool)):
                    out[n] = tm.unlit(tm.ite(c, lit(a), lit(b)))
                elif isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and all(A.deq(p, q) for p, q in zip(a._shape, b._shape)):
                    self.quiet = True
                    try:
                        out[n] = A.build(a._shape, lambda *i: tm.ite(c, a.at(*i), b.at(*i)), A.dtmax(a.dtype, b.dtype))
                    finally:
                        self.quiet = False
                else:
                    out[n] = Opaque('%s differs between branches on a loop element' % n)
            else:
                out[n] = Opaque('%s assigned in one branch only' % n)
        return out

    def exec_stmt(self, st, fr):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time limit')
        m = getattr(self, 's_'+type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        try:
            v = self.eval(st.value, fr)
        except LoopCarried:
            raise
        except Unsupported as e:
            if all(isinstance(t, ast.Name) for t in st.targets) and not self.has_effect(st.value):
                v = Opaque(str(e))
            else:
                raise
        for t in st.targets:
            self.assign(t, v, fr)

    def has_effect(self, node):
        return False

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            v = self.eval(st.value, fr)
            if isinstance(old, list) and op == 'Add' and isinstance(v, (list, tuple)):
                if self.guards or self.loops:
                    raise Unsupported('list mutated inside a symbolic loop')
                self.check_frame(old, '+=')
                old.extend(v)
                return
            new = self.binop(op, old, v, inplace=True)
            self.store_name(t.id, new, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.key(t.slice, fr)
            v = self.eval(st.value, fr)
            old = self.subscript(o, k)
            if isinstance(old, SArr) and isinstance(o, SArr):
                # a[k] op= v : elementwise, then stored through the key
                new = self.binop(op, old, v)
                self.setsub(o, k, new)
            else:
                new = self.binop(op, old, v, inplace=True)
                self.setsub(o, k, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(op, old, self.eval(st.value, fr), inplace=True))
        else:
            raise Unsupported('augmented assignment')

    def s_Return(self, st, fr):
        if any(l.get('rule') for l in self.loops) or self.guards:
            raise Unsupported('return inside a symbolic loop')
        raise ReturnEx(None if st.value is None else self.eval(st.value, fr))

    def s_If(self, st, fr):
        self.exec_block([st], fr)

    def s_Raise(self, st, fr):
        if self.guards:
            raise Unsupported('raise under a generic condition')
        if st.exc is None:
            raise PyRaise(getattr(self, '_exc', RuntimeError()))
        e = self.eval(st.exc, fr)
        if isinstance(e, type):
            e = e()
        raise PyRaise(e)

    def s_Try(self, st, fr):
        try:
            self.exec_block(st.body, fr)
        except PyRaise as e:
            for h in st.handlers:
                if h.type is None:
                    ok = True
                else:
                    ty = self.eval(h.type, fr)
                    ok = isinstance(e.exc, ty if isinstance(ty, tuple) else (ty,))
                if ok:
                    if h.name:
                        fr.env[h.name] = e.exc
                    self._exc = e.exc
                    self.exec_block(h.body, fr)
                    break
            else:
                raise
        else:
            self.exec_block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, fr)

    def s_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    def s_Global(self, st, fr):
        fr.globals |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_Import(self, st, fr):
        self.do_import(st, fr)
    s_ImportFrom = s_Import

    def s_FunctionDef(self, st, fr):
        self.store_name(st.name, Func(st, fr.glob, fr, fr.name+'.'+st.name, self), fr)

    def s_Assert(self, st, fr):
        c = self.cond(st.test, fr)
        if c is False:
            raise PyRaise(AssertionError())

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                if not isinstance(o, (list, dict)) or self.loops or self.guards:
                    raise Unsupported('del')
                self.check_frame(o, 'del')
                k = self.key(t.slice, fr)
                try:
                    del o[k]
                except (IndexError, KeyError, TypeError) as e:
                    raise PyRaise(e)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_While(self, st, fr):
        n = 0
        while True:
            c = self.cond(st.test, fr)
            if isinstance(c, T):
                raise Unsupported('while on a generic element')
            if not c:
                self.exec_block(st.orelse, fr)
                break
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                break
            except ContinueEx:
                pass
            n += 1
            if n > 300:
                raise Unsupported('while loop without contract')

    # ---------------------------------------------------------------- for loops
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        seq = self.sequence(it)
        if seq is None:
            try:
                xs = list(it)
            except TypeError as e:
                raise PyRaise(e)
            broke = False
            for x in xs:
                self.assign(st.target, x, fr)
                try:
                    self.exec_block(st.body, fr)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    pass
            if not broke:
                self.exec_block(st.orelse, fr)
            return
        n, elem = seq
        if st.orelse:
            raise Unsupported('for-else over a symbolic range')
        n = lit(n)
        if as_int(n) is not None and as_int(n) <= 64:
            for k in range(as_int(n)):
                x = elem(lit(k))
                self.assign(st.target, tm.unlit(x) if isinstance(x, T) else x, fr)
                try:
                    self.exec_block(st.body, fr)
                except BreakEx:
                    break
                except ContinueEx:
                    pass
            return
        d = self.ctx.decide(tm.le(n, 0))
        if d is None and self.loop_free(n) and not self.guards and self.needs_nonempty(st):
            d = self.decide(tm.le(n, 0))
        if d:
            return
        snap = self.snapshot(fr)
        try:
            self.loop_parallel(st, fr, n, elem)
            return
        except Unsupported as e:
            first = e
            self.restore(snap, fr)
        spec = self.find_loopspec(fr)
        if spec is not None:
            nn = self.ctx.decide(tm.le(n, 0))
            if nn is None:
                if not self.loop_free(n) or self.guards:
                    raise first
                if self.decide(tm.le(n, 0)):
                    return
            self.loop_inductive(st, fr, n, elem, spec, first)
            return
        if not isinstance(first, LoopCarried):
            raise first
        # accumulators (sums, conjunctions of flags) and variables constant after one iteration
        modes, bases, peeled = {}, [], False
        while True:
            last = None
            if first.base is not None and not any(b is first.base for b in bases):
                bases.append(first.base)
            elif first.name is not None and modes.get(first.name) is None:
                modes[first.name] = 'sem'
                last = first.name
            elif first.name is not None and modes[first.name] == 'sem':
                modes[first.name] = 'const'
            else:
                raise first
            m, e = n, elem
            if 'const' in modes.values() and not peeled:
                nn = self.ctx.decide(tm.le(n, 0))
                if nn is None and (not self.loop_free(n) or self.guards):
                    raise first
                if nn or nn is None and self.decide(tm.le(n, 0)):
                    return
                x = elem(lit(0))
                self.assign(st.target, tm.unlit(x) if isinstance(x, T) else x, fr)
                try:
                    self.exec_block(st.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise Unsupported('break in a symbolic loop')
                more = self.ctx.decide(tm.lt(1, n))
                if more is None and not self.loop_free(n):
                    raise first
                if more is False or more is None and not self.decide(tm.lt(1, n)):
                    return
                peeled = True
            if peeled:
                m, e = tm.add(n, -1), lambda k: elem(tm.add(k, 1))
            snap = self.snapshot(fr)
            try:
                self.loop_parallel(st, fr, m, e, modes, bases)
                return
            except LoopCarried as x:
                first = x
                self.restore(snap, fr)
            except Unsupported:
                last = last or next((k for k in modes if modes[k] == 'sem'), None)
                if last is None:
                    raise
                first = LoopCarried('loop-carried variable %s' % last, name=last)
                self.restore(snap, fr)

    def needs_nonempty(self, st):
        return False

    def find_loopspec(self, fr):
        f = fr
        while f is not None:
            if f.name in self.loopspecs:
                return self.loopspecs[f.name]
            f = f.parent
        return self.loopspecs.get('*')

    def sequence(self, it):
        """(length, element function) for iterables of symbolic length, else None."""
        if isinstance(it, SymRange):
            return it.n, it.elem
        if isinstance(it, SArr):
            n = lit(A.full(it._shape[0])) if it.ndim else None
            if isinstance(it._shape[0], A.MaskDim):
                raise Unsupported('iteration over a selection')
            if n is not None and as_int(n) is None:
                return n, lambda k: it[k]
            return None
        if isinstance(it, EnumZip):
            return it.n, it.elem
        return None

    def assigned_names(self, body):
        out = set()

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in body:
            visit(s)
        return out

    def snapshot(self, fr):
        return (dict(fr.env), len(self.journal), len(self.reads), len(self.obls), len(self.guards), len(self.loops),
                next(A._birth))

    def restore(self, snap, fr):
        env, nj, nr, no, ng, nl, birth = snap
        fr.env.clear()
        fr.env.update(env)
        for base, st in reversed(self.journal[nj:]):
            if base.stores and base.stores[-1] is st:
                base.stores.pop()
            elif st in base.stores:
                base.stores.remove(st)
        del self.journal[nj:]
        del self.reads[nr:]
        del self.obls[no:]
        del self.guards[ng:]
        del self.loops[nl:]

    def havoc(self, b, v):
        """unknown content of an array that the iterations add to"""
        nm = 'acc%d' % next(A._birth)
        s = {'f': 'R', 'c': 'C', 'i': 'I', 'b': 'B'}.get(b.dtype.kind, 'C')
        f = lambda *idx: tm.fn(nm, *idx, v, sort=s)
        self.wholestore(b, f)
        return nm, f

    def wholestore(self, b, f):
        vs = [lit(0) if as_int(lit(d)) == 1 else tm.fresh('s', 'I') for d in b.shape]
        gv = [x for x in vs if x.op == 'v']
        self.ctx.push()
        self.gen_vars.append(gv)
        try:
            for x, d in zip(vs, b.shape):
                if x.op == 'v':
                    self.ctx.add(tm.le(0, x))
                    self.ctx.add(tm.lt(x, lit(d)))
            val = f(*vs)
        finally:
            self.gen_vars.pop()
            self.ctx.pop()
        s = A.Store(tuple((x, lit(0), lit(d)) for x, d in zip(vs, b.shape) if x.op == 'v'), tuple(vs), lit(val), TRUE)
        b.stores.append(s)
        self.journal.append((b, s))

    def array_delta(self, b, nm, f, old, v, n):
        """what one iteration adds to b, as a function of the index"""
        from .prover import Prover, PROVED
        vs = [lit(0) if as_int(lit(d)) == 1 else tm.fresh('x', 'I') for d in b.shape]
        gv = [x for x in vs if x.op == 'v']
        self.ctx.push()
        self.gen_vars.append(gv)
        try:
            for x, d in zip(vs, b.shape):
                if x.op == 'v':
                    self.ctx.add(tm.le(0, x))
                    self.ctx.add(tm.lt(x, lit(d)))
            new = lit(b.read(tuple(vs)))
            h = f(*vs)
            delta = tm.subst(new, {h: lit(0)})
            if any(a.op == 'f' and a.args[0] == nm for a in tm.atoms_of(delta)):
                raise Unsupported('array accumulated in another form')
            if Prover(self.ctx).equal(new, tm.add(h, delta)) != PROVED:
                raise Unsupported('array not only added to')
            return vs, delta, lit(old.at(*vs))
        finally:
            self.gen_vars.pop()
            self.ctx.pop()

    def sem_accumulated(self, k, p, old, new, v, n):
        if isinstance(new, (Opaque, Poison, SArr)) or not isinstance(new, (bool, int, float, T)):
            return None
        new = lit(new)
        q = tm.fresh('q', 'I')
        if p.sort == 'B':
            e = tm.tob(new)
            one, zero = tm.subst(e, {p: TRUE}), tm.subst(e, {p: FALSE})
            if self.ctx.entails(tm.not_(zero)):
                return tm.unlit(tm.and_(tm.tob(lit(old)), tm.all_(q, lit(0), n, tm.subst(one, {v: q}))))
            if self.ctx.entails(one):
                return tm.unlit(tm.or_(tm.tob(lit(old)), tm.not_(tm.all_(q, lit(0), n, tm.not_(tm.subst(zero, {v: q}))))))
            return None
        d = tm.add(new, tm.neg(p))
        if p in tm.fv(d):
            return None
        return tm.unlit(tm.add(lit(old), tm.sum_(q, lit(0), n, tm.subst(d, {v: q}))))

    def loop_parallel(self, st, fr, n, elem, modes=None, bases=()):
        """Rule P: iterations are independent of each other, except for accumulators
        (modes 'sem'; bases: arrays) and variables that keep their value ('const')."""
        modes = modes or {}
        names = self.assigned_names(st.body) | self.assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
        v = tm.fresh('it', 'I')
        birth = next(A._birth)
        j0, r0 = len(self.journal), len(self.reads)
        saved, acc, total, sem, hav, autos = {}, {}, {}, {}, [], set()
        for k in names:
            if k in fr.env:
                saved[k] = fr.env[k]
                if modes.get(k) == 'const':
                    continue
                auto = modes.get(k) is None and (isinstance(fr.env[k], bool) or isinstance(fr.env[k], T) and fr.env[k].sort == 'B') \
                    and self.accumulates(k, fr.env[k], st.body) is None
                if auto:
                    autos.add(k)
                if modes.get(k) == 'sem' or auto:
                    x = fr.env[k]
                    if not isinstance(x, (bool, int, float, T)):
                        raise LoopCarried('loop-carried variable %s' % k, name=k)
                    x = lit(x)
                    sem[k] = fr.env[k] = tm.fresh('carry', x.sort)
                    continue
                # in-place update of a whole array is a store, not a rebinding
                if isinstance(fr.env[k], SArr) and not self.rebinds(k, st.body):
                    continue
                op = self.accumulates(k, fr.env[k], st.body)
                if op is not None:
                    acc[k] = op
                    fr.env[k] = 0 if op == 'Add' else True
                    continue
                fr.env[k] = Poison(k, fr.env[k])
            else:
                fr.env[k] = Poison(k, None)
        self.ctx.push()
        self.loops.append({'v': v, 'lo': lit(0), 'hi': n, 'rule': 'P', 'birth': birth})
        ok = False
        try:
            self.ctx.add(tm.le(0, v))
            self.ctx.add(tm.lt(v, n))
            for b in bases:
                hav.append((b, self.freeze(SArr(b))) + self.havoc(b, v))
            if sem:
                self.gen_vars.append(list(sem.values()))
            try:
                self.assign(st.target, elem(v), fr)
                try:
                    self.exec_block(st.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise Unsupported('break in a symbolic loop')
            finally:
                if sem:
                    self.gen_vars.pop()
            self.check_independent(v, n, birth, j0, r0, bases)
            for k, p in sem.items():
                total[k] = self.sem_accumulated(k, p, saved[k], fr.env[k], v, n)
                if total[k] is None and k not in autos:
                    raise LoopCarried('loop-carried variable %s' % k, name=k)
            for k, m in modes.items():
                if m == 'const' and k in saved:
                    x, y = saved[k], fr.env[k]
                    if not (x is y or isinstance(x, (T, int, float)) and isinstance(y, (T, int, float)) and (lit(x) is lit(y) or self.ctx.entails(tm.cmp_eq(x, y)))):
                        raise LoopCarried('loop-carried variable %s' % k, name=k)
                    total[k] = x
            deltas = [(b,) + self.array_delta(b, nm, f, old, v, n) for b, old, nm, f in hav]
            carried = list(sem.values())
            names_h = {nm for _, _, nm, _ in hav}
            if carried or names_h:
                for b, s in self.journal[j0:]:
                    if b.birth >= birth or any(b is x for x in bases):
                        continue
                    for e in list(s.idx) + [s.val, s.guard]:
                        if any(p in tm.fv(e) for p in carried) or names_h and any(a.op == 'f' and a.args[0] in names_h for a in tm.atoms_of(e)):
                            raise LoopCarried('accumulator used inside the loop')
                for vs, d, o in [x[1:] for x in deltas]:
                    if any(p in tm.fv(d) for p in carried) or any(a.op == 'f' and a.args[0] in names_h for a in tm.atoms_of(d)):
                        raise LoopCarried('accumulator used inside the loop')
                for k in list(acc) + list(sem):
                    e = total.get(k) if k in total else None
                    if isinstance(e, T) and (any(p in tm.fv(e) for p in carried if p is not sem.get(k)) or
                                             any(a.op == 'f' and a.args[0] in names_h for a in tm.atoms_of(e))):
                        raise LoopCarried('accumulator used inside the loop')
            for k, op in acc.items():
                total[k] = self.accumulated(op, saved[k], fr.env[k], v, n)
            ok = True
        finally:
            self.loops.pop()
            self.ctx.pop()
        # quantify the stores over the loop variable
        new = self.journal[j0:]
        del self.journal[j0:]
        for b, old, nm, f in hav:
            drop = [s for x, s in new if x is b]
            b.stores = [s for s in b.stores if not any(s is d for d in drop)]
        new = [(b, s) for b, s in new if not any(b is x for x in bases)]
        for b, vs, d, o in (deltas if hav else ()):
            q = tm.fresh('q', 'I')
            val = tm.add(o, tm.sum_(q, lit(0), n, tm.subst(d, {v: q})))
            s = A.Store(tuple((x, lit(0), lit(z)) for x, z in zip(vs, b.shape) if x.op == 'v'), tuple(vs), lit(val), TRUE)
            b.stores.append(s)
            self.journal.append((b, s))
        for base, s in new:
            if base.birth < birth:
                s2 = A.Store(s.vars + ((v, lit(0), n),), s.idx, s.val, s.guard)
                base.stores[base.stores.index(s)] = s2
                self.journal.append((base, s2))
        for k in names:
            old = saved.get(k)
            if isinstance(old, SArr) and fr.env.get(k) is old:
                continue
            fr.env[k] = total[k] if total.get(k) is not None else Opaque('value of %s after a loop' % k)
        if not self.loops:
            del self.reads[:]

    def accumulates(self, name, val, body):
        """'Add' / 'Mult' if the loop only adds to / multiplies a flag into `name`
        and never looks at it."""
        if isinstance(val, bool) or isinstance(val, T) and val.sort == 'B':
            want = 'Mult'
        elif isinstance(val, (int, float, T)):
            want = 'Add'
        else:
            return None
        ops, names = set(), 0
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    ops.add({'BitAnd': 'Mult'}.get(type(x.op).__name__, type(x.op).__name__))
                    names += 1
                if isinstance(x, (ast.FunctionDef, ast.Lambda)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                    return None
        if ops != {want} or sum(isinstance(y, ast.Name) and y.id == name for s in body for y in ast.walk(s)) != names:
            return None
        return want

    def accumulated(self, op, old, part, v, n):
        if isinstance(part, (Opaque, Poison, SArr)) or not isinstance(part, (bool, int, float, T)):
            return None
        part = lit(part)
        q = tm.fresh('q', 'I')
        if op == 'Add':
            return tm.unlit(tm.add(lit(old), tm.sum_(q, lit(0), n, tm.subst(tm._b2i(part), {v: q}))))
        if part.sort != 'B' and not self.ctx.entails(tm.or_(tm.cmp_eq(part, 0), tm.cmp_eq(part, 1))):
            return None
        return tm.unlit(tm.and_(tm.tob(lit(old)), tm.all_(q, lit(0), n, tm.subst(tm.tob(part), {v: q}))))

    def rebinds(self, name, body):
        """is `name` rebound by plain assignment in body?"""
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store):
                                return True
                if isinstance(x, (ast.For,)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                    return True
        return False

    def check_independent(self, v, n, birth, j0, r0, bases=()):
        stores = [(b, s) for b, s in self.journal[j0:] if b.birth < birth and not any(b is x for x in bases)]
        reads = [r for r in self.reads[r0:] if r[0].birth < birth]
        byb = {}
        for b, s in stores:
            byb.setdefault(b, []).append(s)
        v2 = tm.fresh('jt', 'I')
        for b, ss in byb.items():
            acc = [(s.idx, s.vars) for s in ss]
            seen = set()
            for idx, vars_ in acc:
                key = tuple(idx)
                for (ridx, rvars) in acc + [(r[1], None) for r in reads if r[0] is b]:
                    kk = (key, tuple(ridx))
                    if kk in seen:
                        continue
                    seen.add(kk)
                    if not self.disjoint(idx, vars_, ridx, v, v2, n, rvars):
                        raise LoopCarried('iterations are not independent (array element reused)', base=b)
        # summations: reads happening inside generic variables are covered by ridx symbols

    def block_disjoint(self, a, b, avars, bvars, v, n):
        """v*M + r and v'*M + r' with 0 <= r, r' < M differ for v != v' (or: v + M*s with 0 <= v < M)"""
        pa, pb = A.split_block(a, v), A.split_block(b, v)
        if pa is None or pb is None or pa[0] is not pb[0] or pa[2] is not pb[2]:
            return False
        M = pa[0]
        inner = {w for vs in (avars, bvars) for w, _, _ in (vs or ())}
        if M is lit(1):
            # v + s*M2 with 0 <= v < M2: distinct remainders modulo M2
            for w in inner & tm.fv(pa[1]):
                blk = A.split_block(pa[1], w)
                if blk is None or tm.fv(blk[0]) & inner or v in tm.fv(blk[0]) or not self.ctx.entails(tm.le(n, blk[0])):
                    continue
                if self.exact_quotient(pa[1], blk[0]) is not None and self.exact_quotient(pb[1], blk[0]) is not None:
                    return True
            return False
        if tm.fv(M) & inner:
            return False
        self.ctx.push()
        try:
            for vs in (avars, bvars):
                for w, lo, hi in vs or ():
                    self.ctx.add(tm.le(lit(lo), w))
                    self.ctx.add(tm.lt(w, lit(hi)))
            return self.ctx.entails(tm.and_(tm.le(0, pa[1]), tm.lt(pa[1], M), tm.le(0, pb[1]), tm.lt(pb[1], M)))
        finally:
            self.ctx.pop()

    def disjoint(self, widx, wvars, ridx, v, v2, n, rvars=None):
        """for v2 != v: location widx[v2, fresh inner] differs from ridx[v]"""
        ren = {v: v2}
        extra = []
        for s in set().union(*[tm.fv(e) for e in widx]):
            if s is v or not ('!' in s.args[0]):
                continue
            if s.args[0].startswith(('it!', 's!', 'x!', 'k!', 'm!', 'jt!')) and not any(s is l['v'] for l in self.loops):
                ren[s] = tm.fresh('q', 'I')
        w2 = [tm.subst(e, ren) for e in widx]
        for a, b, a0 in zip(w2, ridx, widx):
            # fast path: a0 == b as functions of v only, linear with unit coefficient
            if a0 is b and a0.sort == 'I':
                c, d = tm._parts(a0)
                if d.get(v) and all(m is v or not ((tm.fv(m) - {v}) & set(ren)) for m in d) and \
                        not any(v in tm.fv(m) for m in d if m is not v):
                    return True
        for a0, b0 in zip(widx, ridx):
            if self.block_disjoint(a0, b0, wvars, rvars, v, n):
                return True
        conj = [tm.cmp_eq(a, b) for a, b in zip(w2, ridx)]
        conj.append(tm.not_(tm.cmp_eq(v, v2)))
        conj += [tm.le(0, v2), tm.lt(v2, n)]
        return self.ctx.sat(*conj) is False

    # inductive loop contracts ------------------------------------------------
    def loop_inductive(self, st, fr, n, elem, spec, why):
        """Rule I: first iteration executed; then an inductive invariant, whose
        parts are chosen from the contract's candidates, carries the loop."""
        if self.guards or any(l['rule'] == 'P' for l in self.loops):
            raise why
        names = self.assigned_names(st.body)
        tnames = self.assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
        # arrays modified: discover by executing the first iteration
        j0 = len(self.journal)
        birth = next(A._birth)
        env0 = dict(fr.env)
        pre = {}
        for k, x in env0.items():
            if isinstance(x, SArr):
                pre[k] = self.freeze(x)
        self.assign(st.target, elem(lit(0)), fr)
        try:
            self.exec_block(st.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported('break in a symbolic loop')
        more = self.decide(tm.lt(1, n))
        if not more:
            return
        touched = {b for b, s in self.journal[j0:] if b.birth < birth}
        # trial generic iteration to find everything modified
        carriers = []          # (kind, name)
        for k in sorted(names - tnames):
            if k in fr.env:
                carriers.append(k)
        arrs = {}
        for k, x in env0.items():
            if isinstance(x, SArr) and k not in names:
                arrs.setdefault(x.base, k)
        for k, x in env0.items():
            if isinstance(x, SArr) and k in names and not self.rebinds(k, st.body):
                arrs.setdefault(x.base, k)
        carriers = [k for k in carriers if not (isinstance(fr.env[k], SArr) and fr.env[k].base in arrs)]
        after1 = dict(fr.env)
        state = LoopState(self, fr, st, n, elem, carriers, arrs, after1, env0, pre, spec)
        state.solve(touched)

    def freeze(self, x):
        """content of an array now (independent of later stores)"""
        stores = list(x.base.stores)
        im = x.imap or (lambda i: i)
        tab = dict(x.base.tab) if x.base.tab is not None else None
        b = A.Base(x.base.shape, x.base.dtype, x.base.vars, x.base.body, tab)
        b.stores = stores
        return SArr(b, x._shape, x.imap)

    # ---------------------------------------------------------------- assign
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque):
                vs = [Opaque(v.why)]*len(t.elts)
            else:
                try:
                    vs = list(v)
                except TypeError as e:
                    raise PyRaise(e)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts)-i-1
                vs = vs[:i] + [vs[i:len(vs)-k]] + vs[len(vs)-k:]
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError('not enough/too many values to unpack'))
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setsub(o, self.key(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def check_frame(self, o, what):
        ro = getattr(self, 'readonly_ids', {}).get(id(o))
        if ro:
            self.obls.append(Obligation('frame: argument %s is not modified' % ro, 'failed', what))

    def setsub(self, o, k, v):
        if isinstance(v, Opaque):
            v._no()
        if isinstance(o, SArr):
            try:
                A.setitem(o, k, v)
            except (ValueError, IndexError) as e:
                raise PyRaise(e)
        elif isinstance(o, (list, dict)):
            if isinstance(o, list) and (self.loops or self.guards):
                raise Unsupported('list mutated inside a symbolic loop')
            if self.guards:
                raise Unsupported('dict mutated under a generic condition')
            if isinstance(k, T):
                k = tm.unlit(k)
            self.check_frame(o, 'item assignment')
            try:
                o[k] = v
            except (IndexError, TypeError, KeyError) as e:
                raise PyRaise(e)
        else:
            raise Unsupported('item assignment on %s' % type(o).__name__)

    def setattr(self, o, a, v):
        if isinstance(o, Obj):
            o.__dict__[a] = v
        else:
            raise Unsupported('attribute assignment')

    # ---------------------------------------------------------------- expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_'+type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, float):
            return lit(v)
        if isinstance(v, complex):
            return lit(v)
        return v

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return self.elts(n.elts, fr)

    def e_Set(self, n, fr):
        return set(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(list(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[tm.unlit(self.eval(k, fr))] = self.eval(v, fr)
        return d

    def e_JoinedStr(self, n, fr):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                try:
                    x = self.eval(v.value, fr)
                except (Unsupported, PyRaise):
                    x = '?'
                out += str(x) if isinstance(x, (str, int)) and v.format_spec is None and v.conversion == -1 else '{}'
        return out

    def e_BinOp(self, n, fr):
        return self.binop(type(n.op).__name__, self.eval(n.left, fr), self.eval(n.right, fr))

    def binop(self, op, a, b, inplace=False):
        for x in (a, b):
            if isinstance(x, Opaque):
                x._no()
        import operator as o
        pure = (int, float, Fr, bool)
        if isinstance(a, pure) and isinstance(b, pure) and not isinstance(a, SArr) and not isinstance(b, SArr):
            if op == 'Div':
                if b == 0:
                    raise PyRaise(ZeroDivisionError('division by zero'))
                return tm.div(lit(a), lit(b))
            if op == 'Pow' and isinstance(a, int) and isinstance(b, int) and b < 0:
                return tm.power(lit(a), lit(b))
        if isinstance(a, Fr):
            a = lit(a)
        if isinstance(b, Fr):
            b = lit(b)
        fs = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod,
              'Pow': o.pow, 'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor, 'MatMult': o.matmul}
        if isinstance(a, str) and op == 'Mod':
            return 'text'
        if op not in fs:
            raise Unsupported('operator '+op)
        f = fs[op]
        if inplace and isinstance(a, SArr):
            ip = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__', 'Pow': '__ipow__'}.get(op)
            if ip is None:
                r = f(a, b)
                a.assign(None, r)
                return a
            try:
                return getattr(a, ip)(b)
            except (ValueError, TypeError) as e:
                raise PyRaise(e)
        if isinstance(a, SymRange):
            a = a.toarr()
        if isinstance(b, SymRange):
            b = b.toarr()
        if isinstance(a, (list, tuple)) and isinstance(b, SArr):
            a = A.arr(a)
        if isinstance(b, (list, tuple)) and isinstance(a, SArr):
            b = A.arr(b)
        if isinstance(a, list) and op == 'Mult' and isinstance(b, T):
            b = int(b)
        if isinstance(a, str) and op == 'Add':
            return a + str(b)
        if op == 'Mult' and (isinstance(a, T) or isinstance(b, T)) and not isinstance(a, SArr) and not isinstance(b, SArr):
            la, lb = (x if isinstance(x, T) else lit(x) if isinstance(x, bool) else None for x in (a, b))
            if la is not None and lb is not None and la.sort == 'B' and lb.sort == 'B':
                return tm.unlit(tm.and_(la, lb))
        try:
            r = f(a, b)
        except (ValueError, TypeError, ZeroDivisionError, IndexError) as e:
            raise PyRaise(e)
        if isinstance(r, float):
            r = lit(r)
        return tm.unlit(r) if isinstance(r, T) else r

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            v = self.eval_cond(n, fr)
            return v
        v = self.eval(n.operand, fr)
        if isinstance(v, Opaque):
            v._no()
        if isinstance(n.op, ast.USub):
            return tm.unlit(-v) if isinstance(v, T) else -v
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, bool):
                raise Unsupported('~bool')
            return ~v
        raise Unsupported('unary operator')

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, fr)
            if i == len(n.values)-1:
                return v
            if isinstance(v, T):
                d = self.ctx.decide(tm.tob(v))
                if d is None:
                    if tm.tob(v).sort == 'B' and v.sort == 'B':
                        r = self.eval_cond(n, fr)
                        return r
                    d = self.decide(tm.tob(v))
                t = d
            else:
                t = bool(v)
            if isand and not t or (not isand and t):
                return v
        return v

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if acc is None:
                acc = v
            elif isinstance(acc, (T, SArr)) or isinstance(v, (T, SArr)):
                acc = tm.unlit(tm.and_(acc, v)) if not isinstance(acc, SArr) and not isinstance(v, SArr) else acc & v
            else:
                acc = acc and v
            left = right
        return acc

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Opaque):
                x._no()
        if isinstance(a, SymRange):
            a = a.toarr()
        if isinstance(b, SymRange):
            b = b.toarr()
        if op in ('In', 'NotIn'):
            if isinstance(b, SArr):
                b = b.tolist()
            if isinstance(b, str):
                r = a in b
            elif isinstance(b, dict):
                r = tm.unlit(a) in b
            else:
                if isinstance(a, SArr):
                    a = a.item()
                acc = FALSE
                for x in b:
                    if isinstance(x, (T, int, Fr)) and isinstance(a, (T, int, Fr)) and not isinstance(x, bool):
                        acc = tm.or_(acc, tm.cmp_eq(lit(a), lit(x)))
                    elif x is a or (type(x) is type(a) and not isinstance(x, SArr) and x == a):
                        acc = TRUE
                r = tm.unlit(acc)
            if op == 'NotIn':
                r = tm.unlit(tm.not_(r)) if isinstance(r, T) else not r
            return r
        if op in ('Is', 'IsNot'):
            a2, b2 = tm.unlit(a), tm.unlit(b)
            r = (a2 is b2) or (isinstance(a2, T) and a2 is b2)
            return r if op == 'Is' else not r
        import operator as o
        f = {'Eq': o.eq, 'NotEq': o.ne, 'Lt': o.lt, 'LtE': o.le, 'Gt': o.gt, 'GtE': o.ge}[op]
        if isinstance(a, Fr):
            a = lit(a)
        if isinstance(b, Fr):
            b = lit(b)
        try:
            r = f(a, b)
        except TypeError as e:
            raise PyRaise(e)
        return tm.unlit(r) if isinstance(r, T) else r

    def e_IfExp(self, n, fr):
        c = self.cond(n.test, fr)
        if isinstance(c, T):
            a, b = self.eval(n.body, fr), self.eval(n.orelse, fr)
            return tm.unlit(tm.ite(c, lit(a), lit(b)))
        return self.eval(n.body if c else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return Func(n, fr.glob, fr, fr.name+'.<lambda>', self)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def getattr(self, o, a):
        if isinstance(o, (Namespace, Opaque, Unmodelled, LazyMod)):
            return getattr(o, a)
        if isinstance(o, T) or isinstance(o, (int, float)) and not isinstance(o, bool):
            t = lit(o)
            if a in ('real', 'imag'):
                return tm.unlit(getattr(t, a))
            if a in ('conj', 'conjugate'):
                return lambda: tm.unlit(t.conj())
            if a in ('size',):
                return 1
            if a == 'ndim':
                return 0
            if a == 'shape':
                return ()
            if a == 'dtype':
                return A.sortdt(t)
            if a == 'item':
                return lambda: o
            if a in ('all', 'any', 'min', 'max', 'sum', 'squeeze', 'copy'):
                return lambda *x, **k: tm.unlit(t)
            if a == 'astype':
                return lambda d, **k: npshim.dt(d)(t)
            if a == 'ravel' or a == 'flatten':
                return lambda *x, **k: A.ravel(npshim.atleast_1d(t))
            if a == 'reshape':
                return lambda *x, **k: A.scalar_arr(t).reshape(*x, **k)
            raise PyRaise(AttributeError('no attribute %r' % a))
        if isinstance(o, bool):
            if a in ('all', 'any'):
                return lambda *x: o
            raise PyRaise(AttributeError(a))
        if isinstance(o, list) and a in ('append', 'extend', 'insert', 'pop'):
            if self.guards or any(l['rule'] == 'P' for l in self.loops):
                raise Unsupported('list mutated inside a symbolic loop')
        if isinstance(o, (list, dict)) and a in ('pop', 'update', 'setdefault', 'clear', 'popitem', 'append', 'extend', 'insert', 'sort', 'reverse', 'remove'):
            self.check_frame(o, a)
        try:
            return getattr(o, a)
        except AttributeError as e:
            raise PyRaise(e)

    def key(self, n, fr):
        if isinstance(n, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, fr)
            return slice(g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple):
            return tuple(self.key(e, fr) for e in n.elts)
        return self.eval(n, fr)

    def e_Subscript(self, n, fr):
        return self.subscript(self.eval(n.value, fr), self.key(n.slice, fr))

    def subscript(self, o, k):
        if isinstance(o, Opaque):
            o._no()
        try:
            if isinstance(o, SArr):
                return A.getitem(o, k)
            if isinstance(o, SymRange):
                return A.getitem(o.toarr(), k)
            if isinstance(o, npshim._R):
                return o[k]
            if isinstance(o, A.WhereIdx):
                return o.item(int(lit(k)))
            if isinstance(o, (list, tuple, str, range)):
                if isinstance(k, slice):
                    k = slice(*[None if x is None else int(x) for x in (k.start, k.stop, k.step)])
                elif isinstance(k, SArr):
                    k = int(lit(k.item()))
                elif isinstance(k, T):
                    k = int(k)
                return o[k]
            if isinstance(o, dict):
                return o[tm.unlit(k)]
            if isinstance(o, T) and isinstance(k, tuple) and all(x is None for x in k):
                return A.arr(o)[k]
        except (IndexError, KeyError, ValueError) as e:
            raise PyRaise(e)
        except TypeError as e:
            raise PyRaise(e)
        if isinstance(o, (T, int)) and (k is None or isinstance(k, tuple)):
            return A.getitem(A.scalar_arr(o), k)
        raise Unsupported('subscript of %s' % type(o).__name__)

    def text_of(self, n, fr):
        """text of a printed expression as far as it is literal"""
        if isinstance(n, ast.Constant):
            return str(n.value)
        if isinstance(n, ast.JoinedStr):
            return ''.join(self.text_of(v.value if isinstance(v, ast.FormattedValue) else v, fr) for v in n.values)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return self.text_of(n.left, fr)+self.text_of(n.right, fr)
        if isinstance(n, ast.Name):
            try:
                x = self.load_name(n.id, fr)
            except (PyRaise, Unsupported):
                return '{}'
            return str(x) if type(x) is str else '{}'
        return '{}'

    def e_Call(self, n, fr):
        f = self.eval(n.func, fr)
        if f is BUILTINS['print']:
            self.printed.append(' '.join(self.text_of(a, fr) for a in n.args))
            return None
        if f is BUILTINS['locals']:
            return dict(fr.env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(list(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, fr))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        r = self.call(f, args, kw)
        if f is npshim.NP['array'] and isinstance(r, SArr) and r.dtype.kind == 'f' and 'dtype' not in kw and len(args) == 1 and n.args and complex_literal(n.args[0]):
            r = r.astype(A.DC)          # 0.+0.j is complex although its value is real
        return r

    def comp(self, n, fr, f):
        out = []
        sub = Frame(fr.glob, {}, fr, fr.name)
        sub.env = {}

        def rec(i):
            if i == len(n.generators):
                out.append(f(sub))
                return
            g = n.generators[i]
            it = self.eval(g.iter, sub if i else fr)
            if self.sequence(it) is not None:
                raise Unsupported('comprehension over a symbolic range')
            for x in list(it):
                self.assign(g.target, x, sub)
                ok = True
                for c in g.ifs:
                    v = self.cond(c, sub)
                    if isinstance(v, T):
                        raise Unsupported('comprehension filter on a generic element')
                    ok = ok and v
                if ok:
                    rec(i+1)
        rec(0)
        return out

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, lambda s: self.eval(n.elt, s))

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, lambda s: self.eval(n.elt, s))

    def e_SetComp(self, n, fr):
        return set(self.comp(n, fr, lambda s: self.eval(n.elt, s)))

    def e_DictComp(self, n, fr):
        return dict(self.comp(n, fr, lambda s: (tm.unlit(self.eval(n.key, s)), self.eval(n.value, s))))

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        raise Unsupported('starred expression')


def complex_literal(n):
    nodes = list(ast.walk(n))
    return all(isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.List, ast.Tuple, ast.Load)) for x in nodes) and any(
        isinstance(x, ast.Constant) and isinstance(x.value, complex) for x in nodes)


class LazyMod:
    def __init__(self, interp, name):
        self.__dict__['i'], self.__dict__['n'] = interp, name

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return getattr(self.i.module(self.n), a)


class Obj:
    """plain attribute bag"""

    def __init__(self, **k):
        self.__dict__.update(k)


class EnumZip:
    def __init__(self, n, elem):
        self.n, self.elem = n, elem


def deepcopy(x):
    if isinstance(x, dict):
        return {k: deepcopy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deepcopy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(deepcopy(v) for v in x)
    if isinstance(x, SArr):
        return x.copy()
    return x


# ------------------------------------------------------------------ builtins
def b_range(*a):
    a = [tm.unlit(lit(x)) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    r = SymRange(lo, hi, st)
    n = as_int(r.n)
    if n is not None and n <= 64:
        return [tm.unlit(r.elem(k)) for k in range(n)]
    return r


def b_len(x):
    if isinstance(x, SArr):
        return x.shape[0]
    if isinstance(x, SymRange):
        return tm.unlit(x.n)
    return len(x)


def b_abs(x):
    return tm.unlit(abs(lit(x))) if not isinstance(x, SArr) else abs(x)


def _fold(f):
    def g(*a, **k):
        xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], (T, int)) else list(a)
        r = lit(xs[0])
        for x in xs[1:]:
            c = tm.le(r, lit(x))
            d = A.CUR.ctx.decide(c) if A.CUR else None
            if d is None and A.CUR and A.CUR.loop_free(c) and not A.CUR.guards:
                d = A.CUR.decide(c)
            if d is None:
                r = f(r, lit(x))
            else:
                r = (r if d else lit(x)) if f is tm.min_ else (lit(x) if d else r)
        return tm.unlit(r)
    return g


def b_int(x=0, *a):
    if isinstance(x, str):
        return int(x, *a)
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, (dict, list)) or x is None:
        raise TypeError('int() argument')
    t = lit(x)
    if t.sort == 'R' and t.op != 'c':
        q = exact_int(t)
        if q is not None:
            return tm.unlit(q)
    return A.to_int(t)


def exact_int(t):
    """int(a/b) with b | a structurally"""
    return None


def b_float(x=0.0):
    if isinstance(x, SArr):
        x = x.item()
    return tm.toreal(lit(x))


def b_bool(x=False):
    if isinstance(x, T):
        return tm.unlit(tm.tob(x))
    if isinstance(x, SArr):
        return tm.unlit(tm.tob(x.item()))
    return bool(x)


def b_isinstance(x, ty):
    tys = ty if isinstance(ty, tuple) else (ty,)
    for t in tys:
        n = getattr(t, 'pyname', None)
        if t is SArr:
            if isinstance(x, SArr):
                return True
        elif n == 'int':
            if isinstance(x, int) or isinstance(x, T) and x.sort == 'I':
                return True
        elif n == 'float':
            if isinstance(x, T) and x.sort == 'R':
                return True
        elif n == 'complex':
            if isinstance(x, T) and x.sort == 'C':
                return True
        elif n in ('bool',):
            if isinstance(x, bool) or isinstance(x, T) and x.sort == 'B':
                return True
        elif n in ('str', 'list', 'tuple', 'dict', 'set'):
            if isinstance(x, {'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set}[n]):
                return True
        elif isinstance(t, (Unmodelled, Namespace, A.DT)):
            continue
        elif isinstance(t, type) and isinstance(x, t):
            return True
    return False


def b_hasattr(o, a):
    if isinstance(o, SArr):
        return any(a in c.__dict__ for c in SArr.__mro__) or a in ('__len__',)
    if isinstance(o, Func):
        return a in ('__call__', '__name__')
    return hasattr(o, a)


def b_getattr(o, a, *d):
    try:
        return A.CUR.getattr(o, a)
    except PyRaise:
        if d:
            return d[0]
        raise


def b_enumerate(x, start=0):
    s = A.CUR.sequence(x)
    if s is not None:
        return EnumZip(s[0], lambda k: (tm.unlit(tm.add(k, start)), s[1](k)))
    return list(enumerate(list(x), start))


def b_zip(*xs):
    ss = [A.CUR.sequence(x) for x in xs]
    if any(s is not None for s in ss):
        if not all(s is not None for s in ss) or not all(A.deq(tm.unlit(lit(s[0])), tm.unlit(lit(ss[0][0]))) for s in ss):
            raise Unsupported('zip of unrelated lengths')
        return EnumZip(ss[0][0], lambda k: tuple(s[1](k) for s in ss))
    return list(zip(*[list(x) for x in xs]))


def b_sum(xs, start=0):
    if isinstance(xs, SArr):
        return A.reduce_sum(xs, 0)
    r = start
    for x in list(xs):
        r = A.CUR.binop('Add', r, x)
    return r


def b_all(xs):
    if isinstance(xs, SArr):
        return A.reduce_all(xs)
    return tm.unlit(tm.and_(TRUE, *[tm.tob(x) for x in xs]))


def b_any(xs):
    if isinstance(xs, SArr):
        return A.reduce_any(xs)
    return tm.unlit(tm.or_(FALSE, *[tm.tob(x) for x in xs]))


def b_list(x=()):
    if isinstance(x, SymRange):
        return x.toarr()
    return list(x)


class PyType:
    def __init__(self, name, f):
        self.pyname, self.f = name, f
        if name == 'dict':
            self.fromkeys = dict.fromkeys

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __hash__(self):
        return hash(self.pyname)

    def __eq__(self, o):
        return isinstance(o, PyType) and o.pyname == self.pyname


def b_str(x=''):
    if isinstance(x, A.DT):
        return x.name
    if isinstance(x, (T, SArr, Opaque)):
        raise Unsupported('text of a value')
    return str(x)


def b_round(x, n=None):
    raise Unsupported('round')


def b_sorted(x, **k):
    xs = list(x)
    if all(isinstance(e, (int, str)) for e in xs):
        return sorted(xs, **k)
    raise Unsupported('sorted')


BUILTINS = {'range': b_range, 'len': b_len, 'abs': b_abs, 'max': _fold(tm.max_), 'min': _fold(tm.min_),
            'int': PyType('int', b_int), 'float': PyType('float', b_float), 'bool': PyType('bool', b_bool),
            'complex': PyType('complex', lambda a=0, b=0: tm.add(lit(a), tm.mul(lit(b), tm.IU))),
            'str': PyType('str', b_str), 'list': PyType('list', b_list), 'tuple': PyType('tuple', lambda x=(): tuple(b_list(x))),
            'dict': PyType('dict', dict), 'set': PyType('set', set), 'object': PyType('object', None),
            'isinstance': b_isinstance, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': lambda o, a, v: A.CUR.setattr(o, a, v), 'enumerate': b_enumerate, 'zip': b_zip,
            'sum': b_sum, 'all': b_all, 'any': b_any, 'print': lambda *a, **k: None, 'locals': lambda: None,
            'sorted': b_sorted, 'reversed': lambda x: list(x)[::-1], 'round': b_round, 'slice': slice,
            'callable': lambda x: callable(x), 'True': True, 'False': False, 'None': None,
            'id': id, 'repr': repr, 'type': lambda x: type(x), 'map': lambda f, *x: [A.CUR.call(f, list(a), {}) for a in zip(*x)],
            'Ellipsis': Ellipsis}


# ------------------------------------------------------------------ inductive loops
class LoopState:
    def __init__(self, I, fr, st, n, elem, carriers, arrs, after1, env0, pre, spec):
        self.I, self.fr, self.st, self.n, self.elem = I, fr, st, n, elem
        self.carriers, self.arrs, self.after1, self.env0, self.pre, self.spec = carriers, arrs, after1, env0, pre, spec

    def solve(self, touched):
        I, fr = self.I, self.fr
        from .prover import Prover, PROVED
        k = tm.fresh('n', 'I')        # iterations done so far, 1 <= k < n
        # candidates: name -> list of functions V(k) (k iterations done)
        cand = {}
        for c in self.carriers:
            v = self.after1[c]
            cand[c] = list(self.spec.scalar(I, c, v, self, self.env0.get(c)) if not isinstance(v, SArr)
                           else self.spec.array(I, c, v, self))
            if isinstance(v, (Func, str, type(None), dict, list, tuple, bool)) or callable(v):
                cand[c] = [lambda kk, v=v: v]
        acand = {}
        # frozen content after one iteration
        A1 = {}
        for b, name in self.arrs.items():
            A1[b] = I.freeze(SArr(b))
        changed = set(touched)
        obls0 = len(I.obls)
        # base check
        def same(x, y, unfold=True):
            pr = Prover(I.ctx, unfold=self.spec.unfold)
            if isinstance(x, SArr) and isinstance(y, SArr):
                if x.ndim != y.ndim or not all(A.deq(p, q) for p, q in zip(x._shape, y._shape)):
                    return False
                vs = [tm.fresh('x', 'I') for _ in x._shape]
                I.ctx.push()
                I.gen_vars.append(vs)
                try:
                    for v, d in zip(vs, x._shape):
                        I.ctx.add(tm.le(0, v))
                        I.ctx.add(tm.lt(v, lit(d)))
                    return pr.equal(x.at(*vs), y.at(*vs)) == PROVED
                finally:
                    I.gen_vars.pop()
                    I.ctx.pop()
            if isinstance(x, (T, int)) and isinstance(y, (T, int)) and not isinstance(x, bool):
                return pr.equal(lit(x), lit(y)) == PROVED
            return x is y or (type(x) is type(y) and not isinstance(x, (SArr, T)) and x == y)

        for c in list(cand):
            cand[c] = [f for f in cand[c] if self.tryv(lambda: same(f(lit(1)), self.after1[c]))]
            if DEBUG:
                print('BASE', c, len(cand[c]), self.after1[c] if not isinstance(self.after1[c], T) else tm.show(self.after1[c]), [tm.show(q) for q in I.path])
        base_stores = {b: list(b.stores) for b in self.arrs}
        for rnd in range(40):
            choice = {c: (fs[0] if fs else None) for c, fs in cand.items()}
            for b in changed:
                if b in self.arrs and b not in acand:
                    fs = list(self.spec.array(I, self.arrs[b], SArr(b), self, pre=self.pre.get(self.arrs[b])))
                    acand[b] = [f for f in fs if self.tryv(lambda: same(f(lit(1)), A1[b]))]
            achoice = {b: (fs[0] if fs else None) for b, fs in acand.items()}
            # havoc
            snap_env = dict(self.after1)
            fr.env.clear()
            fr.env.update(snap_env)
            I.ctx.push()
            nd = len(I.obls)
            j0 = len(I.journal)
            bad = None
            try:
                I.ctx.add(tm.le(1, k))
                I.ctx.add(tm.lt(k, self.n))
                for c, f in choice.items():
                    fr.env[c] = f(k) if f is not None else Opaque('loop variable %s without invariant' % c)
                for b, f in achoice.items():
                    self.setcontent(b, f(k) if f is not None else None)
                # the generic iteration may fork: nested exploration with guards is
                # avoided by requiring decisions to be settled (fork = case analysis on k)
                res = self.generic_iter(k, changed)
                newly, final = res
                if newly - set(acand):
                    changed |= newly
                    bad = 'more arrays'
                else:
                    for (facts, env, conts) in final:
                        I.ctx.push()
                        for f in facts:
                            I.ctx.add(f)
                        k1 = tm.add(k, 1)
                        for c, f in choice.items():
                            if f is None:
                                continue
                            if not self.tryv(lambda: same(env[c], f(k1))):
                                if DEBUG:
                                    print('DROP', c, cand[c].index(f), len(cand[c]), 'got', tm.show(env[c])[:300] if isinstance(env[c], T) else env[c], 'want', tm.show(f(k1))[:300] if isinstance(f(k1), T) else '', [tm.show(q) for q in facts][-6:])
                                cand[c] = [g for g in cand[c] if g is not f]
                                bad = c
                        for b, f in achoice.items():
                            if f is None:
                                continue
                            if not self.tryv(lambda: same(conts[b], f(k1))):
                                if DEBUG:
                                    print('DROPA', self.arrs[b], [id(q) for q in acand[b]].index(id(f)), len(acand[b]))
                                acand[b] = [g for g in acand[b] if g is not f]
                                bad = self.arrs[b]
                        I.ctx.pop()
                        if bad:
                            break
            finally:
                I.ctx.pop()
                for b in self.arrs:
                    b.stores = list(base_stores[b])
                    if hasattr(b, '_override'):
                        del b._override
                if bad:
                    del I.obls[nd:]
                    del I.journal[j0:]
            if bad:
                continue
            # inductive: final state after n iterations
            I.obls.append(Obligation('loop invariant of %s holds initially and is preserved' % fr.name, 'proved',
                                     'invariant for: %s' % ', '.join(sorted([c for c, f in choice.items() if f is not None] +
                                                                            [self.arrs[b] for b, f in achoice.items() if f is not None])),
                                     'induction+nf'))
            fr.env.clear()
            fr.env.update(snap_env)
            for c, f in choice.items():
                fr.env[c] = f(self.n) if f is not None else Opaque('loop variable %s without invariant' % c)
            for b, f in achoice.items():
                self.setcontent(b, f(self.n) if f is not None else None)
            last = tm.add(self.n, -1)
            I.assign(self.st.target, self.elem(last), fr)
            return
        raise Unsupported('no inductive invariant found for the loop in %s' % fr.name)

    def tryv(self, f):
        try:
            return f()
        except (Unsupported, IndexError, ValueError):
            return False

    def setcontent(self, b, a):
        """replace the content of base b by that of array a (or an unknown)"""
        nm = 'havoc%d' % next(A._birth)
        vs = [tm.fresh('s', 'I') for _ in b.shape]
        I = self.I
        I.ctx.push()
        I.gen_vars.append(vs)
        try:
            for v, d in zip(vs, b.shape):
                I.ctx.add(tm.le(0, v))
                I.ctx.add(tm.lt(v, lit(d)))
            val = a.at(*vs) if a is not None else tm.fn(nm, *vs, sort={'f': 'R', 'c': 'C', 'i': 'I'}.get(b.dtype.kind, 'C'))
        finally:
            I.gen_vars.pop()
            I.ctx.pop()
        b.stores.append(A.Store(tuple((v, lit(0), lit(d)) for v, d in zip(vs, b.shape)), tuple(vs), val, TRUE))

    def generic_iter(self, k, changed):
        """Execute the body once for iteration number k (0-based); forks on the
        path are explored here, locally."""
        I, fr = self.I, self.fr
        results = []
        newly = set()
        env_start = dict(fr.env)
        stores_start = {b: list(b.stores) for b in self.arrs}
        for x in env_start.values():
            if isinstance(x, SArr):
                stores_start[x.base] = list(x.base.stores)
        stack = [[]]
        while stack:
            dec = stack.pop()
            fr.env.clear()
            fr.env.update(env_start)
            for b in stores_start:
                b.stores = list(stores_start[b])
            j0 = len(I.journal)
            # local fork control
            save_dec, save_decisions, save_path = I.dec, I.decisions, I.path
            I.dec, I.decisions = dec, []
            I.path = list(save_path)
            I.ctx.push()
            nf = len(I.ctx.facts)
            inf = False
            try:
                I.assign(self.st.target, self.elem(k), fr)
                try:
                    I.exec_block(self.st.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise Unsupported('break in a symbolic loop')
                facts = [f for f in I.ctx.facts[nf:] if f is not None]
                env = {q: (I.freeze(x) if isinstance(x, SArr) else x) for q, x in fr.env.items()}
                newly |= {b for b, s in I.journal[j0:] if b in self.arrs}
                conts = {b: I.freeze(SArr(b)) for b in self.arrs}
                results.append((facts, env, conts))
            except Infeasible:
                pass
            finally:
                I.ctx.pop()
                for i in range(len(I.decisions)-1, len(dec)-1, -1):
                    if I.decisions[i][1]:
                        stack.append([d[0] for d in I.decisions[:i]] + [not I.decisions[i][0]])
                I.dec, I.decisions, I.path = save_dec, save_decisions, save_path
        return newly, results
