"""Discharging obligations.

 * integer / boolean / linear-real conditions: z3 (cvc5 as a second opinion on
   demand), see Ctx;
 * equalities between numbers: case split over the conditions, then the exact
   normal form of rational functions over atoms (field axioms, exp as a
   homomorphism, sqrt(x)^2 = x, sin^2 + cos^2 = 1, i^2 = -1), see `equal`.
"""
import time
from fractions import Fraction as Fr
import z3
from . import terms as tm
from .terms import T, lit, as_int, children, TRUE, FALSE, IU, INF, PI

STATS = {'z3_queries': 0, 'z3_s': 0.0, 'nf_s': 0.0, 'nf_eq': 0, 'splits': 0}
PROVED, REFUTED, UNKNOWN = 'proved', 'refuted', 'unknown'


class Z3Map:
    def __init__(self):
        self.m = {}
        self.side = []
        self.quants = []      # (all-term, its z3 boolean, [(name, position, offset)])
        self.idx = {}         # (name, position) -> [index terms]
        self.visited = set()
        self.level = 0        # nesting of instantiation

    # Quantified facts  all v in lo..hi: body  are kept as a boolean with instances:
    # true => body at every index at which one of its functions occurs, false => a witness.
    def patterns(self, q):
        v, pats, seen = q.args[0], [], set()

        def walk(t):
            if t.id in seen or v not in tm.fv(t):
                return
            seen.add(t.id)
            if t.op == 'f':
                for k, a in enumerate(t.args[1:]):
                    if isinstance(a, T) and a.sort == 'I' and v in tm.fv(a):
                        off = tm.add(a, tm.neg(v))
                        if v not in tm.fv(off):
                            pats.append((t.args[0], k, off))
            for c in children(t):
                walk(c)
        walk(q.args[3])
        return pats

    def quant(self, q):
        b = z3.Bool('b%d' % q.id)
        self.m[q] = b
        v, lo, hi, body = q.args
        sk = tm.sym('sk%d' % q.id, 'I')
        self.level += 1
        try:
            self.side.append(z3.Or(b, z3.And(self.bool(tm.le(lo, sk)), self.bool(tm.lt(sk, hi)), z3.Not(self.bool(tm.subst(body, {v: sk}))))))
        finally:
            self.level -= 1
        pats = self.patterns(q)
        self.quants.append((q, b, pats, []))
        for name, k, off in pats:
            for i in list(self.idx.get((name, k), ())):
                self.instance(q, b, self.quants[-1][3], tm.add(i, tm.neg(off)))
        return b

    def instance(self, q, b, done, k):
        k = lit(k)
        if any(k is x for x in done) or len(done) > 60:
            return
        done.append(k)
        v, lo, hi, body = q.args
        self.level += 1
        try:
            self.side.append(z3.Or(z3.Not(b), z3.Not(self.bool(tm.le(lo, k))), z3.Not(self.bool(tm.lt(k, hi))), self.bool(tm.subst(body, {v: k}))))
        finally:
            self.level -= 1

    def saw(self, t):
        if self.level > 3 or t.id in self.visited:
            return
        self.visited.add(t.id)
        for c in children(t):
            self.visit(c)
        if t.op != 'f':
            return
        for k, a in enumerate(t.args[1:]):
            if isinstance(a, T) and a.sort == 'I':
                l = self.idx.setdefault((t.args[0], k), [])
                if any(a is x for x in l):
                    continue
                l.append(a)
                for q, b, pats, done in list(self.quants):
                    for name, p, off in pats:
                        if name == t.args[0] and p == k:
                            self.instance(q, b, done, tm.add(a, tm.neg(off)))

    def visit(self, t):
        if t.op in ('c', 'v', 'pi', 'IU', 'INF'):
            return
        if t.op in ('f', '+', '*', 'ite'):
            self.saw(t)

    def num(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'c':
            v = t.args[0]
            r = z3.IntVal(int(v)) if t.sort == 'I' else z3.RealVal(str(v))
        elif op == '+':
            a = t.args
            isint = t.sort == 'I'
            r = z3.IntVal(int(a[0])) if isint and a[0].denominator == 1 else z3.RealVal(str(a[0]))
            for i in range(1, len(a), 2):
                x = self.num(a[i])
                k = a[i+1]
                if isint and k.denominator == 1:
                    x = x if k == 1 else z3.IntVal(int(k))*x
                else:
                    if z3.is_int(x):
                        x = z3.ToReal(x)
                    x = x if k == 1 else z3.RealVal(str(k))*x
                if z3.is_int(r) and not z3.is_int(x):
                    r = z3.ToReal(r)
                r = r + x
        elif op == '*' and t.sort in 'IR' and all(t.args[i+1] in (1, 2) for i in range(0, len(t.args), 2)) and (len(t.args) > 2 or t.args[1] == 2):
            r = None
            for i in range(0, len(t.args), 2):
                x = self.num(t.args[i])
                if t.sort == 'R' and z3.is_int(x):
                    x = z3.ToReal(x)
                for _ in range(int(t.args[i+1])):
                    r = x if r is None else r*x
        elif op == 'ite' and t.sort in 'IR':
            x, y = self.num(t.args[1]), self.num(t.args[2])
            if z3.is_int(x) != z3.is_int(y):
                x = z3.ToReal(x) if z3.is_int(x) else x
                y = z3.ToReal(y) if z3.is_int(y) else y
            r = z3.If(self.bool(t.args[0]), x, y)
        elif op == 'f' and t.args[0] == 'floordiv' and t.sort == 'I' and as_int(t.args[2]) and as_int(t.args[2]) > 0:
            r = self.num(t.args[1]) / self.num(t.args[2])
        elif op == 'f' and t.args[0] == 'mod' and t.sort == 'I' and as_int(t.args[2]) and as_int(t.args[2]) > 0:
            r = self.num(t.args[1]) % self.num(t.args[2])
        elif op == 'pi':
            r = z3.Real('pi')
            self.side.append(z3.And(r > z3.RealVal('3.14159'), r < z3.RealVal('3.1416')))
        else:
            name = 't%d' % t.id
            if op == 'v':
                name = t.args[0]
            r = z3.Int(name) if t.sort == 'I' else z3.Real(name)
            if op == '*' and t.sort == 'R' and len(t.args) == 2 and t.args[1] == -1 and t.args[0].sort in 'IR':
                x = self.num(t.args[0])
                self.side.append(z3.And(z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)))
            if op == 'f':
                if t.args[0] in ('abs',) or (t.args[0] == 'sqrt' and t.sort == 'R'):
                    self.side.append(r >= 0)
                if t.args[0] == 'exp' and t.sort == 'R':
                    self.side.append(r > 0)
                if t.args[0] in ('ceil', 'trunc') and t.sort == 'I' and t.args[1].sort == 'R':
                    x = self.num(t.args[1])
                    y = z3.ToReal(r)
                    self.side.append(z3.And(x <= y, y < x+1) if t.args[0] == 'ceil' else
                                     z3.And(z3.Implies(x >= 0, z3.And(y <= x, x < y+1, y >= 0)), z3.Implies(x <= 0, z3.And(x <= y, y < x+1, y <= 0))))
                if t.args[0] in ('sin', 'cos') and t.sort == 'R':
                    self.side.append(z3.And(r >= -1, r <= 1))
                self.m[t] = r
                self.saw(t)
        self.m[t] = r
        return r

    def bool(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'not':
            r = z3.Not(self.bool(t.args[0]))
        elif op == 'and':
            r = z3.And(*[self.bool(a) for a in t.args])
        elif op == '<=0':
            r = self.num(t.args[0]) <= 0
        elif op == '==0' and t.args[0].sort in 'IR':
            r = self.num(t.args[0]) == 0
        elif op == 'all' and t.args[0].sort == 'I':
            return self.quant(t)
        else:
            r = z3.Bool('b%d' % t.id)
        self.m[t] = r
        return r


class Ctx:
    """A set of hypotheses with z3 behind it."""

    def __init__(self, timeout=3000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.map = Z3Map()
        self.facts = []
        self.cache = [{}]
        self.nside = 0

    def _side(self):
        while self.nside < len(self.map.side):
            self.s.add(self.map.side[self.nside])
            self.nside += 1

    def push(self):
        self.s.push()
        self.facts.append(None)
        self.cache.append({})
        self._mark = None
        self._stk = getattr(self, '_stk', [])
        self._stk.append(self.nside)

    def pop(self):
        self.s.pop()
        while self.facts.pop() is not None:
            pass
        self.cache.pop()
        self.nside = self._stk.pop()

    def add(self, t):
        t = tm.tob(t)
        if t is TRUE:
            return
        self.facts.append(t)
        e = self.map.bool(t)
        self._side()
        self.s.add(e)
        # a universal fact holds at both ends of its range
        for q in (t.args if t.op == 'and' else (t,)):
            if q.op == 'all':
                v, lo, hi, body = q.args
                for k in (lo, tm.add(hi, -1)):
                    b = self.map.bool(tm.implies(tm.lt(lo, hi), tm.subst(body, {v: k})))
                    self._side()
                    self.s.add(b)
        self.cache[-1] = {}

    def sat(self, *extra):
        """None unknown / True / False."""
        t0 = time.time()
        self.s.push()
        for t in extra:
            e = self.map.bool(tm.tob(t))
            self.s.add(e)
        n = self.nside
        while n < len(self.map.side):
            self.s.add(self.map.side[n])
            n += 1
        r = self.s.check()
        STATS['z3_queries'] += 1
        STATS['z3_s'] += time.time()-t0
        self.last_model = self.s.model() if r == z3.sat else None
        self.s.pop()
        return True if r == z3.sat else False if r == z3.unsat else None

    def entails(self, c):
        c = tm.tob(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return self.sat() is False
        for d in self.cache:
            if c in d:
                return d[c]
        r = self.sat(tm.not_(c)) is False
        if not r:
            ex = self.products(c)
            if ex:
                r = self.sat(tm.not_(c), *ex) is False
        self.cache[-1][c] = r
        return r

    def products(self, c):
        """(n-1-v)*y >= 0 for integer products v*y in c with v < n and y >= 0 among the facts"""
        if c.op == 'not':
            c = c.args[0]
        if c.op not in ('<=0', '==0') or c.args[0].op != '+':
            return []
        out = []
        for m in c.args[0].args[1::2]:
            if m.op != '*' or m.sort != 'I' or len(m.args) != 4 or m.args[1] != 1 or m.args[3] != 1:
                continue
            for v, y in ((m.args[0], m.args[2]), (m.args[2], m.args[0])):
                if v.op != 'v':
                    continue
                if not out and self.entails(tm.le(0, v)) and self.entails(tm.le(0, y)):
                    out.append(tm.le(0, m))
                for f in self.facts:
                    g = f if f is not None and f.op == '<=0' and f.args[0].op == '+' else None
                    # facts of the form 1 + v - n <= 0
                    if g is not None and any(a is v and k == 1 for a, k in zip(g.args[0].args[1::2], g.args[0].args[2::2])):
                        if self.entails(tm.le(0, y)):
                            out.append(tm.le(0, tm.mul(y, tm.neg(g.args[0]))))
        return out

    def decide(self, c):
        """True/False if the hypotheses settle c, else None."""
        c = tm.tob(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.entails(c):
            return True
        if self.entails(tm.not_(c)):
            return False
        return None


# --------------------------------------------------------------------------
# Rational functions over atoms.  poly: {mono: Fr}; mono: tuple of
# (atom_id, exponent) sorted; exponents Fr for exp-atoms, int otherwise.

class NFError(Exception):
    pass


def _q(c):
    """exact coefficient: int where possible"""
    if isinstance(c, int):
        return c
    return c.numerator if c.denominator == 1 else c


MAXTERMS = 20000


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k*c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class NF:
    """Normaliser relative to an atom table (one per equality proof)."""

    def __init__(self, ctx, prover):
        self.ctx = ctx
        self.prover = prover
        self.atom = {}       # key -> id
        self.fvs = {}
        self.info = {}       # id -> ('exp', ) etc
        self.memo = {}
        self.polys = {}      # frozen poly -> id
        self.polyl = []
        self.I = self.aid(('I',))
        self.sq = {}         # atom id of sqrt -> (num, den)
        self.cos = {}        # cos atom id -> sin atom id
        self.merge = False
        self.heads = {}

    def aid(self, key, fvs=()):
        i = self.atom.get(key)
        if i is None:
            i = len(self.info)
            self.atom[key] = i
            self.info[i] = key
            self.fvs[i] = fvs
        return i

    # poly operations with I^2 = -1
    def mul(self, a, b):
        if len(a)*len(b) > 400000:
            raise NFError('too large')
        if self.prover.deadline and time.time() > self.prover.deadline:
            raise NFError('time limit')
        r = {}
        I = self.I
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m_mul(m1, m2)
                c = c1*c2
                if m and m[0][0] == I:
                    e = m[0][1] % 4
                    m = m[1:]
                    if e == 1:
                        m = ((I, 1),)+m
                    elif e == 2:
                        c = -c
                    elif e == 3:
                        c = -c
                        m = ((I, 1),)+m
                v = r.get(m, 0)+c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > MAXTERMS:
            raise NFError('too large')
        return r

    def pid(self, p):
        k = frozenset(p.items())
        i = self.polys.get(k)
        if i is None:
            i = len(self.polyl)
            self.polys[k] = i
            self.polyl.append(p)
        return i

    # rational: (num, {pid: exp})
    def radd(self, a, b, k=1):
        if not a[1] and not b[1]:
            return (p_add(a[0], b[0], k), {})
        den = dict(a[1])
        for i, e in b[1].items():
            den[i] = max(den.get(i, 0), e)
        na, nb = a[0], b[0]
        for i, e in den.items():
            for _ in range(e - a[1].get(i, 0)):
                na = self.mul(na, self.polyl[i])
            for _ in range(e - b[1].get(i, 0)):
                nb = self.mul(nb, self.polyl[i])
        n = p_add(na, nb, k)
        return (n, den if n else {})

    def rmul(self, a, b):
        den = dict(a[1])
        for i, e in b[1].items():
            den[i] = den.get(i, 0)+e
        # cancel: numerator equal to a denominator factor
        na, nb = dict(a[0]), dict(b[0])
        out = []
        for p in (na, nb):
            if len(p) > 1:
                i = self.polys.get(frozenset(p.items()))
                if i is not None and den.get(i, 0) > 0:
                    den[i] -= 1
                    if not den[i]:
                        del den[i]
                    p = {(): 1}
            out.append(p)
        n = self.mul(*out)
        return (n, den if n else {})

    def rinv(self, a):
        n, d = a
        if not n:
            raise NFError('division by zero')
        num = {(): 1}
        for i, e in d.items():
            for _ in range(e):
                num = self.mul(num, self.polyl[i])
        if len(n) == 1:
            (m, c), = n.items()
            mi = tuple((x, -e) for x, e in m)
            c = _q(Fr(1)/c)
            if mi and mi[0][0] == self.I:   # 1/i = -i
                mi = ((self.I, 1),)+mi[1:]
                c = -c
            return (self.mul(num, {mi: c}), {})
        # normalise the denominator: primitive leading monomial
        mono = self.common(n)
        if mono:
            mi = tuple((x, -e) for x, e in mono)
            n = self.mul(n, {mi: 1})
            num = self.mul(num, {mi: 1})
        lead = n[min(n)]
        n = {m: _q(Fr(c)/lead) for m, c in n.items()}
        num = {m: _q(Fr(c)/lead) for m, c in num.items()}
        return (num, {self.pid(n): 1})

    def common(self, n):
        """Monomial with the least exponent of each atom (so the quotient is a polynomial)."""
        it = iter(n)
        d = dict(next(it))
        for m in it:
            md = dict(m)
            for a in list(d):
                e = md.get(a, 0)
                if e < d[a]:
                    d[a] = e
            for a, e in md.items():
                if a not in d and e < 0:
                    d[a] = e
        d.pop(self.I, None)
        return tuple(sorted((a, e) for a, e in d.items() if e))

    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            self.memo[t] = r
        return r

    # factored form: [coef, {atom: exp}, {pid: exp}] or None for zero
    def fact(self, t):
        if t.op == '*':
            c, mono, pids = 1, {}, {}
            a = t.args
            for i in range(0, len(a), 2):
                x = self.fact(a[i])
                if x is None:
                    if a[i+1] < 0:
                        raise NFError('division by zero')
                    return None
                e = int(a[i+1])
                c = c*(x[0]**e if e >= 0 else Fr(1)/Fr(x[0])**-e)
                for k, v in x[1].items():
                    mono[k] = mono.get(k, 0)+e*v
                for k, v in x[2].items():
                    pids[k] = pids.get(k, 0)+e*v
            return [c, mono, pids]
        if t.op == '+' and not t.args[0] and len(t.args) == 3:
            x = self.fact(t.args[1])
            return x and [x[0]*t.args[2], x[1], x[2]]
        if t.op == 'ite':
            d = self.ctx.decide(t.args[0])
            if d is not None:
                return self.fact(t.args[1] if d else t.args[2])
        n, d = self.nf(t)
        if not n:
            return None
        pids = {k: -e for k, e in d.items()}
        if len(n) == 1:
            (m, c), = n.items()
            return [c, dict(m), pids]
        m = self.common(n)
        if m:
            n = self.mul(n, {tuple((x, -e) for x, e in m): 1})
        lead = n[min(n)]
        n = {k: _q(Fr(c)/lead) for k, c in n.items()}
        i = self.pid(n)
        pids[i] = pids.get(i, 0)+1
        return [lead, dict(m), pids]

    def same(self, a, b):
        x, y = self.fact(a), self.fact(b)
        if x is None and y is None:
            return True
        if x is None or y is None:
            z = y or x
            n = {(): 1}
            for i, e in z[2].items():
                for _ in range(e):
                    n = self.mul(n, self.polyl[i])
            return not self.reduce(n)
        polys = [{(): x[0]}, {(): y[0]}]
        monos = [{}, {}]
        for k in set(x[1]) | set(y[1]):
            e = x[1].get(k, 0)-y[1].get(k, 0)
            if k == self.I:
                e %= 4
            if e:
                monos[0 if e > 0 else 1][k] = abs(e)
        work = []
        for k in set(x[2]) | set(y[2]):
            e = x[2].get(k, 0)-y[2].get(k, 0)
            if e:
                work.append((k, e))
        for j in (0, 1):
            p = self.mul(polys[j], {tuple(sorted(monos[j].items())): 1})
            for k, e in sorted(work, key=lambda q: len(self.polyl[q[0]])):
                if (e > 0) == (j == 0):
                    for _ in range(abs(e)):
                        p = self.mul(p, self.polyl[k])
            polys[j] = p
        n = p_add(polys[0], polys[1], -1)
        return not n or not self.reduce(n)

    def rkey(self, r):
        return (frozenset(r[0].items()), frozenset(r[1].items()))

    def _nf(self, t):
        op = t.op
        if op == 'c':
            return ({(): _q(t.args[0])} if t.args[0] else {}, {})
        if op == 'IU':
            return ({((self.I, 1),): 1}, {})
        if op in ('pi', 'v', 'INF'):
            return ({((self.aid((op, t), tm.fv(t)), 1),): 1}, {})
        if op == '+':
            a = t.args
            r = ({(): _q(a[0])} if a[0] else {}, {})
            for i in range(1, len(a), 2):
                n, d = self.nf(a[i])
                r = self.radd(r, (n, d), _q(a[i+1]))
            return r
        if op == '*':
            a = t.args
            r = ({(): 1}, {})
            for i in range(0, len(a), 2):
                x = self.nf(a[i])
                e = a[i+1]
                if e < 0:
                    x = self.rinv(x)
                    e = -e
                for _ in range(int(e)):
                    r = self.rmul(r, x)
            return r
        if op == 'ite':
            d = self.ctx.decide(t.args[0])
            if d is not None:
                return self.nf(t.args[1] if d else t.args[2])
            return ({((self.aid(('ite', t), tm.fv(t)), 1),): 1}, {})
        if op == 'sum':
            return self.nf_sum(t)
        if op == 'f':
            name = t.args[0]
            if name == 'exp':
                return self.nf_exp(t)
            args = t.args[1:]
            if name == 'sqrt':
                r = self.nf(args[0])
                if not r[0]:
                    return ({}, {})
                # a perfect square monomial is not simplified (sign choice)
                i = self.funatom(name, args, t)
                self.sq[i] = r
                return ({((i, 1),): 1}, {})
            if name in ('sin', 'cos'):
                r = self.nf(args[0])
                if not r[0]:
                    return ({}, {}) if name == 'sin' else ({(): 1}, {})
                # parity
                lead = r[0][min(r[0])]
                sgn = 1
                a0 = args[0]
                if lead < 0:
                    a0 = tm.neg(a0)
                    sgn = -1 if name == 'sin' else 1
                i = self.funatom(name, (a0,), None)
                if name == 'cos':
                    self.cos[i] = self.funatom('sin', (a0,), None)
                return ({((i, 1),): sgn}, {})
            i = self.funatom(name, args, t)
            return ({((i, 1),): 1}, {})
        if t.sort == 'B':
            return self.nf(tm.ite(t, lit(1), lit(0)))
        raise NFError('no normal form for %s' % op)

    def nf_sum(self, t):
        """Linear in the body: additive parts split, factors free of the variable pulled out.
        Bound variables are canonical (named by nesting depth at construction)."""
        var, lo, hi, body = t.args
        n, d = self.nf(body)

        def depends(i):
            return var in self.fvs.get(i, ())
        ddep = {i: e for i, e in d.items() if any(depends(a) for m in self.polyl[i] for a, _ in m)}
        dind = {i: e for i, e in d.items() if i not in ddep}
        out = {}
        fvs = tm.fv(t)
        for m, c in n.items():
            out_m = tuple((a, e) for a, e in m if not depends(a))
            in_m = tuple((a, e) for a, e in m if depends(a))
            if not in_m and not ddep:
                cnt = self.nf(tm.add(hi, tm.neg(lo)))
                if cnt[1]:
                    raise NFError('sum range')
                prod = self.mul({out_m: c}, cnt[0])
            else:
                i = self.aid(('sum', var, self.nfkey(lo), self.nfkey(hi), in_m,
                              frozenset(ddep.items())), fvs)
                prod = self.mul({out_m: c}, {((i, 1),): 1})
            out = p_add(out, prod)
        return (out, dind if out else {})

    def nfkey(self, t):
        return self.rkey(self.nf(t))

    rep = None

    def funatom(self, name, args, t):
        if self.rep is None:
            self.rep = {}
        keys = []
        for a in args:
            if isinstance(a, T):
                if a.sort == 'B':
                    keys.append(('b', a))
                else:
                    keys.append(self.rkey(self.nf(a)))
            else:
                keys.append(a)
        key = ('f', name, tuple(keys))
        known = key in self.atom
        if not known and self.merge:
            for (oargs, oi) in self.heads.get((name, len(args)), []):
                if self.prover.args_equal(self, args, oargs):
                    self.atom[key] = oi
                    return oi
        fvs = frozenset().union(*[tm.fv(a) for a in args if isinstance(a, T)])
        i = self.aid(key, fvs)
        if not known:
            self.heads.setdefault((name, len(args)), []).append((args, i))
            self.rep[i] = t if t is not None else tm.fn(name, *args, sort=args[0].sort)
        return i

    def nf_exp(self, t):
        n, d = self.nf(t.args[1])
        if self.rep is None:
            self.rep = {}
        inf = self.atom.get(('INF', INF))
        m_out = {}
        for m, c in n.items():
            if inf is not None and any(a == inf for a, _ in m):
                e = dict(m)[inf]
                if e == 1 and c < 0:
                    return ({}, {})      # exp(-Gamma*inf) = 0, Re(Gamma) > 0
                raise NFError('exp of +infinity')
            if not m:
                key = ('exp1', ('one',), frozenset(d.items()))
            else:
                key = ('exp1', m, frozenset(d.items()))
            i = self.aid(key, frozenset().union(*[self.fvs.get(a, ()) for a, _ in m], *[self.fvs.get(a, ()) for j in d for mm in self.polyl[j] for a, _ in mm]))
            m_out[i] = m_out.get(i, 0) + c
        mono = tuple(sorted((i, c) for i, c in m_out.items() if c))
        return ({mono: 1}, {})

    def reduce(self, n):
        """Use sqrt(x)^2 = x and cos^2 = 1 - sin^2 on a numerator; returns rational."""
        for _ in range(60):
            hit = None
            for m in n:
                for a, e in m:
                    if a in self.sq and (e >= 2 or e < 0):
                        hit = (a, 'sq')
                        break
                    if a in self.cos and (e >= 2):
                        hit = (a, 'cos')
                        break
                if hit:
                    break
            if not hit:
                return n
            a, kind = hit
            groups = {}
            for m, c in n.items():
                e = dict(m).get(a, 0)
                rest = tuple((x, k) for x, k in m if x != a)
                if kind == 'sq':
                    q, r = divmod(e, 2)
                else:
                    q, r = (divmod(e, 2) if e >= 0 else (0, e))
                mm = m_mul(rest, ((a, r),)) if r else rest
                g = groups.setdefault(q, {})
                g[mm] = g.get(mm, 0)+c
            if kind == 'sq':
                base = self.sq[a]
            else:
                s = self.cos[a]
                base = ({(): 1, ((s, 2),): -1}, {})
            tot = ({}, {})
            for q, g in groups.items():
                x = (g, {})
                b = base if q >= 0 else self.rinv(base)
                for _ in range(abs(q)):
                    x = self.rmul(x, b)
                tot = self.radd(tot, x)
            n = tot[0]
        return n


RANK = {'R+': 5, 'R-': 5}


def rank(t):
    return RANK.get(t.args[0], 0)


class Prover:
    """equal(a, b) under the hypotheses of a Ctx."""

    def __init__(self, ctx, unfold=None, maxsplit=4000, deadline=None):
        self.ctx = ctx
        self.unfold = unfold           # callable(term)-> term or None (one-step unfolding of a spec atom)
        self.maxsplit = maxsplit
        self.deadline = deadline
        self.nsplit = 0
        self.fail = None

    def args_equal(self, nf, a, b):
        for x, y in zip(a, b):
            if isinstance(x, T) != isinstance(y, T):
                return False
            if not isinstance(x, T):
                if x != y:
                    return False
                continue
            if x is y:
                continue
            if x.sort == 'I' and y.sort == 'I':
                if not self.ctx.entails(tm.cmp_eq(x, y)):
                    return False
            elif x.sort == 'B' or y.sort == 'B':
                if not (x.sort == y.sort and self.ctx.entails(tm.cmp_eq(x, y))):
                    return False
            else:
                r = nf.radd(nf.nf(x), nf.nf(y), -1)
                if r[0] and nf.reduce(r[0]):
                    return False
        return True

    def equal(self, a, b):
        t0 = time.time()
        STATS['nf_eq'] += 1
        try:
            a, b = lit(a), lit(b)
            self.numwit = None
            if a is b:
                return PROVED
            if a.sort != 'B' and b.sort != 'B':
                from . import numev
                self.numwit = numev.quick(self.ctx, a, b, self.unfold)
                if self.numwit:
                    self.fail = 'differs in a model of the path condition'
                    return REFUTED
            return self._equal(a, b, 0)
        finally:
            STATS['nf_s'] += time.time()-t0

    def _simplify(self, t):
        """resolve ite conditions settled by the context"""
        for _ in range(200):
            cs = tm.ite_conds(t)
            ch = {}
            for c in cs:
                d = self.ctx.decide(c)
                if d is not None:
                    ch[c] = TRUE if d else FALSE
            if not ch:
                return t
            t2 = tm.subst(t, ch)
            if t2 is t:
                return t
            t = t2
        return t

    def _equal(self, a, b, depth):
        if self.deadline and time.time() > self.deadline:
            self.fail = 'time limit'
            return UNKNOWN
        if a is b:
            return PROVED
        if a.sort == 'B' or b.sort == 'B':
            return PROVED if self.ctx.entails(tm.cmp_eq(tm.tob(a), tm.tob(b))) else UNKNOWN
        a = self._simplify(a)
        b = self._simplify(b)
        if a is b:
            return PROVED
        conds = tm.ite_conds(a) | tm.ite_conds(b)
        if conds:
            # quick try: maybe equal without splitting
            # choose a condition without nested ite first
            cand = [c for c in conds if not tm.ite_conds(c)]
            cand = cand or list(conds)
            c = min(cand, key=lambda q: q.id)
            self.nsplit += 1
            STATS['splits'] += 1
            if self.nsplit > self.maxsplit:
                self.fail = 'too many cases'
                return UNKNOWN
            res = PROVED
            for v in (True, False):
                self.ctx.push()
                self.ctx.add(c if v else tm.not_(c))
                if self.ctx.sat() is False:
                    self.ctx.pop()
                    continue
                m = {c: TRUE if v else FALSE}
                tm.DIV0.append(1)
                try:
                    r = self._equal(tm.subst(a, m), tm.subst(b, m), depth+1)
                finally:
                    tm.DIV0.pop()
                self.ctx.pop()
                if r != PROVED:
                    res = r
                    break
            return res
        if a.sort == 'I' and b.sort == 'I':
            if self.ctx.entails(tm.cmp_eq(a, b)):
                return PROVED
        # boolean subterm splits exhausted; rational normal form
        for merge in (False, True):
            try:
                nf = NF(self.ctx, self)
                nf.rep = {}
                nf.merge = merge
                if nf.same(a, b):
                    return PROVED
            except NFError as e:
                self.fail = str(e)
                return UNKNOWN
            except RecursionError:
                self.fail = 'recursion'
                return UNKNOWN
        # unfold spec atoms occurring on one side only
        if self.unfold is not None and depth < getattr(self.unfold, 'depth', 60):
            aa, bb = tm.atoms_of(a), tm.atoms_of(b)
            used = getattr(self, '_used', frozenset())
            cand = sorted((t for t in aa ^ bb if t.op == 'f' and t not in used), key=lambda q: (getattr(self.unfold, 'rank', rank)(q), -q.id))
            best = None
            for t in cand:
                u = self.unfold(t, self.ctx)
                if u is None:
                    continue
                new = sum(1 for q in tm.atoms_of(u) if q.op == 'f' and q.args[0] == t.args[0] and q not in aa and q not in bb)
                k = (getattr(self.unfold, 'rank', rank)(t), new)
                if best is None or k < best[0]:
                    best = (k, t, u)
            if best is not None:
                _, t, u = best
                # definitional, hence no backtracking
                m = {t: u}
                self._used = used | {t}
                r = self._equal(tm.subst(a, m), tm.subst(b, m), depth+10)
                self._used = used
                return r
        self.fail = 'not an identity under the path condition'
        self.witness = (a, b, [f for f in self.ctx.facts if f is not None])
        return REFUTED if self.unfold is None else UNKNOWN
