"""Glue: the deprecated loop routine (C17) and the command line (C30)."""
from uspec import *  # noqa

ROUTINES = ('bipole', 'dipole', 'loop', 'analytical')
ARGS = ('src', 'rec', 'depth', 'res', 'freqtime')


class Token:
    """an arbitrary value, handed around but not looked at"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of an arbitrary value' % n)


def recorder(calls, out):
    def c(I, a):
        calls.append(a)
        return out
    return c


def same(v, what, got, want):
    """the same objects under the same names"""
    ok = set(got) == set(want) and all(got[k] is want[k] or (not isinstance(want[k], Token) and not isinstance(got[k], Token) and type(got[k]) is type(want[k]) and got[k] == want[k]) for k in want)
    v.fact(what, ok, 'got %r, expected %r' % (got, want))


def flat(a, kwname='kwargs'):
    a = dict(a)
    a.update(a.pop(kwname, {}))
    return a


OPTS = {'signal': None, 'aniso': None, 'epermH': None, 'epermV': None, 'mpermH': None, 'mpermV': None}


def unit_loop_same(given, conflict=()):
    """loop(...) is bipole(..., msrc='b', srcpts=1)"""
    def run(I):
        calls, out = [], Token('responses')
        I.contracts['model.bipole'] = recorder(calls, out)
        a = {k: Token(k) for k in ARGS}
        o = {k: Token(k) for k in given}
        o.update({k: Token(k) for k in conflict})
        r = I.call_body(I.module('model').loop, [a[k] for k in ARGS], dict(o))
        v = vf.V(I)
        if len(calls) != 1:
            raise Unsupported('%d calls of bipole' % len(calls))
        want = {**OPTS, 'mrec': True, 'recpts': 1, 'strength': 0, **a, **o, 'msrc': 'b', 'srcpts': 1}
        got = flat(calls[0])
        for k in list(got):
            if k not in want and k in BIP and got[k] == BIP[k]:
                got.pop(k)
        same(v, 'the general routine with a flux source and everything else as given', got, want)
        v.fact('its result', r is out, repr(r))
    return vf.verify('model.loop (given: %s)' % ', '.join(tuple(given)+tuple(conflict)), run, {}, {}, 20)


BIP = {}      # defaults of bipole not mentioned by loop


class Args:
    """argparse: the values of the named arguments, the choices enforced (assumed contract)"""

    def __init__(self, vals, seen):
        self.vals, self.seen = vals, seen
        self.description = ''

    def add_argument(self, name, **k):
        self.seen[name.lstrip('-')] = k

    def parse_args(self, args=None):
        if set(self.seen) != {'routine', 'input', 'output', 'report', 'version'}:
            raise Unsupported('other arguments')
        out = {}
        for n, k in self.seen.items():
            x = self.vals.get(n)
            if k.get('choices') is not None and x is not None and x not in k['choices']:
                raise SystemExit(2)
            out[n] = x if n in self.vals else k.get('default', False if k.get('action') == 'store_true' else None)
        return out


def unit_cli(routine, output, squeeze):
    """python -m empymod <routine> <input> [<output>]"""
    def run(I):
        calls, saved, out = [], [], Token('responses')
        for k in ROUTINES:
            I.contracts['model.'+k] = lambda I, a, k=k: (calls.append((k, a)), out)[1]
        D = {k: Token(k) for k in ARGS}
        D.update(verb=Token('verb'), xdirect=Token('xdirect'), aniso=Token('aniso'))
        if squeeze:
            D['squeeze'] = True
        loaded = []

        def load(I, a):
            loaded.append(a['fname'])
            return dict(D)
        I.contracts['io.load_input'] = load
        I.contracts['io.save_data'] = recorder(saved, None)
        vals = {'routine': routine, 'input': '<in>', 'report': False, 'version': False}
        if output:
            vals['output'] = '<out>'
        M = I.module('__main__')
        M._d['argparse'] = npshim.Namespace('argparse', {'ArgumentParser': lambda *a, **k: Args(vals, {})})
        M._d['vars'] = lambda x: x
        n0 = len(I.printed)
        try:
            r = I.call_body(M.main, [[routine, '<in>'] + (['<out>'] if output else [])], {})
        except SystemExit:
            r = 'exit'
        v = vf.V(I)
        v.fact('no error', r is None, repr(r))
        if len(calls) != 1:
            v.fact('the routine is called', len(calls) != 0, 'no routine called')
            raise Unsupported('%d calls' % len(calls))
        v.fact('the routine asked for', calls[0][0] == routine, '%s instead of %s' % (calls[0][0], routine))
        v.fact('the input asked for', loaded == ['<in>'], repr(loaded))
        got, want = flat(calls[0][1]), {**D, 'squeeze': False}
        got = {k: x for k, x in got.items() if k in want or isinstance(x, Token)}
        same(v, 'the input as loaded, squeeze=False', got, want)
        if output:
            v.fact('the result is written to the output', len(saved) == 1 and saved[0]['fname'] == '<out>' and saved[0]['data'] is out, repr(saved))
        else:
            v.fact('nothing is written, the result is printed', not saved and len(I.printed) > n0, repr(saved))
    return vf.verify('__main__.main (%s%s%s)' % (routine, ', output' if output else '', ', squeeze in the input' if squeeze else ''), run, {}, {}, 20)


def unit_cli_other(what):
    def run(I):
        calls = []
        for k in ROUTINES:
            I.contracts['model.'+k] = recorder(calls, None)
        for k in ('load_input', 'save_data'):
            I.contracts['io.'+k] = recorder(calls, None)
        vals = {'routine': 'dipole', 'input': '<in>', 'output': '<out>', 'report': False, 'version': False}
        if what == 'none':
            vals['routine'] = None
        elif what == 'noinput':
            vals['input'] = None
        else:
            vals[what] = True
        M = I.module('__main__')
        M._d['argparse'] = npshim.Namespace('argparse', {'ArgumentParser': lambda *a, **k: Args(vals, {})})
        M._d['vars'] = lambda x: x
        I.contracts['utils.Report'] = lambda I, a, k: '<report>'
        n0 = len(I.printed)
        I.call_body(M.main, [[]], {})
        v = vf.V(I)
        v.fact('nothing is computed, loaded or written', not calls, repr(calls))
        v.fact('something is printed', len(I.printed) > n0, '')
    return vf.verify('__main__.main (%s)' % what, run, {}, {}, 20)


# ------------------------------------------------------------------ C29: files
import json as pyjson, re as pyre


class NpInt(int):
    """a numpy integer: not a number for json"""


class Filt:
    """a filter object"""
    name = 'My_Filter'


class Disk:
    """ghost files: text as written; json and savetxt/loadtxt by contract: a number of any value is written as a
    text which reads back exactly the same if it has 17 significant digits (repr of Python, %.16e or more)"""

    def __init__(self, I):
        self.I, self.files, self.terms = I, {}, []
        M = I.module('io')
        self.M = M
        d = dict(npshim.NP)
        d.update(savetxt=self.savetxt, loadtxt=self.loadtxt, integer=NpInt, floating=type('NpFloat', (float,), {}), iscomplexobj=self.iscomplex)
        M._d['np'] = npshim.Namespace('np', d)
        M._d['open'] = self.open
        M._d['os'] = npshim.Namespace('os', {'path': npshim.Namespace('os.path', {'abspath': lambda p: p})})
        M._d['time'] = npshim.Namespace('time', {'strftime': lambda *a: 'Thu Jan 01 00:00:00 2026 UTC'})
        M._d['filters'] = npshim.Namespace('filters', {'DigitalFilter': Filt})
        M._d['utils'] = npshim.Namespace('utils', {'__version__': '1.2', 'EMArray': lambda x: x})
        M._d['json'] = npshim.Namespace('json', {'dumps': self.dumps, 'dump': self.dump, 'load': self.load, 'loads': self.loads, 'JSONEncoder': npshim.Namespace('JSONEncoder', {'default': self.nodefault})})
        I.assumed.add('json and numpy text files: numbers with 17 significant digits read back exactly; files hold what was written')

    @staticmethod
    def iscomplex(x):
        if isinstance(x, (NpInt, Filt, str, list, dict)):
            return False
        return npshim.NP['iscomplexobj'](x)

    @staticmethod
    def nodefault(self, obj):
        raise TypeError('not JSON serializable')

    def open(self, name, mode='r', **k):
        if mode == 'w':
            self.files[name] = GFile()
        elif mode == 'r':
            if name not in self.files:
                raise FileNotFoundError(name)
        else:
            raise Unsupported('mode of a file')
        return self.files[name] if mode == 'w' else Reader(self.files[name])

    # json
    def native(self, x, cls, depth=0):
        if depth > 12:
            raise Unsupported('json: nesting')
        if type(x) in (bool, int, float, str) or x is None:
            if type(x) is str and '{}' in x:
                raise Unsupported('json: {} in a text')
            return x
        if isinstance(x, (list, tuple)):
            return [self.native(a, cls, depth+1) for a in x]
        if isinstance(x, dict):
            if not all(type(k) is str for k in x):
                raise Unsupported('json: keys')
            return {k: self.native(a, cls, depth+1) for k, a in x.items()}
        if isinstance(x, tm.T) and x.sort != 'C':
            c = tm.as_int(x) if hasattr(tm, 'as_int') else None
            self.terms.append(x)
            return '@T%d@' % (len(self.terms)-1)
        if cls is None:
            raise TypeError('Object is not JSON serializable')
        return self.native(self.I.call_body(self.I.method('io', '_ComplexNumPyEncoder', 'default'), [None, x], {}), cls, depth+1)

    def dumps(self, x, cls=None, **k):
        if set(k) - {'indent', 'separators', 'sort_keys'}:
            raise Unsupported('json: options')
        return pyjson.dumps(self.native(x, cls), **k).replace('{}', '{ }')   # an empty dictionary; no text has {} in it

    def dump(self, x, f, **k):
        f.items.append(self.dumps(x, **k))

    def back(self, x):
        if isinstance(x, dict):
            return {k: self.back(a) for k, a in x.items()}
        if isinstance(x, list):
            return [self.back(a) for a in x]
        if isinstance(x, str) and pyre.fullmatch('@T[0-9]+@', x):
            return self.terms[int(x[2:-1])]
        return x

    def loads(self, s):
        return self.back(pyjson.loads(s))

    def load(self, f):
        if not all(isinstance(x, str) for x in f.items):
            raise Unsupported('json of another kind of file')
        return self.loads(''.join(f.items))

    # text
    def savetxt(self, f, X=None, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
        if newline != '\n' or footer or comments != '# ' or not isinstance(X, SArr) or X.ndim != 2 or not X.concrete():
            raise Unsupported('np.savetxt')
        n, m = (A.as_int(lit(k)) for k in X._shape)
        cx = X.dtype.kind == 'c'
        nf = fmt.count('%')
        if nf == 1 and not cx:
            fmt = delimiter.join([fmt]*m)
        elif nf != (2*m if cx else m):
            raise ValueError('fmt has wrong number of % formats')
        num = r'%([-+ #0]*)[0-9]*(?:\.([0-9]+))?([eEgGf])'
        cols, pos = [], 0
        pat = pyre.compile(num + (num + 'j' if cx else ''))
        while pos < len(fmt) or not cols:
            g = pat.match(fmt, pos)
            if g is None:
                raise Unsupported('np.savetxt: format')
            if cx and '+' not in g.group(4):
                raise Unsupported('np.savetxt: complex format')
            cols.append([(g.group(3*k+2), g.group(3*k+3)) for k in range(2 if cx else 1)])
            pos = g.end()
            if len(cols) < m:
                sep = pyre.compile(r' *, *').match(fmt, pos)
                if sep is None:
                    raise Unsupported('np.savetxt: separator')
                pos = sep.end()
            elif pos != len(fmt):
                raise Unsupported('np.savetxt: format')

        def rd(x, how):
            p, c = how
            p = 6 if p is None else int(p)
            if (c in 'eE' and p >= 16) or (c in 'gG' and p >= 17):
                return x
            return fn('rounded:%s:%d' % (c, p), x, sort='R')
        tab = {}
        for i in range(n):
            for j in range(m):
                z = X.at(lit(i), lit(j))
                tab[i, j] = tm.add(rd(tm.re_(z), cols[j][0]), tm.mul(tm.IU, rd(tm.im_(z), cols[j][1]))) if cx else rd(z, cols[j][0])
        if header:
            f.write('# '+header.replace('\n', '\n# ')+'\n')
        f.items.append(A.mktab((n, m), {(i, j): x for (i, j), x in tab.items()}, A.DC if cx else A.DF))

    def loadtxt(self, name, dtype='float64', comments='#', delimiter=None, encoding=None, ndmin=0):
        if comments != '#' or ndmin != 0 or name not in self.files:
            raise Unsupported('np.loadtxt')
        if delimiter != ',':
            raise Unsupported('np.loadtxt: delimiter')
        items = self.files[name].items
        rows = [x for x in items if isinstance(x, SArr)]
        text = ''.join(x if isinstance(x, str) else '\n@\n' for x in items)
        for l in text.split('\n'):
            if l.strip() and not l.startswith('#') and l != '@':
                raise Unsupported('np.loadtxt: other lines')
        if len(rows) != 1:
            raise Unsupported('np.loadtxt: blocks')
        kinds = {'float64': 'f', 'complex128': 'c', 'complex': 'c', 'float': 'f'}
        if isinstance(dtype, A.DT):
            dtype = dtype.name
        if not isinstance(dtype, str) or dtype not in kinds:
            raise Unsupported('np.loadtxt: dtype')
        if rows[0].dtype.kind == 'c' and kinds[dtype] == 'f':
            raise ValueError('could not convert string to float')
        r = rows[0] if kinds[dtype] == rows[0].dtype.kind else rows[0].astype(A.DC)
        return A.squeeze(r)


class GFile:
    def __init__(self):
        self.items = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        if '{}' in s:
            raise Unsupported('text of unknown content written')
        self.items.append(s)

    def put_array(self, a, sep):
        if not sep.strip() == '' or not sep:
            raise Unsupported('tofile: binary or other separator')
        self.items.append(a)


class Reader:
    def __init__(self, f):
        self.items = list(f.items)
        self.it = iter(self.lines())

    def lines(self):
        s = ''
        for x in self.items:
            s += x if isinstance(x, str) else '0\n'
        return [l+'\n' for l in s.split('\n')[:-1]] + ([s.split('\n')[-1]] if s.split('\n')[-1] else [])

    def __iter__(self):
        return self.it

    def readline(self):
        return next(self.it, '')

    def readlines(self):
        return list(self.it)

    def read(self):
        return ''.join(self.it)


def unit_data(ext, cx, shape, info=''):
    """load_data(save_data(x)) is x: lengths fixed, values arbitrary"""
    def run(I):
        D = Disk(I)
        re, im = (lambda *i, n=n: fn(n, *map(lit, i), sort='R') for n in ('x', 'y'))
        z = (lambda *i: tm.add(re(*i), tm.mul(tm.IU, im(*i)))) if cx else re
        X = A.mktab(shape, {(i, j, k): z(i, j, k) for i in range(shape[0]) for j in range(shape[1]) for k in range(shape[2])}, A.DC if cx else A.DF)
        vf.frame(I, 'data', X)
        kw = {'info': info} if info else {}
        I.call_body(D.M.save_data, ['x.'+ext, X], dict(kw))
        Y = I.call_body(D.M.load_data, ['x.'+ext], {})
        v = vf.V(I)
        if not isinstance(Y, SArr):
            raise Unsupported('the loaded data: %r' % (Y,))
        v.fact('an array of the same shape', isinstance(Y, SArr) and tuple(Y.shape) == tuple(shape), repr(Y))
        v.fact('of the same kind', isinstance(Y, SArr) and Y.dtype.kind == X.dtype.kind, repr(getattr(Y, 'dtype', None)))
        for i in range(shape[0]):
            for j in range(shape[1]):
                for k in range(shape[2]):
                    v.eq('entry [%d, %d, %d]' % (i, j, k), Y.at(lit(i), lit(j), lit(k)), z(i, j, k))
    return vf.verify('io.save_data, io.load_data (%s, %s, %s%s)' % (ext, 'complex' if cx else 'real', 'x'.join(map(str, shape)), ', info' if info else ''), run, {}, {}, 30)


def unit_data_refused(what):
    def run(I):
        D = Disk(I)
        shape = {'ndim': (2, 2), 'ndim4': (1, 2, 1, 2)}.get(what, (1, 1, 2))
        X = A.build(shape, lambda *i: fn('z', *i, sort='R'), A.DF)
        if what == 'load':
            expect_raise(I, 'refused', lambda: I.call_body(D.M.load_data, ['x.dat'], {}), ValueError)
        else:
            expect_raise(I, 'refused', lambda: I.call_body(D.M.save_data, ['x.txt' if what.startswith('ndim') else 'x.dat', X], {}), ValueError)
            v = vf.V(I)
            v.fact('nothing is written', not D.files, repr(list(D.files)))
    return vf.verify('io.save_data, io.load_data (%s refused)' % what, run, {}, {}, 20)


def unit_input(which):
    def run(I):
        D = Disk(I)
        r = lambda n: fn(n, sort='R')
        V1 = A.mktab((3,), {(k,): fn('a', lit(k), sort='R') for k in range(3)}, A.DF)
        V2 = A.mktab((2, 1, 2), {(i, 0, k): fn('b', lit(i), lit(k), sort='R') for i in range(2) for k in range(2)}, A.DF)
        l1 = [fn('a', lit(k), sort='R') for k in range(3)]
        l2 = [[[fn('b', lit(i), lit(k), sort='R') for k in range(2)]] for i in range(2)]
        inp = {'scalars': dict(freqtime=r('f'), ab=fn('ab', sort='I'), signal=None, squeeze=True, ht='dlf', verb=0),
               'lists': dict(src=[r('x'), r('y'), [r('z'), 2]], depth=[float('-inf'), 0, r('d'), float('inf')], empty=[], t=(r('x'), 1)),
               'nested': dict(res={'res': [r('p'), r('q')], 'deep': {'v': V1, 's': 'text, with "quotes", {braces}: and }'}}, htarg={}),
               'arrays': dict(res=V1, src=[V1, V1, r('z')], freqtime=V2, one=A.scalar_arr(r('s'))),
               'filter': dict(htarg={'dlf': Filt(), 'pts_per_dec': NpInt(-1)}, n=NpInt(3)),
               'single': dict(depth=[])}[which]
        want = {'lists': dict(inp, t=[r('x'), 1]),
                'nested': dict(res={'res': [r('p'), r('q')], 'deep': {'v': l1, 's': 'text, with "quotes", {braces}: and }'}}, htarg={}),
                'arrays': dict(res=l1, src=[l1, l1, r('z')], freqtime=l2, one=r('s')),
                'filter': dict(htarg={'dlf': 'My_Filter', 'pts_per_dec': -1}, n=3)}.get(which, inp)
        vf.frame(I, 'data', inp)
        I.call_body(D.M.save_input, ['x.json', inp], {})
        got = I.call_body(D.M.load_input, ['x.json'], {})

        def eq(a, b):
            if isinstance(b, dict):
                return isinstance(a, dict) and list(a) == list(b) and all(eq(a[k], b[k]) for k in b)
            if isinstance(b, list):
                return isinstance(a, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
            if isinstance(b, tm.T):
                return a is b
            return type(a) is type(b) and a == b
        vf.V(I).fact('the same values', eq(got, want), '%r instead of %r' % (got, want))
    return vf.verify('io.save_input, io.load_input (%s)' % which, run, {}, {}, 20)


def unit_input_refused(what):
    def run(I):
        D = Disk(I)
        if what == 'load':
            expect_raise(I, 'refused', lambda: I.call_body(D.M.load_input, ['x.txt'], {}), ValueError)
        else:
            expect_raise(I, 'refused', lambda: I.call_body(D.M.save_input, ['x.txt', {'a': 1}], {}), ValueError)
            vf.V(I).fact('nothing is written', not D.files, repr(list(D.files)))
    return vf.verify('io.save_input, io.load_input (%s refused)' % what, run, {}, {}, 20)


# ------------------------------------------------------------------ C27: filters
from pv.interp import Obj


class Lib:
    """a filter of libdlf: a function giving base and coefficients, with their names"""

    def __init__(self, name, values):
        self.name, self.values = name, list(values)
        n = tm.sym('n_'+name, 'I')
        self.arrays = tuple(A.build((n,), lambda i, k=k: fn('%s.%s' % (name, k), i, sort='R'), A.DF) for k in ['base']+list(values))

    def __call__(self):
        return self.arrays


LIB = {'hankel': {'h1': ('j0', 'j1'), 'both': ('j0', 'j1'), 'h2': ('j1',)}, 'fourier': {'both': ('sin', 'cos'), 'f1': ('sin', 'cos'), 'f2': ('cos',)}}


def filters_module(I, files=None):
    """the module with ghost files and a ghost library"""
    lib = {t: {n: Lib('%s.%s' % (t, n), vs) for n, vs in d.items()} for t, d in LIB.items()}
    for d in lib.values():
        for x in d.values():
            I.ctx.add(tm.le(2, x.arrays[0]._shape[0]))
    I.extmods['libdlf'] = npshim.Namespace('libdlf', {t: npshim.Namespace('libdlf.'+t, {**d, '__all__': list(d)}) for t, d in lib.items()})
    files = {} if files is None else files

    def opn(name, mode='r', **k):
        if mode == 'w':
            files[name] = GFile()
            return files[name]
        if mode != 'r':
            raise Unsupported('mode of a file')
        if name not in files:
            raise FileNotFoundError(name)
        return Reader(files[name])
    path = npshim.Namespace('os.path', {'abspath': lambda p: p if p.startswith('/') else '/cwd/'+p, 'join': lambda *p: '/'.join(p), 'isfile': lambda p: p in files, 'exists': lambda p: p in files})
    I.extmods['os'] = npshim.Namespace('os', {'path': path, 'makedirs': lambda p, exist_ok=False: None})
    M = I.module('filters')

    def fromfile(f, dtype=float, count=-1, sep=''):
        if not isinstance(f, Reader) or sep.strip() or not sep or len(f.items) != 1 or not isinstance(f.items[0], SArr):
            raise Unsupported('np.fromfile')
        return f.items[0].copy()
    M._d['np'] = npshim.Namespace('np', dict(npshim.NP, fromfile=fromfile))
    M._d['open'] = opn

    def getattribute(o, n):
        if n not in o.__dict__:
            raise AttributeError(n)
        return o.__dict__[n]
    M._d['object'] = Obj(__getattribute__=getattribute, __setattr__=lambda o, n, v: o.__dict__.__setitem__(n, v))

    def new(cls, a, k):
        o = Obj()
        I.call_body(I.method('filters', cls, '__init__'), [o]+list(a), k)
        return o
    M._d['DigitalFilter'] = lambda *a, **k: new('DigitalFilter', a, k)
    I.assumed.add('ndarray.tofile and np.fromfile with a separator of white space: the numbers are read back exactly; files hold what was written')
    return M, lib, files, new


def unit_filter_files(coefs, extra=(), savename=False, path=None):
    """fromfile(tofile(filter)) has the same base, coefficients and factor, for any lengths and values"""
    def run(I):
        M, lib, files, new = filters_module(I)
        kw = {'savename': 'other'} if savename else {}
        if extra:
            kw['filter_coeff'] = list(extra)
        n = size(I, 'n')
        I.ctx.add(tm.le(2, n))
        a = new('DigitalFilter', ['name'], dict(kw))
        el = {k: (lambda i, k=k: fn('filt.'+k, i, sort='R')) for k in ('base',)+tuple(coefs)}
        for k in el:
            setattr(a, k, A.build((n,), el[k], A.DF))
            vf.frame(I, k, getattr(a, k))
        I.ctx.add(tm.not_(tm.cmp_eq(el['base'](lit(0)), 0)))
        a.factor = A.build((1,), lambda i: fn('round', tm.div(el['base'](lit(1)), el['base'](lit(0))), 15, sort='R'), A.DF)
        before = dict(a.__dict__)
        pk = {} if path is None else {'path': path}
        I.call_body(I.method('filters', 'DigitalFilter', 'tofile'), [a], dict(pk))
        v = vf.V(I)
        v.fact('writing leaves the filter as it was', set(before) == set(a.__dict__) and all(before[k] is a.__dict__[k] for k in before), '')
        stem = '%s/%s_' % ({None: '/cwd/filters', 'here': '/cwd/here', '/abs': '/abs'}[path], 'other' if savename else 'name')
        v.fact('one file for the base and for each of its coefficients', set(files) == {stem+k+'.txt' for k in el}, repr(sorted(files)))
        # a filter of the same name with other coefficients leaves its own files alone
        b = new('DigitalFilter', ['name'], dict(kw))
        I.call_body(I.method('filters', 'DigitalFilter', 'fromfile'), [b], dict(pk))
        v.fact('the same name', b.__dict__.get('name') == 'name', repr(b.__dict__.get('name')))
        for k in set(el) | {'j0', 'j1', 'sin', 'cos', 'factor'}:
            v.fact('%s present exactly if it was' % k, (k in b.__dict__) == (k in before), '')
            if k in b.__dict__ and k in before:
                if not isinstance(b.__dict__[k], SArr):
                    raise Unsupported('attribute')
                v.array(k, b.__dict__[k], before[k]._shape, lambda *i: before[k].at(*i))
    return vf.verify('filters.DigitalFilter.tofile, fromfile (%s%s%s%s)' % (', '.join(coefs), ', extra: '+', '.join(extra) if extra else '', ', savename' if savename else '', ', path' if path else ''), run, {}, {}, 60)


def unit_library(seq):
    """any order of accesses: the data of the library, the same object every time"""
    def run(I):
        M, lib, files, new = filters_module(I)
        objs, got = {}, {}
        W = {'hankel': 'Hankel', 'fourier': 'Fourier'}
        v = vf.V(I)
        M._d['super'] = lambda: Obj(__init__=lambda t: I.call_body(I.method('filters', '_BaseFilter', '__init__'), [M._d['%self'], t], {}))
        get = I.method('filters', '_BaseFilter', '__getattribute__')
        for w, name in seq:
            t = w.rstrip('2')
            if w not in objs:
                o = objs[w] = Obj()
                M._d['%self'] = o
                I.call_body(I.method('filters', W[t], '__init__'), [o], {})
                v.fact('the list of the library', I.call_body(get, [o, 'available'], {}) == list(LIB[t]), '')
            f = I.call_body(get, [objs[w], name], {})
            if not isinstance(f, Obj):
                raise Unsupported('filter: %r' % (f,))
            L = lib[t][name]
            v.fact('%s %s: same filter on every access' % (w, name), got.setdefault((t, name), f) is f, '')
            v.fact('%s %s: its name' % (w, name), f.__dict__.get('name') == name, repr(f.__dict__.get('name')))
            for k in ('base', 'j0', 'j1', 'sin', 'cos'):
                want = ['base']+L.values
                v.fact('%s %s: %s' % (w, name, k), (k in f.__dict__) == (k in want), '')
                if k in want and k in f.__dict__:
                    v.array('%s %s: values of %s' % (w, name, k), f.__dict__[k], L.arrays[0]._shape, lambda i: fn('%s.%s.%s' % (t, name, k), i, sort='R'))
            b = lambda i: fn('%s.%s.base' % (t, name), i, sort='R')
            if not isinstance(f.__dict__.get('factor'), SArr):
                raise Unsupported('factor')
            v.array('%s %s: factor' % (w, name), f.__dict__['factor'], (1,), lambda i: fn('round', tm.div(b(lit(1)), b(lit(0))), 15, sort='R'))
        try:
            r = I.call_body(get, [objs[seq[0][0]], 'no_such_filter'], {})
            v.fact('another name is refused', False, repr(r))
        except PyRaise as e:
            v.fact('another name is refused', isinstance(e.exc, AttributeError), repr(e.exc))
    return vf.verify('filters.Hankel, Fourier (%s)' % ', '.join('.'.join(x) for x in seq), run, {}, {}, 60)


if __name__ == '__main__':
    main(globals())
