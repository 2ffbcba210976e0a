"""Which units decide which property."""
import importlib

TRUSTED = ['pv: symbolic execution of the CPython AST of /repo/empymod (see DESIGN.md), rational-function normal form, z3 4.x (linear integer/real arithmetic)',
           'CPython/numpy/numba semantics of the statements outside the modelled subset are never assumed (units using them are reported as not discharged)',
           'decorators (numba.njit) are dropped: the compiled function is taken to compute what its Python source says']
ASSUMPTIONS = ['real and complex arithmetic is exact (no rounding, overflow, underflow)',
               'inputs are finite, denominators occurring in the code are non-zero, Re(Gamma) > 0']

P = {}


def prop(pid, level, technique, note, units=(), thorough=(), support=(), **kw):
    """units: their obligations are the property; support: contracts of functions the argument relies on (a support
    unit that fails does not by itself break the property: it withdraws the proof and widens the search for an input)"""
    P[pid] = dict(level=level, technique=technique, note=note, units=list(units), thorough=list(thorough), support=list(support), **kw)


def units(pid, tier):
    p = P[pid]
    return p['units'] + (p['thorough'] if tier == 'thorough' else [])


def support(pid):
    return P[pid]['support']


def config(pid):
    return P[pid]


def run_unit(spec):
    if spec[0] == 'pure':
        return run_pure(spec[1:])
    mod, fn = spec[0], spec[1]
    u = getattr(importlib.import_module(mod), fn)(*spec[2:])
    return u.as_dict()


def run_pure(spec):
    """the frame of a unit: every argument of the function under contract is left as it was; its other obligations (the result is a
    function of the arguments alone, verbosity not among them) support this, but decide other properties"""
    from pv import verify as vf
    vf.FRAME_ALL[0] = True
    try:
        u = getattr(importlib.import_module(spec[0]), spec[1])(*spec[2:])
    finally:
        vf.FRAME_ALL[0] = False
    u.name = 'frame of '+u.name
    for o in u.obls:
        if o.status == 'refuted' and not o.name.startswith('frame'):
            o.status = 'undecided'
    return u.as_dict()


NA = {}
import kunits  # noqa
import props  # noqa

