"""Properties decided so far by evaluation of the contracts only, or by units of the other modules."""
from registry import prop, P, NA
from kunits import GREEN, WAVE, KERNEL, REFL, FIELDS, FLAGS, AB_CALC

import itertools

SIGNALS = (None, 0, 1, -1)
FEM = [('mspec', 'unit_fem', ht, xd, lp, re) for ht, xd, lp, re in itertools.product(('dlf', 'qwe', 'quad'), (True, False, None), (None, 'freq', 'off'), (False, True))]
FEMS = [u for u in FEM if u[2:] in [('dlf', True, None, False), ('dlf', False, 'freq', True), ('qwe', None, 'off', False), ('quad', True, 'off', True), ('dlf', None, 'off', False),
                                    ('qwe', True, 'freq', False), ('quad', False, None, False)]]
TEM = [('mspec', 'unit_tem', ft, s, w) for ft in ('dlf', 'qwe', 'fftlog', 'fft') for s in (0, 1, -1) for w in (False, True)]
DIPOLE = [('mspec', 'unit_dipole', s, lp, hk, xd) for s in SIGNALS for lp in (False, True) for hk in (False, 'eta', 'zeta', 'both') for xd in (False, True, None)
          if not (s is not None and lp)]
DIPOLE_NOHOOK = [u for u in DIPOLE if not u[4]]
CHECK_AB = [('uspec', 'unit_check_ab', True), ('uspec', 'unit_check_ab', False)]
CHECK_FREQ = [('uspec', 'unit_check_frequency', lp, d) for lp in (False, True) for d in (False, True)]
FULL = [('fspec', 'unit_vertical', m) for m in (False, True)] + [('fspec', 'unit_reciprocal', r) for r in (3, 6)] + [('fspec', 'unit_isotropic', s) for s in range(1, 7)] + [
    ('fspec', 'unit_maxwell', s) for s in range(1, 7)]
HOOKS = (False, 'eta', 'zeta', 'both')
ANAF = [('mspec', 'unit_analytical', 'fs', None, lp, hk) for lp in (False, True) for hk in HOOKS]
ANAD = [('mspec', 'unit_analytical', sol, s, lp, False) for sol in ('dhs', 'dfs', 'dsplit', 'dtetm') for s in SIGNALS for lp in (False, True) if not (s is not None and lp)]
AB17 = (11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35)
DIPK = [('mspec', 'unit_dipole_k', ab, two, lp) for ab in AB17+(36,) for two in (False, True) for lp in (False, True)]
IPQ = [('mspec', 'unit_ip_and_q', ab, g) for ab in (44, 45, 46, 54, 55, 56, 64, 65, 66) for g in ((), ('scale', 'verb', 'aniso', 'mpermH', 'htarg'), ('epermH', 'epermV', 'mpermV', 'signal', 'xdirect'))] + [
    ('mspec', 'unit_ip_and_q_refused')]
ANGLE = [('uspec', 'unit_off_ang')] + [('uspec', 'unit_angle_factor', ab, *fl) for ab in AB17 for fl in ((False, False), (False, True), (True, True))]
LAYER = [('uspec', 'unit_layer', k) for k in ('one', 'many')]
MINIMA = [('uspec', 'unit_minimum', g) for g in ((), ('min_freq',), ('min_time',), ('min_off',), ('min_res',), ('min_angle',), ('min_freq', 'min_off', 'min_angle'),
          ('min_freq', 'min_time', 'min_off', 'min_res', 'min_angle'))] + [('uspec', 'unit_check_min', s, m) for s in (False, True) for m in (False, True)]
USED_ = [u for u in itertools.product((True, False), repeat=3) if any(u)]
FFTS = [('zspec', 'unit_fourier_linear', 'fft', n, (n, m, p)) for n, m, p in ((2, 2, None), (2, 3, None), (3, 4, None), (4, 4, None), (5, 8, None))] + [('zspec', 'unit_fourier_linear', 'fft', n, (m, k, 10)) for n, m, k in ((2, 3, 4), (3, 2, 2), (4, 3, 4))] + [
    ('zspec', 'unit_fourier_linear', 'fftlog', n, (q, mu)) for n in (3, 4, 5, 6, 7, 8) for q in (0, .3) for mu in (.5, -.5)]
QUADS = [('qspec', 'unit_quad', u, ab) for u in USED_ for ab in (11, 13, 25, 36)] + [('qspec', 'unit_quad', (True, True, True), ab) for ab in (12, 21, 22, 14, 24, 15, 33, 31, 16)]
QUADS += [('yspec', 'unit_qwe', *a) for a in ((2,), (3,), (4,), (3, False, True), (3, True))] + [('yspec', 'unit_fourier_qwe', k, n, g) for k in ('sin', 'cos') for n in (1, 2) for g in (False, True)]
QUADS += [('yspec', 'unit_hankel_qwe', u, ab) for u in USED_ for ab in (12, 33)] + [('yspec', 'unit_hankel_qwe', (True, True, True), ab) for ab in (11, 21, 22, 14, 24, 15, 25, 13, 31, 16, 36)] + [('yspec', 'unit_hankel_qwe', (True, True, False), 11, None, True)]
QUADS += [('yspec', 'unit_hankel_qwe', u, ab, 1) for u in USED_ for ab in (14, 13)] + [('yspec', 'unit_hankel_qwe', (True, False, True), 11, 2, False, True), ('yspec', 'unit_hankel_qwe', (False, True, False), 15, 2), ('yspec', 'unit_hankel_qwe', (True, True, True), 12, 1, True)]
QUADS += [('qspec', 'unit_hankel_quad', u, re) for u in USED_ for re in (False, True)] + [('qspec', 'unit_conv_warning', c) for c in (True, False)]
PARS = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')
MODEL = [('uspec', 'unit_check_model', PARS, d, h, True, e, o) for d, e, o in [(None, '', 'increasing')] + [('one', e, 'increasing') for e in ('', 't', 'b')] + [
    ('many', e, o) for o in ('increasing', 'decreasing') for e in ('', 't', 'b', 'tb')] for h in (False, True)]
MODEL += [('uspec', 'unit_check_model', PARS, 'many', False, True, e, 'neither') for e in ('', 't', 'b', 'tb')]
MODEL += [('uspec', 'unit_check_model', g, 'many', h, True, e, o) for g in (('res',), ('res', 'aniso'), ('res', 'epermH'), ('res', 'epermV', 'mpermH'), ('res', 'mpermV'), ('res', 'epermH', 'mpermH', 'mpermV'))
          for h in (False, True) for e in ('', 'tb') for o in ('increasing', 'decreasing')]
MODEL += [('uspec', 'unit_check_model', PARS, d, h, False, '', o) for d, o in ((None, 'increasing'), ('one', 'increasing'), ('many', 'increasing'), ('many', 'decreasing')) for h in (False, True)]
MODEL += [('uspec', 'unit_check_model', ('res',), None, h, True) for h in (False, True)]
ZZ = list(itertools.product('1n', '1n'))
BIPOLE = [('bspec', 'unit_bipole', a, b) for a, b in ZZ]
BIPOLE_ALL = BIPOLE + [('bspec', 'unit_bipole', a, b, None, None, 0) for a, b in ZZ] + [('bspec', 'unit_bipole', '1', '1', None, None, None, True)]
BIPOLE_FLUX = [('bspec', 'unit_bipole', a, a, st, rt) for a in '1n' for st, rt in ((None, 'j'), (None, 'b'), ('b', None), ('b', 'b'), ('b', 'j'))]
GEO = [('bspec', 'unit_geo_fact', ab, ms, mr) for ms in (False, True) for mr in (False, True) for ab in
       [10*r+s+(0 if ms == mr else 3) for r in (1, 2, 3) for s in (1, 2, 3)]]
GETABS = [('bspec', 'unit_get_abs', ms, mr) for ms in (False, True) for mr in (False, True)]
AZMDIP = [('bspec', 'unit_azm_dip', nz, *k) for nz in '1n' for k in (
    (True, 'many', 'src'), (True, 'many', 'rec'), (False, 'many', 'src'), (False, 'many', 'rec'), (False, 'one', 'src'), (False, 'one', 'rec'),
    (False, 'many', 'src', True), (False, 'one', 'src', True), (False, 'many', 'rec', True))]
USED = [u for u in itertools.product((True, False), repeat=3) if any(u)]
DLF = [('tspec', 'unit_dlf', u, ab, True, False) for u in USED for ab in AB17] + [('tspec', 'unit_dlf', u, ab, an, re) for u in USED for ab in (11, 13) for an, re in ((False, False), (True, True))]
DLF += [('tspec', 'unit_dlf_interp', lag, u, ab, True) for lag in (True, False) for u in USED for ab in (11, 13, 14, 33)]
DLF += [('tspec', 'unit_dlf_interp', lag, u, ab, an, g, re) for lag in (True, False) for u in USED for ab, an, g, re in ((11, False, True, False), (13, True, False, False), (11, True, True, True))]
DLF += [('tspec', 'unit_dlf_fourier', k, m, g, re) for k in ('sin', 'cos') for m in ('standard', 'splined', 'lagged') for g in (True, False) for re in (False, True)]
DLF += [('tspec', 'unit_dlf_points', m) for m in ('standard', 'splined', 'lagged')] + [('tspec', 'unit_fourier_dlf', m) for m in ('standard', 'splined', 'lagged')] + [
    ('tspec', 'unit_hankel_dlf', ab) for ab in (11, 33, 24)]
SPLIT = [('lspec', 'unit_split_refl', pm) for pm in (1, -1)] + [('lspec', 'unit_split_fields', up, pm) for up in (True, False) for pm in (1, -1)] + [
    ('lspec', 'unit_split_green', ab, *fl) for ab in AB_CALC for fl in FLAGS]
RECIPROCAL = [('fspec', 'unit_fs_reciprocal', s) for s in range(1, 7)] + [('lspec', 'unit_chain', up, pm) for up in (True, False) for pm in (1, -1)] + [
    ('lspec', 'unit_chain_compose'), ('lspec', 'unit_chain_reciprocal')] + [
    ('lspec', 'unit_reciprocal', ab, dual) for ab in (11, 12, 21, 22, 13, 31, 23, 32, 33) for dual in (False, True)] + [('lspec', 'unit_reciprocal_mixed', ab) for ab in (14, 15, 24, 25, 34, 35, 16, 26)]
MOVED = [('fspec', 'unit_fs_moved', s) for s in range(1, 7)] + [('lspec', 'unit_moved_refl', m, pm) for m in (False, True) for pm in (1, -1)] + [
    ('lspec', 'unit_moved_fields', m, up, pm) for m in (False, True) for up in (True, False) for pm in (1, -1)] + [
    ('lspec', 'unit_moved_green', m, ab, *fl, xd) for m in (False, True) for ab in AB_CALC for fl in FLAGS for xd in (False, True)]
AB9 = (11, 12, 13, 21, 22, 23, 31, 32, 33)
HALF = [('fspec', 'unit_half_parts', ab, s) for ab in AB9 for s in (1, -1, None, 0)] + [('fspec', 'unit_half_'+k, ab) for k in ('off', 'pair', 'impulse') for ab in AB9]
TECH = 'contracts on the real functions, discharged by symbolic execution + normal form + z3; the remaining links by bounded contract evaluation'
TMTE = [('xspec', 'unit_fields', m) for m in (True, False)] + [('xspec', 'unit_greenfct')] + [('xspec', 'unit_k0', pm) for pm in (1, -1)] + [
    ('xspec', 'unit_dipole', a, b, i) for a, b in ZZ for i in (True, False)]
POLES = [('vspec', 'unit_check_dipole', a, b, z) for a, b in ('11', '1n', 'n1', 'nn', 'nm', 'mn') for z in 's1n'] + [('vspec', 'unit_check_dipole', 'n', 'n', '1', k) for k in (2, 4)]
POLES += [('vspec', 'unit_check_bipole', z) for z in ('sssss', '11111', 'nssss', 'n1n11', 'nnn1n', 'nnnnn', 'ssnss', '1111n', '111n1', 'snssn', 'ssssss', '111111', '1n1111', 'nnnnnn', '1111n1', '11111n', 'ssssnn', 'nnss11', 'snssss')]
POLES += [('vspec', 'unit_check_bipole', z) for k in range(5) for z in ['n'*k+'m'+'n'*(4-k), '1'*k+'m'+'1'*(3-k)+'n' if k < 4 else 'n111m']] + [
    ('vspec', 'unit_check_bipole', z) for k in range(6) for z in ['n'*k+'m'+'n'*(5-k), 's'*k+'m'+'s'*(4-k)+'n' if k < 5 else 'nssssm']] + [('vspec', 'unit_check_bipole', '1'*k) for k in (2, 3, 4, 7)]
POLES += [('vspec', 'unit_check_bipole', 'n1111', m, n) for m in ('j', 'b', 'loop', 'x', None) for n in ('src', 'rec')]
SOLUTION = [('vspec', 'unit_check_solution', k, g) for k in ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm', 'other') for g in SIGNALS]
LOOP = [('vspec', 'unit_check_loop', h, l) for h in ('dlf', 'qwe', 'quad') for l in (None, 'off', 'freq', 'other')]
_W = (('verb', 'ht', 'htarg', 'ft', 'ftarg', 'xdirect', 'loop', 'squeeze', 'bandpass'), ('verb', 'squeeze'), ('verb',), ('verb', 'ht', 'htarg', 'ft', 'ftarg', 'xdirect', 'loop'))
KWARGS = [('vspec', 'unit_get_kwargs', w, g, r) for w in _W for g in ((), w, ('verb',)) for r in (None, 'known', 'unknown', 'both')]
_F = ('name', ('base', 'factor', 'j0', 'j1'), ('base', 'factor', 'j0'), ('base', 'factor', 'j1'), ('base', 'j0', 'j1'), ('factor', 'j0', 'j1'))
HANKEL = [('vspec', 'unit_check_hankel', h, g, None, e, u) for h in ('dlf', 'qwe', 'quad') for g in ('all', 'none') for e in (False, True) for u in (False, True)] + [
    ('vspec', 'unit_check_hankel', 'other')] + [('vspec', 'unit_check_hankel', 'dlf', g, f) for g in ('all', 'none') for f in _F]
_F = ('name', ('base', 'factor', 'sin', 'cos'), ('base', 'factor', 'sin'), ('base', 'factor', 'cos'), ('base', 'sin', 'cos'), ('factor', 'sin', 'cos'))
TIME = [('vspec', 'unit_check_time_only', k) for k in ('number', 'dict', 'none', 'other')] + [('vspec', 'unit_check_time', 'other', 1)] + [
    ('vspec', 'unit_check_time', h, s, g, None, e, u) for h in ('dlf', 'qwe', 'fftlog', 'fft') for s in (0, 1, -1, 'dict') for g in ('all', 'none', 'some') for e in (False, True) for u in (False, True) if g != 'some' or h == 'fft']
TIME += [('vspec', 'unit_check_time', 'dlf', s, g, f) for s in (0, 1, -1, 'dict') for g in ('all', 'none') for f in _F]
REFUSED = [('uspec', 'unit_check_ab', False), ('mspec', 'unit_ip_and_q_refused')] + [u for u in MODEL if len(u) > 5 and u[5] is False or u[-1] == 'neither']
EMARRAY = [('rspec', 'unit_emarray', k, c, w) for k in range(4) for c in ('complex', 'real') for w in ('new', 'amp', 'pha')] + [
    ('rspec', 'unit_pha', k, c, d, u, l) for k in range(4) for c in ('complex', 'real') for d in (True, False) for u in (True, False) for l in (True, False) if l or c == 'complex']
pure = lambda us: [('pure',)+u for u in us]
WAVEFORM = [('wspec', 'unit_waveform', 1, 0), ('wspec', 'unit_waveform', 2, -1), ('wspec', 'unit_waveform', 3, 0), ('wspec', 'unit_waveform', 3, 1),
            ('wspec', 'unit_waveform', 2, 0, None, True), ('wspec', 'unit_waveform_refused', 'shape'), ('wspec', 'unit_waveform_refused', 'signal')]
SAME = [('gspec', 'unit_loop_same', g, c) for g in ((), ('signal', 'verb'), ('mrec', 'recpts', 'strength'), ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV', 'ht', 'htarg', 'squeeze')) for c in ((), ('msrc',), ('srcpts',), ('msrc', 'srcpts'))]
CLI = [('gspec', 'unit_cli', r, o, q) for r in ('bipole', 'dipole', 'loop', 'analytical') for o in (True, False) for q in (True, False)] + [('gspec', 'unit_cli_other', k) for k in ('none', 'noinput', 'version', 'report')]
_S = ((1, 1, 1), (2, 3, 1), (1, 2, 3), (3, 1, 2), (2, 2, 2), (1, 1, 4), (4, 1, 1))
FILES = [('gspec', 'unit_data', e, c, s, i) for e in ('txt', 'json') for c in (False, True) for s in _S for i in ('', 'synthetic data: (7, 1) of x')] + [
    ('gspec', 'unit_data_refused', w) for w in ('ndim', 'ndim4', 'ext', 'load')] + [('gspec', 'unit_input', w) for w in ('scalars', 'lists', 'nested', 'arrays', 'filter', 'single')] + [
    ('gspec', 'unit_input_refused', w) for w in ('save', 'load')]
GPR = [('mspec', 'unit_gpr', o, g, d) for o in ((False, False), (True, False), (False, True), (True, True)) for g in (False, True) for d in (True, False)]
LIBRARY = [('gspec', 'unit_filter_files', c, x, n, p) for c in (('j0', 'j1'), ('j1',), ('sin', 'cos'), ('j0', 'j1', 'sin', 'cos'), ('k',), ('j0', 'k')) for x in ((), ('k', 'l')) if x or 'k' not in c
           for n in (False, True) for p in (None, 'here', '/abs')] + [('gspec', 'unit_library', s) for s in (
               (('hankel', 'both'),), (('fourier', 'both'),), (('hankel', 'h2'), ('hankel', 'h2')), (('hankel', 'both'), ('fourier', 'both'), ('hankel2', 'both'), ('fourier2', 'both')),
               (('fourier', 'both'), ('hankel', 'both'), ('fourier', 'both')), (('fourier', 'f2'), ('fourier', 'f1'), ('fourier2', 'f2')), (('hankel', 'h1'), ('hankel', 'h2'), ('hankel2', 'h1')))]
PURE = pure(GPR[::3] + FILES[::5] + WAVEFORM[:2] + CHECK_AB[:1] + CHECK_FREQ + MODEL[::4] + LAYER + ANGLE[:6] + GEO[::6] + AZMDIP + FEMS + TEM[::3] + DIPOLE[::5] + ANAF[::3] + ANAD[::5] + DIPK[::9] + IPQ[::5] + [BIPOLE_ALL[k] for k in (0, 3, 4, 8)] +
            BIPOLE_FLUX[-1:] + KERNEL[::12] + DLF[::12] + QUADS[::10] + FULL[:5] + [('fspec', 'unit_half_parts', 11, s) for s in (1, -1, None)] + TMTE[-8:] +
            POLES[::4] + KWARGS[::4] + EMARRAY[::4] + SOLUTION[::5] + LOOP[::5] + HANKEL[::4] + TIME[::5])
TMTE_SUP = REFL + [u for u in FIELDS + GREEN + WAVE if u[1] == 'fields_case' or u[2] == 11]
UNITS = {
    'C31': (TMTE, 'the ten parts of tmtemod.dipole add up to the digital-filter sum of the kernel of the total field, for every stack, layer, geometry and filter; they depend on distances to '
            'the interfaces only; every request outside the scope is refused'),
    'C02': (SPLIT, 'the kernel contracts (discharged on the code as support of this check) give the same value for a stack and for the stack with one layer split anywhere, for every number of '
            'layers, split position, source and receiver layer, and component; any number of splits by repetition'),
    'C03': (RECIPROCAL, 'the full-space code is reciprocal for every medium and pair; the kernel contracts (discharged on the code as support of this check) are reciprocal for every stack, '
            'source and receiver layer and pair of components'),
    'C04': (MOVED, 'the full-space code and the kernel contracts (discharged on the code as support of this check) are unchanged by a vertical shift and change by the stated sign under a mirror, '
            'for every stack, source and receiver layer, and component'),
    'C05': (FEM, 'fem adds the direct field exactly when it was taken out of the kernel, for every model, offset and frequency'),
    'C06': (FEM + TEM + DIPOLE_NOHOOK + BIPOLE + LOOP, 'fem, tem, dipole and bipole are point-wise: an entry depends on its own frequency (column), offset, source and receiver only, for any loop'),
    'C07': (FULL + ANAF, 'kernel.fullspace for every medium, offset and depth: vertical sources from their potential, vertical receivers by reciprocity, Maxwell equations for all '
            'sources and components, isotropic closed form; analytical returns it entry by entry'),
    'C08': (HALF + ANAD, 'kernel.halfspace for every medium, geometry and component: total = direct + reflected + airwave, each TE + TM, in whatever form; switch-off = late-time value '
            'minus switch-on; impulse = time derivative of switch-on and inverse Laplace transform of the frequency-domain response (direct and reflected TE/TM; the airwave of these two bounded); analytical returns the parts of kernel.halfspace entry by entry'),
    'C22': (DIPK, 'dipole_k combines the three kernels of wavenumber, offset by offset and wavenumber by wavenumber'),
    'C26': (IPQ, 'ip_and_q combines the secondary and the primary field of dipole as stated'),
    'C09': (CHECK_AB, 'check_ab for every integer code'),
    'C10': (CHECK_FREQ + DIPOLE + ANAF, 'check_frequency entry by entry, and the use of hook functions by dipole and analytical'),
    'C11': (MODEL, 'check_model for every list of interfaces (none, one, several; increasing or decreasing; infinite ends or not), parameter vectors and hook dictionaries: same physical stack, '
            'parameters stay with their layers, defaults, homogeneous flag; interfaces in neither order and vectors of the wrong length are refused'),
    'C12': (LAYER, 'get_layer_nr for every stack of layers and every depth or vector of depths'),
    'C13': (ANGLE + DIPOLE_NOHOOK, 'offsets and angles of every source-receiver pair, the angle factor of every component, and which offset and angle reach which entry of dipole'),
    'C25': (MINIMA, 'set_minimum and get_minimum, and the replacement of values below a minimum by it'),
    'C14': (GEO + GETABS + AZMDIP + BIPOLE, 'the weight of every component is the product of the direction cosines, a component is left out only where this vanishes for all poles, and bipole '
            'sums weight times response over the components'),
    'C15': (AZMDIP + BIPOLE, 'the integration points and weights are the Gauss-Legendre rule along the wire (or its centre), the strength and length factors, and bipole is the weighted sum over '
            'the points of source and receiver'),
    'C16': (DIPOLE_NOHOOK + ANAF + ANAD + BIPOLE_ALL + POLES + GPR, 'the layout of dipole, analytical, bipole and gpr: entry [frequency/time, receiver, source]'),
    'C17': (BIPOLE_FLUX + SAME, 'bipole multiplies every response with the medium parameters at its own frequency and at the layers of its own source and receiver; loop hands everything it is '
            'given, under the same names, to bipole with a flux source in one point, and hands back its result'),
    'C29': (FILES, 'what save_data and save_input write is what load_data and load_input give back: any numbers, data of the listed lengths of the three axes, '
            'real or complex, both kinds of file, with or without a note; input of the listed structures; other extensions and dimensions are refused and nothing is written'),
    'C30': (CLI, 'the command line hands the input as loaded, with squeeze=False, to the routine asked for, and saves or prints the result; without routine or input, or asked for version or '
            'report, nothing is computed, read or written'),
    'C18': (DLF, 'dlf is the filter-weighted sum (standard), the spline of it (lagged) or of the kernel (splined) for every filter, kernel, offset/time vector and angle pattern; '
            'get_dlf_points covers every abscissa; hankel_dlf and fourier_dlf hand over the right arrays'),
    'C19': (FEM + TEM + QUADS + DIPOLE_NOHOOK + GPR, 'fem and tem report convergence exactly if every transform converged; hankel_quad exactly if every offset converged; quad never reports convergence when a real part of '
            'any kernel failed; fourier_qwe (two intervals, one or two times) integrates each time by itself by quad or by extrapolation, and its flag collects all; qwe (two to four intervals, any number of '
            'offsets and values) extrapolates each offset by itself and is converged only if two estimates in a row agreed for every one; dipole hands these flags to conv_warning, which prints exactly if one is false and verbosity is above zero'),
    'C23': (PURE, 'every argument of the functions under contract (arrays, lists, dictionaries, nested) is left as it was on every path, for every verbosity, and no module-level name is rebound'),
    'C24': (POLES + SOLUTION + LOOP + KWARGS + HANKEL + TIME + REFUSED + WAVEFORM[-2:], 'check_dipole, check_bipole, check_solution, check_loop, get_kwargs, check_hankel, check_time_only, check_time, check_ab, check_model, ip_and_q: '
            'refused exactly when the arguments do not fit, whatever the sizes, values and names; otherwise handed on as given (or the default); a report exactly if an option is of no use and verbosity is above zero'),
    'C27': (LIBRARY, 'a filter written and read back has the same base, coefficients and factor, for any values and lengths, names of file and directory, and the sets of coefficients listed; a '
            'filter of a library wrapper holds the data of the library under the right names and is the same object on every access, for the sequences of accesses listed, whatever the data'),
    'C28': (EMARRAY, 'EMArray(data), amp and pha for arrays with up to three axes of any lengths, real or complex, and every combination of options; the data are left as they were'),
    'C20': (TEM + TIME + FFTS, 'check_time hands on the signal, the frequencies and the sine or cosine variant that belong to it; tem: column independence, signal factors and the real factor 2/pi; fourier_fft and fourier_fftlog (up to eight frequencies, all values and options): real-linear in the response, every '
            'time by itself, the sine transform from the imaginary and the cosine transform from the real part'),
    'C21': (TEM + WAVEFORM, 'check_waveform: the result of the waveform applied to any response is the sum over the segments of slope times the Gauss-Legendre sum of the response over the part of the segment before the time (1 to 3 segments with arbitrary nodes and currents, any number of times, offsets and quadrature points; refusals); tem hands each transformed column to the waveform'),
}
SUPPORT = {'C11': dict(support=MINIMA), 'C31': dict(support=TMTE_SUP), 'C02': dict(support=KERNEL+LAYER), 'C03': dict(support=KERNEL), 'C04': dict(support=KERNEL+LAYER+[('uspec', 'unit_off_ang')]), 'C05': dict(support=GREEN), 'C09': dict(support=WAVE)}
RT = 'contract evaluation on the real code, bounded (random models, replayable inputs)'


def bounded(pid, note, done='', **kw):
    if kw.get('units'):
        prop(pid, 'other', TECH, 'Discharged for all inputs: %s. Bounded contract evaluation for the rest: %s' % (done, note), **kw)
    else:
        prop(pid, 'other', 'bounded contract evaluation of the real functions', 'BOUNDED, not proved: '+note, **kw)


for _p, _n in {
    'C02': 'relation between a model and the same model with fictitious interfaces, on random models.',
    'C03': 'relation between a response and its reciprocal one, on random models.',
    'C04': 'relation between translated/mirrored/re-ordered experiments, on random models.',
    'C05': 'direct + secondary = total, on random models and all settings.',
    'C06': 'responses computed together/alone/in another order/with another loop, on random experiments.',
    'C07': 'full-space solution against an independent closed form, on random media.',
    'C08': 'partition and signal identities of the half-space solution, on random geometries.',
    'C09': 'all 36 codes and other integers; fields against the closed form.',
    'C10': 'admittivity/impedivity against their formula, hooks.',
    'C11': 'normalisation of model input against a written-out specification.',
    'C12': 'layer lookup against its specification.',
    'C13': 'offsets, angles and angle factors against their specification.',
    'C14': 'oriented dipoles against the nine axis-aligned ones.',
    'C15': 'finite bipoles against the weighted sum of dipoles.',
    'C16': 'every entry of the returned array against the single response.',
    'C17': 'flux/current-density quantities against field times medium.',
    'C18': 'DLF against the written-out sum; grids of the lagged/splined variants.',
    'C19': 'flags with stand-in integrands that fail to converge in chosen parts.',
    'C20': 'linearity, column independence and signal factors, random responses.',
    'C21': 'waveforms against the integral over segments.',
    'C22': 'wavenumber-domain routine transformed against the space-domain routine.',
    'C23': 'arguments before/after, histories of calls, verbosity levels.',
    'C24': 'refusals and reports, sampled from classes of invalid input.',
    'C25': 'thresholds and sequences of settings.',
    'C26': 'ratio against separately modelled secondary and primary fields.',
    'C27': 'all library filters; random user filters written and read.',
    'C28': 'amplitude and phase of random arrays.',
    'C29': 'round trips of random input and data.',
    'C30': 'command line against library calls.',
    'C31': 'TM/TE parts against the total field.'}.items():
    _u, _d = UNITS.get(_p, ((), ''))
    bounded(_p, _n, _d, units=_u, **SUPPORT.get(_p, {}))

NA['C32'] = ('accuracy of a quadrature or digital filter for every admissible kernel is a statement of approximation theory over function classes; '
             'no pre/postcondition over the code within reach of a deductive verifier expresses it (what the transforms compute exactly is C18-C21)')
NA['C33'] = ('the winner of a least-squares design over a grid is decided by floating-point conditioning of linear systems; a contract would have to '
             'restate the floating-point solver, and the exact-arithmetic statement is not what the code can guarantee')
