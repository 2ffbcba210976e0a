"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


K, T, M, U = ('empymod/kernel.py', 'empymod/transform.py', 'empymod/model.py',
              'empymod/utils.py')

p('C01', 'Layered-earth kernel equals the closed-form solution',
  'For every stack of VTI layers (any number of layers, thicknesses, parameters), every source and receiver depth, every supported source/receiver component, frequency and wavenumber, the wavenumber-domain response returned by the kernel equals the closed-form solution of Maxwell\'s equations for that stack (global reflection coefficients, up/down-going fields, TM/TE Green\'s functions, J0/J1 grouping). The direct field is contained in it exactly when it is requested in the wavenumber domain.',
  ['inputs'], 'all layer counts N>=1, all source/receiver layers, all 34 non-zero component codes, all complex layer parameters, all array sizes',
  'The tests compare a few stored 1-5 layer models; the layer-index arithmetic (first/last/adjacent/distant layers, above/below, TM/TE, magnetic swap) has combinations no stored model reaches.',
  [K], [('wavenumber', K + ':wavenumber'), ('greenfct', K + ':greenfct'), ('reflections', K + ':reflections'), ('fields', K + ':fields')],
  ['empymod.kernel.wavenumber', 'empymod.dipole_k', 'empymod.dipole'])

p('C02', 'Fictitious interfaces change nothing',
  'Splitting any layer of a model into two layers with identical parameters, at any depth and any number of times (also at source or receiver depth), leaves every modelled response unchanged. A model whose layers are all identical gives the response of the homogeneous full space.',
  ['inputs', 'configurations'], 'all models, all split positions relative to source/receiver, all components',
  'Needs every position of the extra interface relative to source, receiver and stack ends; tests hold at most one such model.',
  [K, U, M], [('reflections/fields recursion', K + ':reflections'), ('layer lookup', U + ':get_layer_nr'), ('full-space detection', U + ':check_model')],
  ['empymod.dipole', 'empymod.bipole', 'empymod.kernel.wavenumber'])

p('C03', 'Source-receiver reciprocity',
  'Interchanging source and receiver (positions and components) leaves the frequency-domain field unchanged for electric-electric and magnetic-magnetic pairs and flips its sign for mixed electric-magnetic pairs. This holds for layered models, for the analytical full space, and for arbitrarily oriented dipoles.',
  ['inputs'], 'all models, positions, component pairs and frequencies',
  'A relation between two executions over all models; tests check stored numbers of single executions.',
  [K, U, M], [('magnetic-receiver swap', K + ':greenfct'), ('component transposition', U + ':check_ab'), ('full-space solution', K + ':fullspace')],
  ['empymod.dipole', 'empymod.bipole', 'empymod.analytical'])

p('C04', 'Invariance to vertical origin, horizontal position and depth ordering',
  'Moving the whole experiment (interfaces, sources, receivers) vertically or horizontally by a constant leaves every response unchanged. Listing the interfaces downwards or upwards (with parameters listed accordingly) is a pure change of coordinates: mirroring the experiment in a horizontal plane changes each component only by the sign its vertical/axial parts dictate.',
  ['inputs', 'configurations'], 'all models, shifts, mirror images and components',
  'Relational over pairs of executions and all layer configurations.',
  [K, U, M], [('depth normalisation', U + ':check_model'), ('layer lookup', U + ':get_layer_nr'), ('interface-relative distances', K + ':fields')],
  ['empymod.dipole', 'empymod.bipole'])

p('C05', 'Direct plus secondary field is the total field',
  'The response with the direct field excluded plus the analytical direct field of the source layer equals the total response computed with the direct field in the frequency domain; with the direct field in the wavenumber domain the kernel differs from the excluded one by exactly the direct-field term. When source and receiver lie in different layers the direct-field option has no effect on the result.',
  ['inputs', 'configurations'], 'all models, source/receiver layers, components and the three direct-field settings',
  'Tests use one or two models per setting; gating by layer equality, full-space detection and setting has many combinations.',
  [M, K], [('fem', M + ':fem'), ('greenfct direct field', K + ':greenfct'), ('fullspace', K + ':fullspace')],
  ['empymod.dipole(xdirect=...)', 'empymod.bipole(xdirect=...)'])

p('C06', 'Frequencies, offsets, sources and receivers are independent of each other',
  'With a point-wise transform (standard DLF), the value returned for one frequency, one source and one receiver is the same whether it is computed alone or together with any others, in any order, and whichever loop option (None, off, freq) is chosen.',
  ['inputs', 'configurations'], 'all batches, orders and loop settings',
  'Quantifies over all batch sizes and mixtures; tests compare a couple of loop settings.',
  [M, K, T], [('fem loops', M + ':fem'), ('array kernels', K + ':wavenumber'), ('filter product', T + ':dlf'), ('time loop', M + ':tem')],
  ['empymod.dipole', 'empymod.bipole', 'empymod.model.fem', 'empymod.model.tem'])

p('C07', 'Analytical full-space field equals the closed-form dipole field',
  'For every offset, depth difference, VTI parameters, frequency and component the analytical full-space solution equals the closed-form field of a unit dipole in that medium, including its duality (electric/magnetic interchange), its symmetry under rotation about the vertical and its parity.',
  ['inputs'], 'all positions, parameters, frequencies and all component codes',
  'Tests compare a handful of stored fields, each component at one geometry.',
  [K, M], [('fullspace', K + ':fullspace'), ('analytical', M + ':analytical')],
  ['empymod.analytical', 'empymod.kernel.fullspace'])

p('C08', 'Diffusive half-space solution: its parts and signals are consistent',
  'The half-space total equals the sum of its direct, reflected and airwave parts, and the direct and reflected parts equal the sums of their TE and TM parts, for every component and signal. The switch-off response is the late-time (DC) value minus the switch-on response, the impulse response is the time derivative of the switch-on response, and no part depends on which form of output was requested. The special case straight above or below the source is the limit of its surroundings.',
  ['inputs', 'configurations'], 'all geometries, component codes, signals and output forms',
  'Tests store some values for some components/signals; the partition identity is over all.',
  [K, M], [('halfspace', K + ':halfspace'), ('analytical', M + ':analytical')],
  ['empymod.analytical(solution=...)', 'empymod.kernel.halfspace'])

p('C09', 'Component codes select the right field and invalid ones are refused',
  'Each two-digit component code (receiver digit, source digit; 1-3 electric, 4-6 magnetic) selects the corresponding field: magnetic/electric flags follow the digits, and the internally computed component together with the sign/duality rules gives that field. Every other code is refused with an error, and codes that are identically zero return zero.',
  ['inputs'], 'all integers as component code',
  'Tests try a few codes; the mapping is over all 36 codes and all refusals.',
  [U, M, K], [('check_ab', U + ':check_ab'), ('zero short-cut', M + ':fem')],
  ['empymod.utils.check_ab', 'empymod.dipole'])

p('C10', 'Material parameters and frequency map to admittivity and impedivity',
  'For every layer and frequency the admittivity is 1/res + s*eps0*epermH horizontally and 1/(res*aniso^2) + s*eps0*epermV vertically, and the impedivity is s*mu0*mpermH / s*mu0*mpermV, with s = 2j*pi*f for frequencies and s = |value| for Laplace parameters. User-supplied hooks for either replace exactly that quantity.',
  ['inputs', 'configurations'], 'all layer parameters, frequencies, Laplace values, hook combinations',
  'Tests hold single models; mixing of H/V, epsilon/mu, Laplace/frequency is over all.',
  [U, M], [('check_frequency', U + ':check_frequency'), ('hooks', M + ':dipole')],
  ['empymod.utils.check_frequency', 'empymod.dipole'])

p('C11', 'Model input is normalised faithfully or refused',
  'Interfaces given in increasing or decreasing order, with or without the infinite bounds, describe the same layers with the parameters attached to the same layer; omitted parameters mean isotropic/unit values, and omitted vertical values mean the horizontal ones. Non-monotonic interfaces and parameter vectors of the wrong length are refused, and a model counts as homogeneous exactly when every parameter is equal in all layers.',
  ['inputs', 'configurations'], 'all layer counts, orders, bounds and parameter subsets',
  'Combinatorial in order x bounds x parameter presence; tests sample few.',
  [U], [('check_model', U + ':check_model')], ['empymod.utils.check_model', 'empymod.dipole'])

p('C12', 'Every depth belongs to exactly one layer',
  'Every finite source or receiver depth is assigned to exactly one layer: the one that contains it, and on an interface always the upper one. Any number of depths is assigned element by element.',
  ['inputs'], 'all depths and all interface vectors',
  'Quantifies over all models and depths including exact interface values.',
  [U], [('get_layer_nr', U + ':get_layer_nr')], ['empymod.utils.get_layer_nr'])

p('C13', 'Offsets, angles and angle factors follow the geometry',
  'For every pair of source and receiver the horizontal offset and azimuth are those of the vector from source to receiver, stored source-major with receivers varying fastest, the offset raised to the configured minimum only. The angle factor of each component is the sine or cosine of the (double) azimuth its field equation prescribes, with sign reversed geometry for magnetic receivers of electric sources.',
  ['inputs'], 'all source/receiver sets and component codes',
  'Layout and sign errors show only for particular source/receiver counts, quadrants or components.',
  [U, K], [('get_off_ang', U + ':get_off_ang'), ('angle_factor', K + ':angle_factor')],
  ['empymod.utils.get_off_ang', 'empymod.kernel.angle_factor'])

p('C14', 'Arbitrary orientations are the vector combination of axis dipoles',
  'The response of a source and a receiver of any azimuth and dip equals the sum of the nine axis-aligned responses weighted with the direction cosines of source and receiver. Components skipped as unnecessary are exactly ones whose weight is zero.',
  ['inputs'], 'all azimuths and dips (also negative, beyond 360 degrees, vectors of mixed angles), electric and magnetic ends',
  'The skipping rule depends on exact multiples of 90 degrees in vectors; tests try few angles.',
  [U, M], [('get_abs', U + ':get_abs'), ('get_geo_fact', U + ':get_geo_fact'), ('bipole', M + ':bipole')],
  ['empymod.bipole', 'empymod.utils.get_abs', 'empymod.utils.get_geo_fact'])

p('C15', 'Finite-length bipoles integrate dipoles along the wire',
  'The field of a finite bipole is the Gauss-Legendre average of point dipoles located on the segment between its two end points with the segment\'s direction (fewer than three points: the dipole at its centre). A zero strength gives the normalised field; any other strength scales it with current, source length and receiver length, independently for every source and receiver.',
  ['inputs', 'configurations'], 'all end points, point counts, strengths, single and multiple bipoles at equal or different depths',
  'Weights, ravel order and per-bipole slicing interact with the number of points, poles and depths.',
  [U, M], [('get_azm_dip', U + ':get_azm_dip'), ('bipole integration loops', M + ':bipole')],
  ['empymod.bipole', 'empymod.utils.get_azm_dip'])

p('C16', 'Output layout: frequency/time x receiver x source',
  'Without squeezing, every modelling routine returns an array of shape (frequencies or times, receivers, sources) whose entry [i, r, s] is the response for the i-th frequency/time, r-th receiver and s-th source, for every combination of equal and different depths, dipoles and finite bipoles. Squeezing only removes axes of length one.',
  ['inputs', 'configurations'], 'all counts of frequencies, receivers, sources and depth groupings',
  'Four assembly branches depend on how many depths occur; tests compare a few configurations.',
  [M, U], [('assembly', M + ':bipole'), ('reshape', M + ':dipole'), ('check_bipole', U + ':check_bipole')],
  ['empymod.bipole', 'empymod.dipole', 'empymod.analytical'])

p('C17', 'Magnetic-flux and current-density quantities scale by the medium at that end',
  'A magnetic-flux receiver (or loop source) response equals the magnetic-field (dipole) response times the horizontal impedivity of the layer the receiver (source) lies in, and a current-density receiver response equals the electric field times the horizontal admittivity of the receiver layer, per frequency. The deprecated loop routine returns the same as the general routine with a flux source.',
  ['inputs', 'configurations'], 'all layers, frequencies, quantities and combinations, multiple depths',
  'Which layer and which end supplies the factor matters only with contrasts and several depths.',
  [M, U], [('bipole scaling', M + ':bipole'), ('check_bipole types', U + ':check_bipole')],
  ['empymod.bipole', 'empymod.loop'])

p('C18', 'Digital-linear-filter transforms apply the filter exactly',
  'The standard filter method returns, for every output point, the filter-weighted sum of the kernel at base/point divided by the point (J0, J1, angle-dependent parts and 1/offset where the component needs it; sine or cosine for time). The lagged and splined methods evaluate the kernel on a grid that covers every abscissa they interpolate at, agree with the standard method at grid points, and treat each offset with its own angle.',
  ['inputs', 'configurations'], 'all filters, offset/time vectors, components, angle patterns and sampling densities',
  'Grid coverage depends on the ratio of extreme offsets; wrong sums show only for particular component/angle patterns.',
  [T], [('dlf', T + ':dlf'), ('get_dlf_points', T + ':get_dlf_points'), ('hankel_dlf', T + ':hankel_dlf'), ('fourier_dlf', T + ':fourier_dlf')],
  ['empymod.transform.dlf', 'empymod.transform.get_dlf_points', 'empymod.dipole'])

p('C19', 'Adaptive quadratures report non-convergence',
  'Whenever an adaptive quadrature (QWE or QUAD, Hankel or Fourier) stops without meeting its tolerances for any frequency, offset, time or part (real, imaginary, any Bessel order), the convergence flag returned is false and, at verbosity above zero, a warning is printed; one converged element never hides another that did not converge. An element marked as converged carries the estimate for which the tolerances were met.',
  ['inputs', 'histories'], 'all combinations of converged and unconverged parts',
  'Non-convergence of single parts is rare; tests force only all-at-once cases.',
  [T, M, U], [('quad', T + ':quad'), ('qwe', T + ':qwe'), ('flag accumulation', M + ':fem'), ('conv_warning', U + ':conv_warning')],
  ['empymod.transform.quad', 'empymod.transform.qwe', 'empymod.dipole'])

p('C20', 'Time-domain responses: signal type, linearity and column independence',
  'The time-domain response is a real-linear function of the frequency response, computed column by column with each column depending on its own frequency response only. Impulse, switch-on and switch-off differ only by the factors 1, 1/(i w), -1/(i w) on the frequency response and by the sine/cosine choice belonging to the signal; every returned time is a requested time.',
  ['inputs', 'configurations'], 'all frequency responses, signals, transforms, column counts',
  'Linearity/independence are relations over all responses.',
  [M, T, U], [('tem', M + ':tem'), ('fourier_*', T), ('check_time', U + ':check_time')],
  ['empymod.model.tem', 'empymod.dipole(signal=...)'])

p('C21', 'Arbitrary waveforms are the superposition of their linear segments',
  'For a piecewise-linear current waveform the response at each time is the sum, over the segments that started before that time, of the segment\'s slope times the integral of the switch-on response (of the chosen kind) over the delays between that time and the elapsed part of the segment (from its start to its end, or to that time if it has not ended); segments in the future and constant segments contribute nothing. The result does not depend on the order or number of requested times.',
  ['inputs'], 'all waveforms, node positions relative to times, signals, quadrature orders',
  'Depends on the position of every node relative to every time.',
  [U, M], [('check_waveform', U + ':check_waveform'), ('tem waveform', M + ':tem')],
  ['empymod.utils.check_waveform', 'empymod.dipole(signal={...})'])

p('C22', 'Wavenumber-domain modelling matches the space-domain modelling',
  'The wavenumber-domain responses of the public routine, transformed with Bessel functions of order 0 and 1, give the space-domain response of the same experiment for every component code, electric or magnetic.',
  ['inputs'], 'all 36 component codes, angles, offsets, models',
  'The two routines assemble angle factor and 1/offset separately; tests compare one component.',
  [M, K, T], [('dipole_k', M + ':dipole_k'), ('angle_factor', K + ':angle_factor')],
  ['empymod.dipole_k', 'empymod.dipole'])

p('C23', 'Calls are pure: arguments untouched, results independent of history',
  'No modelling or utility routine modifies the arrays, lists or dictionaries a caller passes in, and repeating a call after any other calls returns the same result. Verbosity changes only what is printed, never what is returned.',
  ['inputs', 'histories', 'configurations'], 'all call sequences, argument containers and verbosity levels',
  'Aliasing shows only for particular containers/dtypes; tests do not compare arguments before and after.',
  [U, M, T, K], [('defensive copies', U + ':_check_var'), ('deepcopy of argument dicts', U + ':check_hankel'), ('kernel', K)],
  ['all public functions'])

p('C24', 'Invalid input is refused, unknown options are reported',
  'Input of the wrong shape, an unknown transform, signal, solution, filter without needed parts, point bipoles, or an unexpected keyword is refused with an error before anything is computed, and never silently reinterpreted. Valid input is never refused; options not used by the chosen method produce a warning at verbosity above zero.',
  ['inputs', 'configurations'], 'all argument shapes and option names',
  'Infinite input space; tests try a few invalid values each.',
  [U, M], [('check_*', U), ('get_kwargs', U + ':get_kwargs'), ('check_solution', U + ':check_solution')],
  ['empymod.utils.check_*', 'public routines'])

p('C25', 'Minimum values clamp exactly the offending entries',
  'Frequencies, times, offsets, resistivities and anisotropies below the configured minimum are replaced by that minimum, all others are left as they are, and a warning is printed at verbosity above zero. Setting minima changes exactly the given ones, and the getter returns what was set.',
  ['inputs', 'histories'], 'all values, thresholds and sequences of settings',
  'Sequences of set/get and boundary values are not covered.',
  [U], [('_check_min', U + ':_check_min'), ('set_minimum/get_minimum', U + ':set_minimum')],
  ['empymod.set_minimum', 'empymod.get_minimum'])

p('C26', 'In-phase and quadrature are the scaled secondary-to-primary ratio',
  'In-phase and quadrature are the real and imaginary parts of scale times the secondary field divided by the primary field, the primary being the co-planar component of the same source direction in a full space with the first layer\'s parameters; an xdirect given by the caller has no effect. Non-magnetic components and time-domain requests are refused.',
  ['inputs', 'configurations'], 'all nine magnetic component codes, models, scales and geometries',
  'Tests cover few components; primary component selection is per code.',
  [M], [('ip_and_q', M + ':ip_and_q')], ['empymod.ip_and_q'])

p('C27', 'The filter library is faithful, cached and round-trips',
  'Every named filter provides base, factor and coefficient vectors of equal length with base values in geometric progression of that factor, is identical on every access, and a filter written to disk and read back is the same filter.',
  ['inputs', 'histories'], 'all library filters, all access sequences, all user filters written and read',
  'Tests check a few filters; the claim is over all of them and all user filters.',
  ['empymod/filters.py'], [('DigitalFilter', 'empymod/filters.py:DigitalFilter'), ('cached accessors', 'empymod/filters.py')],
  ['empymod.filters.Hankel', 'empymod.filters.Fourier', 'empymod.filters.DigitalFilter'])

p('C28', 'Amplitude and phase of results',
  'Amplitude is the modulus and phase the argument of each entry, lag-defined by default and lead-defined on request, in radians or degrees, unwrapped along the data on request; neither changes the data nor its shape.',
  ['inputs'], 'all complex arrays and option combinations',
  'Tests check a couple of values.',
  [U], [('EMArray', U + ':EMArray')], ['empymod.utils.EMArray'])

p('C29', 'Saved input and data load back unchanged',
  'Modelling input written to disk loads back with the same values: numbers, strings, booleans, nested dictionaries, lists and real arrays of any shape (arrays come back as lists, filter objects as their names), infinite depths included. Data written to disk, real or complex and of any three-dimensional shape, load back with every entry exactly preserved (also infinities), in text and in JSON format. Other extensions are refused.',
  ['inputs'], 'all inputs and arrays within the documented types',
  'Tests round-trip one example.',
  ['empymod/io.py'], [('save_input/load_input', 'empymod/io.py'), ('save_data/load_data', 'empymod/io.py')],
  ['empymod.io.save_input', 'empymod.io.save_data'])

p('C30', 'The command line computes what the library computes',
  'Running a routine through the command-line interface with an input file writes exactly the data that calling that routine with the same arguments returns, for each of the routines offered.',
  ['inputs', 'configurations'], 'all routines and input files',
  'Tests run one or two examples through the command line.',
  ['empymod/__main__.py', 'empymod/io.py'], [('run', 'empymod/__main__.py:run'), ('main', 'empymod/__main__.py:main')],
  ['empymod command'])

p('C31', 'TM/TE split adds up to the total field',
  'The upgoing/downgoing TM and TE parts returned by the TM/TE splitting add-on sum up, with their direct-field parts, to the total electric field of the same model when source and receiver lie in the same layer; no part depends on the vertical origin; and requests outside that scope are refused.',
  ['inputs', 'configurations'], 'all layered models, layers and geometries with source and receiver in the same layer',
  'Tests compare one model.',
  ['empymod/scripts/tmtemod.py'], [('dipole', 'empymod/scripts/tmtemod.py:dipole'), ('greenfct', 'empymod/scripts/tmtemod.py:greenfct'), ('fields', 'empymod/scripts/tmtemod.py:fields')],
  ['empymod.scripts.tmtemod.dipole'])

p('C32', 'Transforms are numerically accurate',
  'The Hankel and Fourier transforms (DLF filters, QWE, QUAD, FFTLog, FFT) and the inverse Laplace (Gaver-Stehfest) evaluation approximate the exact integrals within their stated tolerance for every admissible kernel.',
  ['inputs'], 'all kernels and points',
  'Accuracy is an analytic statement over function classes.',
  [T, 'empymod/filters.py'], [('transforms', T)], ['empymod.dipole'])

p('C33', 'Designed filters are the best of the searched grid',
  'The filter-design add-on returns, for the requested spacing/shift grid, the filter with the best target value among all grid points whose coefficients solve the stated least-squares/linear system, with base points in geometric progression of the reported spacing.',
  ['inputs', 'configurations'], 'all grids, transform pairs and criteria',
  'Tests reproduce one or two designs.',
  ['empymod/scripts/fdesign.py'], [('design', 'empymod/scripts/fdesign.py:design'), ('_calculate_filter', 'empymod/scripts/fdesign.py'), ('_get_min_val', 'empymod/scripts/fdesign.py')],
  ['empymod.scripts.fdesign.design'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    print(len(P))
