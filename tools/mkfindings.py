"""Writes known_findings.json (genuine defects of the pinned tree: recorded or repaired)."""
import json, os, subprocess
FIXED = [   # (property, commit subject, what failed)
 ('C22', 'dipole_k: use the computed', 'wavenumber-domain fields of magnetic components used angle factor and 1/offset of another component'),
 ('C24', 'gpr: apply no gain', 'gpr(gain=None), the default, raised'),
 ('C24', "check_hankel: refuse strings", "any substring of 'quad' was accepted as Hankel method"),
 ('C15', 'bipole: apply negative', 'negative source strengths were silently not applied'),
 ('C23', 'fourier_fftlog: do not', 'fourier_fftlog modified the input field'),
 ('C23', 'qwe: do not', 'qwe modified the input array'),
 ('C08', 'analytical: accept lists', 'diffusive analytical solutions raised for several frequencies'),
 ('C07', 'fullspace: magnetic-magnetic', 'full-space magnetic-magnetic fields wrong in the Laplace domain and for zero electric permittivity'),
 ('C23', '_strvar: print arrays', 'verbosity above two raised for two-dimensional arrays'),
 ('C20', 'fourier_qwe: node sum', 'fourier_qwe added the quadrature nodes of all intervals'),
 ('C23', 'hankel_qwe, hankel_quad: real', 'Laplace-domain fields with qwe/quad were cast to complex or raised'),
 ('C31', 'tmtemod: parts measured', 'TM/TE parts depended on the vertical origin'),
 ('C30', '__main__: decide on', 'the command line looked at sys.argv instead of its arguments'),
 ('C29', 'load_data: keep infinite', 'complex data with an infinite part came back as nan'),
 ('C08', 'analytical: ignore displacement', 'diffusive analytical solutions depended on the electric permittivities'),
 ('C24', 'check_time_only: non-integer', 'non-integer signals were truncated'),
 ('C24', 'check_waveform: unknown', 'unknown signals of a waveform were accepted'),
 ('C21', 'check_waveform: amplitudes', 'amplitudes not matching the nodes were accepted'),
 ('C18', 'dlf: lagged and splined', 'lagged/splined DLF failed without angle factors'),
 ('C23', 'quad: do not modify', 'transform.quad wrote into the dictionary with its options'),
 ('C23', 'get_kwargs: do not', 'get_kwargs removed the wanted parameters from the dictionary of the caller'),
 ('C26', 'ip_and_q: co-planar', 'ip_and_q with ab given as string used a wrong primary field'),
 ('C19', 'qwe: converged elements', 'an element whose tolerances were met at the first comparison was returned as exactly zero, later ones with the estimate before'),
 ('C08', 'halfspace: sign', 'direct and reflected TE parts straight above or below the source had the wrong sign'),
 ('C08', 'halfspace: impulse', 'impulse response of the airwave straight above or below the source was NaN'),
]
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
out = [dict(property='C19', oracle='quad_flag_imag', inputs={'call': 'transform.quad', 'failing': 'imaginary part only'}, what='', status='open',
            describe='transform.quad reports convergence when only the imaginary part of an integral fails to converge (`(len(re) or len(im)) > 3`); '
                     'not repaired: the existing test test_transform::test_hankel[qwe] requires the flag as it is')]
for p, s, w in FIXED:
    key = s.split()
    c = [h for h, m in log if m.startswith('fix:') and all(k in m for k in key)]
    assert len(c) == 1, (s, c)
    out.append(dict(property=p, status='fixed', commit=c[0], what=w, line='fixed: property=%s %s %s' % (p, c[0], w)))
assert len(FIXED) == sum(m.startswith('fix:') for _, m in log)
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
