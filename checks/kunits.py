from registry import prop
AB_CALC = (11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35)
FLAGS = ((False, False), (False, True), (True, True))     # (msrc, mrec) of a component code; (True, False) computes like (False, False)
REFL = [('kspec', 'reflections_case', k) for k in range(6)]
FIELDS = [('kspec', 'fields_case', TM, k) for TM in (True, False) for k in range(3)]
GREEN = [('kspec', 'verify_greenfct', ab, ms, mr, xd) for ab in AB_CALC for ms, mr in FLAGS for xd in (True, False)]
WAVE = [('kspec', 'verify_wavenumber', ab, False, m, True) for ab in AB_CALC for m in (True, False)]
KERNEL = REFL + FIELDS + GREEN + WAVE

prop('C01', 'proof', 'contracts on kernel.reflections/fields/greenfct/wavenumber, inductive layer-loop invariants, discharged by symbolic execution + normal form + z3',
     'All four kernel functions are verified against the closed-form specification for every number of layers, every source/receiver layer, all 17 internal components '
     'and flag combinations; exact arithmetic. The specification itself is evaluated against the running code with random models.', KERNEL)
