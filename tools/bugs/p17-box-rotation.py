PROPERTY = 'P17'
NEEDS = """Oscillatory shear in the top-down plane with the transposed direction."""
BREAKS = """The accumulated rotation of the box ignores the transposed direction, so it is not the integral of the vorticity."""
EDITS = [('stokesian_dynamics/setups/functions_inputs.py', '        Ot_infinity = np.array([0, 0, opposite_minus*transpose_minus*-0.5*gamma])', '        Ot_infinity = np.array([0, 0, opposite_minus*-0.5*gamma])')]
DEMO = r"""
setup()
from setups.functions_inputs import oscillatory_shear
kw = dict(unused_axis=2, transpose_shear=True)
f = lambda t: oscillatory_shear(0.5, 4, t, 1., **kw)
h = 1e-5
rate = (np.array(f(0.7 + h)[4]) - np.array(f(0.7 - h)[4]))/(2*h)
close(rate, f(0.7)[2], 'rate of the accumulated rotation', 1e-6)
"""
