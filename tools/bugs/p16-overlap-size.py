PROPERTY = 'P16'
NEEDS = """Two overlapping particles of unequal sizes (separation below the sum of radii)."""
BREAKS = """The repulsion between overlapping particles uses the size of one of them instead of the harmonic mean."""
EDITS = [('stokesian_dynamics/setups/functions_inputs.py', '        else:\n            repulsion_force_length += strength*(2.*a1*a2/(a1+a2))', '        else:\n            repulsion_force_length += strength*a1')]
DEMO = r"""
setup()
from setups.functions_inputs import repulsion_forces
x, none = np.array([[0., 0, 0], [0, 0, 1.05]]), np.array([]).reshape(0, 3)
F = np.zeros((2, 3))
out = repulsion_forces(50, 20, 2, 0, x, none, none, np.array([1., 0.1]),
                       np.array([]), 0, F, np.array([]), np.array([]))
f = np.linalg.norm(np.asarray(out[0], float), axis=1)
close(f, [50*0.2/1.1]*2, 'repulsion of overlapping spheres', 1e-6)
"""
