PROPERTY = 'P16'
NEEDS = """Two particles with a scaled separation between 2.15 and 2.2."""
BREAKS = """The repulsion stops at a shorter range than documented."""
EDITS = [('stokesian_dynamics/setups/functions_inputs.py', '    cutoff = 2.2', '    cutoff = 2.15')]
DEMO = r"""
setup()
from setups.functions_inputs import repulsion_forces
x, none = np.array([[0., 0, 0], [0, 0, 2.17]]), np.array([]).reshape(0, 3)
F = np.zeros((2, 3))
out = repulsion_forces(50, 20, 2, 0, x, none, none, np.array([1., 1.]),
                       np.array([]), 0, F, np.array([]), np.array([]))
f = np.linalg.norm(np.asarray(out[0], float), axis=1)
close(f, [50*np.exp(-20*0.17)]*2, 'repulsion of separated spheres', 1e-6)
"""
