PROPERTY = 'P05'
NEEDS = """Periodic box; strain/stresslet (or torque/strain) coupling with finite-size corrections."""
BREAKS = """A coefficient of the fifth derivative of erfc in the real-space lattice sum is wrong."""
EDITS = [('stokesian_dynamics/functions/generate_Minfinity_periodic.py', '4*lamb**4*s**4-12*lamb**2*s**2+3', '4*lamb**4*s**4-10*lamb**2*s**2+3')]
DEMO = r"""
setup({'how_far_to_reproduce_gridpoints': 3}, jit=True)
# one sphere per cell, and two spheres in a cell twice as long
E = [[0, 1., 0], [1., 0, 0], [0, 0, 0]]
L = 4.
a = solve(posdata([[0, 0, 0]]), minf_only=True, Ea=[E],
          box=([-L/2]*3, [L/2]*3))
b = solve(posdata([[0, 0, 0], [L, 0, 0]]), minf_only=True, Ea=[E]*2,
          box=([-L/2]*3, [3*L/2, L/2, L/2]))
close(a['Sa'][0], b['Sa'][0], 'stresslet in a simple cubic lattice', 1e-3)
"""
