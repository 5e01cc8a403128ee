PROPERTY = 'P12'
NEEDS = """A sheared (slanted) periodic box and a particle leaving it."""
BREAKS = """Positions are converted to box coordinates with the transposed inverse of the sheared edge vectors, so wrapped particles are not moved by whole box edges."""
EDITS = [('stokesian_dynamics/functions/timestepping.py', 'np.linalg.inv(sheared_basis_vectors)) + 0.5,', 'np.linalg.inv(sheared_basis_vectors.transpose())) + 0.5,')]
DEMO = r"""
setup()
import functions.timestepping as ts
g = 0.3
lo, hi = np.array([0., 0, 0]), np.array([6., 5, 4])
Ot = np.array([0, 0.5*g, 0])
Et = np.array([[0, 0, 0.5*g], [0, 0, 0], [0.5*g, 0, 0]])
edges = np.array([[6., 0, 0], [0, 5, 0], [4*g, 0, 4]])
x = np.array([[3., 2, 3.9], [5.8, 2, 4.3], [0.1, -0.2, 2]])
y = ts.wrap_around(x, lo, hi, Ot, Et)
n = np.linalg.solve(edges.T, (y - x).T).T
close(n, np.round(n), 'shift in whole box edges')
"""
