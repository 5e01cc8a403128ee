PROPERTY = 'P08'
NEEDS = """Reusing the stored long-range matrix (invert_m_every > 1 or RK4 stages) in unbounded fluid with particles within the cutoff."""
BREAKS = """The short-range correction is added in place into the stored inverse of M-infinity, so it accumulates from solve to solve."""
EDITS = [('stokesian_dynamics/functions/generate_grand_resistance_matrix.py', '        grand_resistance_matrix = R2Bexact  # shallow copy for better naming\n        grand_resistance_matrix += Minfinity_inverse  # in-place addition\n', '        grand_resistance_matrix = Minfinity_inverse  # shallow copy for better naming\n        grand_resistance_matrix += R2Bexact  # in-place addition\n')]
DEMO = r"""
setup()
pd = posdata([[0, 0, 0], [2.2, 0, 0]])
a = solve(pd, Fa=[[1, 0, 0], [0, 0, 0]])
b = solve(pd, Fa=[[1, 0, 0], [0, 0, 0]], minv=a['Minv'], regen=False)
close(a['Ua'], b['Ua'], 'velocity with the stored matrix')
"""
