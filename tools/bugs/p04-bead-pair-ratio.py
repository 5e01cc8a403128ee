PROPERTY = 'P04'
NEEDS = """Two dumbbells with beads of different size, first bead of one within cutoff of the second bead of the other."""
BREAKS = """The cross term between a first and a second bead of different sizes uses the inverse size ratio."""
EDITS = [('stokesian_dynamics/functions/generate_R2Bexact.py', '                R2Bexact[R45_c[0]:R45_c[0]+3,\n                         R45_c[1]:R45_c[1]+3] = np.array([[\n                             Af(1, d, lam_index, s_dash, i, j)\n', '                R2Bexact[R45_c[0]:R45_c[0]+3,\n                         R45_c[1]:R45_c[1]+3] = np.array([[\n                             Af(1, d, lam_index_recip, s_dash, i, j)\n')]
DEMO = r"""
setup()
F = [[1., 0, 0], [0, 1., 0]]
D = [[0, 0, 0], [0, 0, 0]]
one = posdata([], [], [[0, 0, 0], [0, 1.2, 0]], [[0, 0, -6], [0, 0, 6.]],
              [1, .1])
# both dumbbells turned round: the beads and sizes are where they were
two = posdata([], [], [[0, 0, 0], [0, 1.2, 0]], [[0, 0, 6], [0, 0, 6.]],
              [1, .1])
a = solve(one, 'fts', Fb=F, DFb=D)
b = solve(two, 'fts', Fb=F, DFb=D)
close(a['Ub'], b['Ub'], 'velocity with the beads of dumbbell 1 relabelled',
      1e-3)
"""
