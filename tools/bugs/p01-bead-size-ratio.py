PROPERTY = 'P01'
NEEDS = """A dumbbell whose first bead is within the short-range cutoff of a particle of a different size."""
BREAKS = """The self term of a dumbbell's first bead takes the inverse size ratio, so the dissipation of a bead near a large sphere can be negative."""
EDITS = [('stokesian_dynamics/functions/generate_R2Bexact.py', '                    lam_p = bead_sizes[p_index] / bead_sizes[a1_index]\n', '                    lam_p = bead_sizes[a1_index] / bead_sizes[p_index]\n', 1)]
DEMO = r"""
setup()
pd = posdata([[0, 0, 0]], dumbbells=[[1.12+1, 0, 0]], deltax=[[2, 0, 0]])
M = np.zeros((6, 6))
for i in range(6):
    f = np.zeros(6)
    f[i] = 1
    o = solve(pd, 'fts', Fa=[f[:3].tolist()], Ta=[[0, 0, 0]],
              Sa=[[[0, 0, 0]]*3], Fb=[f[3:].tolist()],
              DFb=[(-f[3:]).tolist()])
    M[:, i] = np.concatenate([o['Ua'][0], o['Ub'][0] - o['HDUb'][0]])
low = np.linalg.eigvalsh(M + M.T)[0]
expect(low > 0, f'the work of some pair of forces is {low}')
"""
