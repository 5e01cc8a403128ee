PROPERTY = 'P04'
NEEDS = """Bead-bead interactions switched off, and second beads of two dumbbells within the short-range cutoff."""
BREAKS = """The cross terms of two second beads are kept although their self terms are left out, so a bead is pushed by a neighbour it should not feel."""
EDITS = [('stokesian_dynamics/functions/generate_R2Bexact.py', '                if bead_bead_interactions:\n                    R2Bexact[R55_c[0]:R55_c[0]+3,', '                if bead_bead_interactions or lam == 1:\n                    R2Bexact[R55_c[0]:R55_c[0]+3,')]
DEMO = r"""
setup(dict(bead_bead_interactions=False))
pd = posdata([], dumbbells=[[0, 0, 0], [0, 3.22, 0]], deltax=[[0, 3, 0], [0, -3, 0]], bead_sizes=[0.1, 0.1])
z = [0, 0, 0]
o = solve(pd, 'fts', Fb=[[0, 1, 0], z], DFb=[z, z])
close(o['Ub'][1], z, 'velocity of a dumbbell that nothing acts on', 1e-9)
"""
