PROPERTY = 'P05'
NEEDS = """A periodic box with two dumbbells and bead-bead interactions switched off."""
BREAKS = """The first beads of different dumbbells still act on each other in a periodic box."""
EDITS = [('stokesian_dynamics/functions/generate_Minfinity_periodic.py', '            if bead_bead_interactions or a1_index_d == a2_index_d:\n', '            if bead_bead_interactions or a1_index_d <= a2_index_d:\n', 0)]
DEMO = r"""
setup(dict(bead_bead_interactions=False))
pd = posdata([], dumbbells=[[0, 0, 0], [0, 0, 4]], deltax=[[1, 0, 0], [1, 0, 0]])
z = [0, 0, 0]
o = solve(pd, 'fts', box=([-5, -5, -5], [5, 5, 5]), minf_only=True, Fb=[[0, 0, 1], z], DFb=[z, z])
close(o['Ub'][1], z, 'velocity of a dumbbell that nothing acts on', 1e-9)
"""
