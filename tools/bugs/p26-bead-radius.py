PROPERTY = 'P26'
NEEDS = """Dumbbells of unequal bead sizes in a picture."""
BREAKS = """Every dumbbell is drawn with the bead size of the first one."""
EDITS = [('stokesian_dynamics/functions/graphics.py', '                ax, dumbbell_positions[i, :], dumbbell_sizes[i],', '                ax, dumbbell_positions[i, :], dumbbell_sizes[0],', 0)]
DEMO = r"""
setup()
import matplotlib.pyplot as plt
import functions.graphics as g
ax = plt.figure().add_subplot(111, projection='3d')
pd = posdata([], dumbbells=[[0, 0, 0], [3, 0, 0]], deltax=[[1, 0, 0], [1, 0, 0]], bead_sizes=[0.1, 0.4])
z = np.zeros((2, 3))
beads, lines, tr = g.plot_all_dumbbells(ax, pd, 0, [], z, z, no_line=True)
size = [np.linalg.norm(b._segment3d - b._segment3d.mean(0), axis=1).max() for b in beads]
close(np.array(size)[2]/size[0], 4, 'ratio of the drawn bead sizes', 1e-3)
"""
