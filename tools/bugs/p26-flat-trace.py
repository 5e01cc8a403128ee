PROPERTY = 'P26'
NEEDS = """A picture with traced paths of a sphere that moved in the y direction."""
BREAKS = """The traced path starts at the present y instead of the previous one."""
EDITS = [('stokesian_dynamics/functions/graphics.py', '                             (previous_position[1], position[1]),\n', '                             (position[1], position[1]),\n')]
DEMO = r"""
setup()
import matplotlib.pyplot as plt
import functions.graphics as g
ax = plt.figure().add_subplot(111, projection='3d')
pd, before = posdata([[1, 2, 3]]), posdata([[0, 0.5, 1]])
balls, lines, traces = g.plot_all_spheres(ax, 2, pd, before, 1, [], np.zeros((1, 3)))
ends = np.array(traces[-1].get_data_3d(), float).T
close(ends, [[0, 0.5, 1], [1, 2, 3]], 'ends of the traced path', 1e-9)
"""
