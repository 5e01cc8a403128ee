PROPERTY = 'P18'
NEEDS = """Random dumbbells placed in a box that already contains a large sphere."""
BREAKS = """The second bead of a dumbbell may be placed overlapping a sphere, because the bead size is used for the sphere."""
EDITS = [('stokesian_dynamics/setups/functions_positions.py', '                            if overlaps(proposed_bead2_position, current_sphere_positions[j],\n                                        dumbbell_sizes[i], current_sphere_sizes[j]):', '                            if overlaps(proposed_bead2_position, current_sphere_positions[j],\n                                        dumbbell_sizes[i], dumbbell_sizes[i]):')]
DEMO = r"""
setup()
from setups.functions_positions import randomise_dumbbells
np.random.seed(3)
a, b = 2., 0.1*np.ones(25)
p, dx = randomise_dumbbells(np.array([-4., -4, -4]), np.array([4., 4, 4]), b, dx=1.5,
                            current_sphere_sizes=np.array([a]),
                            current_sphere_positions=np.zeros((1, 3)))
for q in np.concatenate([p + dx/2, p - dx/2]):
    expect(np.linalg.norm(q) > a + 0.1 - 1e-9, f'bead inside the sphere: {q}')
"""
