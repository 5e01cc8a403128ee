PROPERTY = 'P14'
NEEDS = """Spheres that rotate, in any saved frame after the first."""
BREAKS = """The orientations saved from the second saved frame on are those at the end of the frame instead of its start."""
EDITS = [('stokesian_dynamics/run_simulation.py', '                saved_sphere_rotations = np.append(np.copy(saved_sphere_rotations),\n                                                   np.array([sphere_rotations]), 0)', '                saved_sphere_rotations = np.append(np.copy(saved_sphere_rotations),\n                                                   np.array([new_sphere_rotations]), 0)')]
DEMO = r"""
wd = scratch()
pd = posdata([[0, 0, 0], [2.5, 0, 0]])
r = run(wd, [-1, 1, 0.2, 4, 'fte'], pd=pd)
expect(r.returncode == 0, r.stderr[-300:])
d = result(wd)
arm = d['sphere_rotations'] - d['centres'][:, :, None]
close(np.linalg.norm(arm, axis=-1), np.ones(arm.shape[:-1]),
      'length of the orientation markers')
"""
