PROPERTY = 'P30'
NEEDS = """The example with spheres and dumbbells in an oscillating flow."""
BREAKS = """The flow of example (d) is no longer centred on the arrangement, which loses its symmetry."""
EDITS = [('stokesian_dynamics/setups/inputs.py', 'np.array([2.25, 0, 2.25])', 'np.array([2.25, 0, 2.5])')]
DEMO = r"""
wd = scratch()
r = run(wd, [4, 3, 1, 5, 'fte'])
expect(r.returncode == 0, r.stderr[-300:])
x = result(wd)['centres']
close(x[:, 0] + x[:, 1], np.tile([4.5, 0, 4.5], (len(x), 1)),
      'the two spheres mirror each other about the centre')
"""
