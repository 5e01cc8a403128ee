PROPERTY = 'P19'
NEEDS = """Particles whose sizes differ by less than a percent."""
BREAKS = """Size ratios within 0.01 of a tabulated one are not refused, although the tables have no values for them."""
EDITS = [('stokesian_dynamics/run_simulation.py', '    if not np.any(np.isclose(size_ratio, lam_range_with_reciprocals)):', '    if not np.any(np.isclose(size_ratio, lam_range_with_reciprocals, atol=1e-2)):')]
DEMO = r"""
wd = scratch()
pd = posdata([[0, 0, 0], [3, 0, 0]], sizes=[1., 1.005])
r = run(wd, [-1, 1, 0.1, 1, 'fte'], pd=pd)
expect(r.returncode != 0, 'an untabulated size ratio was accepted')
expect('not in the table' in ' '.join((r.stdout + r.stderr).split()), 'no explanation: ' + r.stderr[-200:])
expect(not outputs(wd), 'an output file was written')
"""
