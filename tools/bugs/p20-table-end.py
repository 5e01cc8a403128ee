PROPERTY = 'P20'
NEEDS = """A cutoff so large that a pair is beyond the last tabulated separation (s' > 4.5)."""
BREAKS = """The hand-written table lookup reads past the end of the table: garbage when compiled, an exception when interpreted."""
EDITS = [('stokesian_dynamics/functions/generate_R2Bexact.py', '    return np.interp(s_dash, s_dash_range, interp_y)\n', '    k = max(1, np.searchsorted(s_dash_range, s_dash))\n    w = max(0.0, (s_dash - s_dash_range[k-1])\n            / (s_dash_range[k] - s_dash_range[k-1]))\n    return (1 - w)*interp_y[k-1] + w*interp_y[k]\n')]
DEMO = r"""
setup()
pd = posdata([[0, 0, 0], [4.7, 0, 0], [0, 2.5, 0]])
a = solve(pd, Fa=[[1, 0, 0], [0, 0, 0], [0, 0, 0]], cutoff=2.5)
expect(np.isfinite(np.asarray(a['Ua'], float)).all(), 'velocities not finite')
"""
