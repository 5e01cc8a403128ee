PROPERTY = 'P02'
NEEDS = """A separation which is not exactly one of the tabulated ones."""
BREAKS = """The resistance scalars are read at the next tabulated separation instead of being interpolated."""
EDITS = [('stokesian_dynamics/functions/generate_R2Bexact.py', '    return np.interp(s_dash, s_dash_range, interp_y)\n', '    return interp_y[min(np.searchsorted(s_dash_range, s_dash - 1e-9),\n                        len(s_dash_range) - 1)]\n')]
DEMO = r"""
setup()
F = [[1., 0, 0], [-1., 0, 0]]
v = [solve(posdata([[0, 0, 0], [s, 0, 0]]), Fa=F)['Ua'][0][0]
     for s in (2.1 - 1e-6, 2.1 + 1e-6)]
expect(abs(v[1] - v[0]) < 1e-4*abs(v[0]),
       f'approach speed jumps when the separation changes by 2e-6: {v}')
"""
