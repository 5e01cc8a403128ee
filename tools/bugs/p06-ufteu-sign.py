PROPERTY = 'P06'
NEEDS = """UFTEU form with at least one fixed-velocity dumbbell and at least one free (force-prescribed) sphere."""
BREAKS = """Motion of a free sphere due to the imposed stretching velocity of a fixed dumbbell has the wrong sign."""
EDITS = [('stokesian_dynamics/functions/simulation_tools.py', '    m15rx = m51rx.transpose()\n', '    m15rx = -m51rx.transpose()\n')]
DEMO = r"""
setup()
pd = posdata([[0, 0, 0]], dumbbells=[[2.5, 0, 0]], deltax=[[1.5, .2, 0]])
zero = [[[0, 0, 0]]*3]
o = solve(pd, 'ufteu', Fa=[[0, 0, 0]], Ta=[[0, 0, 0]], Ea=zero,
          Ub=[[0, 0, 0]], HDUb=[[1., 0, 0]])
p = solve(pd, 'fte', Fa=[[0, 0, 0]], Ta=[[0, 0, 0]], Ea=zero,
          Fb=np.asarray(o['Fb'], float).tolist(),
          DFb=np.asarray(o['DFb'], float).tolist())
close(o['Ua'], p['Ua'], 'sphere velocity')
close(o['HDUb'], p['HDUb'], 'stretching velocity')
"""
