PROPERTY = 'P07'
NEEDS = """Dumbbells present and a viscosity different from 1, particles within the short-range cutoff."""
BREAKS = """The short-range correction is not multiplied by the viscosity when there are dumbbells."""
EDITS = [('stokesian_dynamics/functions/generate_R2Bexact.py', '        return (mu*(L*R2Bexact*R), "R2Bexact")', '        return (L*R2Bexact*R, "R2Bexact")')]
DEMO = r"""
setup()
pd = posdata([[0, 0, 0]], dumbbells=[[2.2, 0, 0]], deltax=[[2, 0, 0]])
a = solve(pd, Fa=[[1, 0, 0]], Fb=[[0, 0, 1]], DFb=[[1, 0, 0]])
b = solve(pd, Fa=[[1, 0, 0]], Fb=[[0, 0, 1]], DFb=[[1, 0, 0]], mu=4.)
close(a['Ua'], 4*b['Ua'], 'velocity times viscosity')
close(a['Ub'], 4*b['Ub'], 'dumbbell velocity times viscosity')
"""
