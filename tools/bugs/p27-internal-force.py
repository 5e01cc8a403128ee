PROPERTY = 'P27'
NEEDS = """Dumbbells with non-zero internal (spring) forces."""
BREAKS = """The internal forces of the dumbbells are left out of the reported force on the fixed spheres."""
EDITS = [('stokesian_dynamics/functions/timestepping.py', '                    :num_fixed_velocity_spheres*3, 11*num_spheres:]\n                dumbbell_forces = force_vector[11*num_spheres:]', '                    :num_fixed_velocity_spheres*3,\n                    11*num_spheres:11*num_spheres + 3*num_dumbbells]\n                dumbbell_forces = force_vector[\n                    11*num_spheres:11*num_spheres + 3*num_dumbbells]')]
DEMO = r"""
setup()
pd = posdata([[0, 0, 0]], dumbbells=[[2.5, 0, 0]], deltax=[[1.5, .2, 0]])
zero = [[[0, 0, 0]]*3]
kw = dict(form='ufte', Ua=[[0.3, 0, 0]], Ta=[[0, 0, 0]], Ea=zero, extract=True)
a = solve(pd, Fb=[[0, 1., 0]], DFb=[[2., 0, 0]], **kw)
b = solve(pd, Fb=[[0, 0, 0]], DFb=[[0, 0, 0]], **kw)
close(a['wall'], np.asarray(a['Fa'], float) - np.asarray(b['Fa'], float), 'extra force on the sphere')
"""
