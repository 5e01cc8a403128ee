PROPERTY = 'P11'
NEEDS = """Dumbbells in a rotational background flow (e.g. shear) whose centre is not the origin."""
BREAKS = """The rotational part of the background velocity of dumbbells is measured from the origin instead of the centre of the flow."""
EDITS = [('stokesian_dynamics/functions/timestepping.py', '                                        dumbbell_positions - centre_of_background_flow)\n    O_infinity_cross_deltax_k1', '                                        dumbbell_positions)\n    O_infinity_cross_deltax_k1')]
DEMO = r"""
wd = scratch()
pd = posdata([[2.25, 0, 2.25]], dumbbells=[[2.25, 0, 60.]],
             deltax=[[2., 0, 0]])
r = run(wd, [-1, 3, 0.1, 2, 'fte'], pd=pd,
        settings={'timestepping_scheme': 'euler'})
expect(r.returncode == 0, r.stderr[-300:])
c = result(wd)['centres'][:, 1]
# the flow at time 0 is (gammadot*(z - 2.25), 0, 0)
rate = 1/3*2*np.pi/10*(60 - 2.25)
close(c[1] - c[0], [0.1*rate, 0, 0], 'step of a far dumbbell in shear', 1e-2)
"""
