PROPERTY = 'P09'
NEEDS = """Adams-Bashforth time stepping with dumbbells, from the second frame on."""
BREAKS = """The previous stretching velocity of dumbbells enters the Adams-Bashforth step at half its value."""
EDITS = [('stokesian_dynamics/run_simulation.py', '                        dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k1, 2*last_velocities[2], timestep)', '                        dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k1, last_velocities[2], timestep)')]
DEMO = r"""
wd = scratch()
r = run(wd, [4, 3, 0.05, 4, 'fte'], settings={'timestepping_scheme': 'ab2'})
expect(r.returncode == 0, r.stderr[-300:])
dx = result(wd)['deltax']
# steady oscillating flow: the stretch rate varies smoothly
steps = np.diff(dx, axis=0)
expect(np.abs(steps[1] - steps[0]).max() < 0.2*np.abs(steps[0]).max(),
       f'jump in the stretch rate between frames: {steps[:2].tolist()}')
"""
