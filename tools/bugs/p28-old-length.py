PROPERTY = 'P28'
NEEDS = """Explosion protection on and a dumbbell that grows longer than 5 in some step after the first."""
BREAKS = """The length before the step is compared with the limit, so a run goes on for one frame too many."""
EDITS = [('stokesian_dynamics/functions/timestepping.py', 'if explosion_protection and np.linalg.norm(new_dumbbell_deltax[i]) > 5:', 'if explosion_protection and np.linalg.norm(dumbbell_deltax[i]) > 5:')]
DEMO = r"""
wd = scratch()
pd = posdata([[0, 0, 0]], dumbbells=[[6, 0, 0]], deltax=[[0, 0, 4.3]])
pull = '''
import setups.inputs as inputs
real = inputs.input_ftsuoe
def pulled(*a, **k):
    out = list(real(*a, **k))
    out[5][0] = [0, 0, 4]
    return tuple(out)
inputs.input_ftsuoe = pulled
'''
r = run(wd, [-1, 1, 0.1, 8, 'fte'], pd=pd, load=pull)
expect(r.returncode == 0, r.stderr[-300:])
length = np.linalg.norm(result(wd)['deltax'][:, 0], axis=-1)
first = int(np.argmax(length > 5)) - 1
expect(length.max() > 5 and first > 0, f'lengths {length.tolist()}')
wd = scratch()
r = run(wd, [-1, 1, 0.1, 8, 'fte'], pd=pd, load=pull,
        settings={'explosion_protection': True})
expect(r.returncode == 0, r.stderr[-300:])
d = result(wd)
expect(len(d['deltax']) == first + 1,
       f'{len(d["deltax"])} frames saved, {first + 1} expected')
"""
