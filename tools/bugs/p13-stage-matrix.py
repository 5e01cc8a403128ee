PROPERTY = 'P13'
NEEDS = """Runge-Kutta with the long-range matrix regenerated in each stage and refreshed less often than every step."""
BREAKS = """The matrix kept for the next steps is the one of the last Runge-Kutta stage instead of the one at the start of the refresh step."""
EDITS = [('stokesian_dynamics/run_simulation.py', '             last_generated_Minfinity_inverse_ignore, gen_times_2,\n             U_infinity_k4', '             last_generated_Minfinity_inverse, gen_times_2,\n             U_infinity_k4')]
DEMO = r"""
wd = scratch()
pd = posdata([[0, 0, 0], [2.3, 0.2, 0.1], [0.5, 2.5, -0.3]])
load = '''
import functions.generate_grand_resistance_matrix as g
import numpy as np
seen = []
def watch(name):
    real = getattr(g, name)
    def w(posdata, minv, *a, **k):
        out = real(posdata, minv, *a, **k)
        seen.append((bool(k.get('regenerate_Minfinity')), np.copy(out[2])))
        np.save('seen%d.npy' % len(seen), out[2])
        return out
    setattr(g, name, w)
watch('generate_grand_resistance_matrix')
'''
r = run(wd, [-1, 1, 0.3, 2, 'fte'], pd=pd, load=load,
        settings={'timestepping_scheme': 'rk4', 'invert_m_every': 2,
                  'rk4_generate_minfinity_for_each_stage': True})
expect(r.returncode == 0, r.stderr[-300:])
first = np.load(os.path.join(wd, 'seen1.npy'))
second = np.load(os.path.join(wd, 'seen5.npy'))
close(first, second, 'matrix reused in the second step')
"""
