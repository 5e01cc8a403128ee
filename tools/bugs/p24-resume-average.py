PROPERTY = 'P24'
NEEDS = """A resumed run whose first frame is not a scheduled refresh frame."""
BREAKS = """The (refreshing) first frame of a resumed run is counted among the ordinary frames in the remaining-time estimate."""
EDITS = [('stokesian_dynamics/functions/timestepping.py', '                  if i % invert_m_every != 0 and i != checkpoint_start_from_frame]', '                  if i % invert_m_every != 0]')]
DEMO = r"""
setup()
import functions.timestepping as ts
import numba
numba.config.DISABLE_JIT = True
times = [0]*20
times[7:10] = [100., 1., 1.]
left, flags = ts.calculate_time_left(times, 9, 14, 5, 7)
# frames left: 10 (refresh) and 11, 12, 13
close(left, 1.03*(100 + 3*1), 'time left')
"""
