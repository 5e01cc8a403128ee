PROPERTY = 'P29'
NEEDS = """Different saving intervals for positions and forces."""
BREAKS = """The summary shows the saving interval of the forces instead of the positions."""
EDITS = [('stokesian_dynamics/run_simulation.py', '"XXXX16": str(save_positions_every_n_timesteps),', '"XXXX16": str(save_forces_every_n_timesteps),')]
DEMO = r"""
import re
wd = scratch()
r = run(wd, [2, 1, 0.5, 4, 'fte'],
        settings={'save_positions_every_n_timesteps': 2,
                  'save_forces_every_n_timesteps': 1})
expect(r.returncode == 0, r.stderr[-300:])
text = re.sub('\x1b\\[[0-9;]*m', '', r.stdout)
shown = re.search(r'Save every: *(\d+)', text)
saved = len(result(wd)['centres']) - 1
expect(shown and saved == 4//int(shown.group(1)),
       f'{saved} states saved of 4 frames, the summary says {shown}')
"""
