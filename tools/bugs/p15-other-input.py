PROPERTY = 'P15'
NEEDS = """An unfinished backup of a run with the same setup, frames and timestep but another input."""
BREAKS = """The backup of a run with a different input is picked up and continued."""
EDITS = [('stokesian_dynamics/setups/positions.py', '        and checkpoint_input_number == input_number\n', '')]
DEMO = r"""
wd = scratch()
r = run(wd, [2, 1, 0.5, 3, 'fte'])
expect(r.returncode == 0, r.stderr[-300:])
name = outputs(wd)[0]
old = os.path.join(wd, 'output', name)
os.rename(old, old[:-4].replace('3fr', '3fr') + '_TEMP.npz')
r = run(wd, [2, 7, 0.5, 3, 'fte'])
expect(r.returncode == 0, r.stderr[-300:])
d = result(wd)
close(d['centres'][0], [[-5, 0, 0], [0, 0, 0], [7, 0, 0]], 'starting positions')
close(d['Fa'][0], np.zeros((3, 3)), 'forces at the first frame')
"""
