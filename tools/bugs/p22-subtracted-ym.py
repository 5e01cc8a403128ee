PROPERTY = 'P22'
NEEDS = """Any lookup of a subtracted Y^M scalar."""
BREAKS = """The long-range part subtracted from the 12 entry of YM is taken from the wrong block, so the subtracted table is off for it."""
EDITS = [('find_resistance_scalars/subtract_R2Binfinity_from_scalars.py', '        YM1 = Rinfinity[13, 18]/scale_M', '        YM1 = Rinfinity[15, 20]/scale_H')]
DEMO = r"""
wd = scratch()
frs = os.path.join(wd, 'find_resistance_scalars')
shutil.copytree(FRS, frs, ignore=shutil.ignore_patterns('*.exe', '*.npy', '*.txt'))
os.symlink(SD, os.path.join(wd, 'stokesian_dynamics'))
np.savetxt(os.path.join(frs, 'values_of_lambda.txt'), [1.])
np.savetxt(os.path.join(frs, 'values_of_s_dash.txt'), [2.5])
np.save(os.path.join(frs, 'scalars_general_resistance.npy'), np.zeros((11, 2, 1, 1)))
r = subprocess.run([sys.executable, 'subtract_R2Binfinity_from_scalars.py'], cwd=frs,
                   capture_output=True, text=True)
expect(r.returncode == 0, r.stderr[-300:])
d = np.load(os.path.join(frs, 'scalars_general_resistance_d.npy'))
setup()
from functions.generate_Minfinity import generate_Minfinity
R = np.linalg.inv(generate_Minfinity(posdata([[0, 0, 0], [2.5, 0, 0]]))[0])
close(d[9, 1, 0, 0], -R[13, 18]/(20/3*np.pi), 'subtracted YM', 1e-6)
"""
