PROPERTY = 'P23'
NEEDS = """A force on the second sphere when its radius differs from the first."""
BREAKS = """The source-quadrupole part of the field of a forced sphere uses the radius of sphere 1 for both spheres."""
EDITS = [('find_resistance_scalars/helen_fortran/2sphere.f', 'C(j,i,2,1,k)*(radius(i)**2.d0)/6.d0', 'C(j,i,2,1,k)*(radius(1)**2.d0)/6.d0')]
DEMO = r"""
wd = scratch()
src = os.path.join(FRS, 'helen_fortran')
exe = os.path.join(wd, 'lamb')
shutil.copytree(src, os.path.join(wd, 'f'))
d = os.path.join(wd, 'f')
r = subprocess.run(['gfortran', '-O2', '-o', exe, '2sphere.f', 'base.f', 'reflect.f'], cwd=d,
                   capture_output=True, text=True)
expect(r.returncode == 0, r.stderr[-300:])
def lamb(case, s, a, b):
    o = subprocess.run([exe, str(s), str(a), str(b), case, 'short'], capture_output=True, text=True)
    return np.array(o.stdout.split()[-22:], float)
p = lamb('F21', 3.6, 1, 0.5)
q = lamb('F11', 3.6, 0.5, 1)
close(p[11], q[0], 'velocity of the forced sphere, spheres exchanged', 1e-6)
close(p[0], q[11], 'velocity of the other sphere, spheres exchanged', 1e-6)
"""
