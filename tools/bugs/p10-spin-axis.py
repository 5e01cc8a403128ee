PROPERTY = 'P10'
NEEDS = """A sphere spinning about the negative x axis."""
BREAKS = """The helper direction used to build the rotation basis is parallel to the spin axis when it points along -x, and the markers are lost."""
EDITS = [('stokesian_dynamics/functions/timestepping.py', "            Otest = (np.abs(Oa_out[i] / O)).astype('float')", "            Otest = (Oa_out[i] / O).astype('float')")]
DEMO = r"""
setup()
from functions.timestepping import euler_timestep_rotation
x = np.array([[0., 0, 0]])
rot = np.array([[[1., 0, 0], [0, 0, 1]]])
for axis in np.array([[1., 0, 0], [-1., 0, 0], [0, 1., 0], [0, 0, -1.]]):
    try:
        new = euler_timestep_rotation(x, rot, x, rot.copy(),
                                      np.array([axis]), 0.1)
    except np.linalg.LinAlgError as e:
        fail(f'spin about {axis.tolist()}: {e}')
    v = rot[0, 1]
    want = (v*np.cos(.1) + np.cross(axis, v)*np.sin(.1)
            + axis*np.dot(axis, v)*(1-np.cos(.1)))
    close(new[0, 1], want, f'marker after spin about {axis.tolist()}')
"""
