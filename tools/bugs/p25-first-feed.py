PROPERTY = 'P25'
NEEDS = """The first frame at which feeding is scheduled, with more than one step between feeds."""
BREAKS = """The first scheduled feed is skipped: beads above the cut stay and none are added until the second one."""
EDITS = [('stokesian_dynamics/functions/shared.py', '            or frameno == 0):\n        return posdata', '            or frameno <= feed_every_n_timesteps):\n        return posdata')]
DEMO = r"""
wd = scratch()
setup()
os.makedirs(os.path.join(wd, 'output'))
os.chdir(wd)
import functions.shared as sh
rng = np.random.default_rng(1)
nd = 40
c = rng.uniform([-1, -1, -1], [1, 1, 1], (1, 1 + nd, 3))*[1, .3, 3]
dx = np.tile([0.3, 0., 0.], (1, nd, 1))
np.savez('output/F.npz', centres=c, deltax=dx)
g = np.array([[x, y, z] for x in np.arange(-1, 1, .45) for y in (-.3, 0, .3) for z in np.arange(-1.5, 4, .45)])
g = g[:2*(len(g)//2)]
d = 0.5*(g[0::2] + g[1::2])
pd = posdata([[0, 0, 0]], dumbbells=d, deltax=g[1::2] - g[0::2])
top = {}
for frame in (4, 5, 10):
    new = sh.feed_particles_from_bottom(pd, 5, 'F', frame)
    top[frame] = max((new[4] - new[5]/2)[:, 2].max(), (new[4] + new[5]/2)[:, 2].max())
expect(top[10] < top[4] - 0.1, 'no bead was removed in the second feed')
expect(abs(top[5] - top[10]) < 1e-9, f'the top bead is at {top[5]} after the first feed and {top[10]} after the second')
"""
