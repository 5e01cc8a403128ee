PROPERTY = 'P25'
NEEDS = """Fed-in beads that land between one and two bead radii from beads already there."""
BREAKS = """Fed-in beads are only rejected when closer than one radius, so overlapping beads are added."""
EDITS = [('stokesian_dynamics/functions/shared.py', '            if np.linalg.norm(s-t) <= 2*dumbbell_sizes[0]:', '            if np.linalg.norm(s-t) <= dumbbell_sizes[0]:')]
DEMO = r"""
wd = scratch()
setup()
os.makedirs(os.path.join(wd, 'output'))
os.chdir(wd)
import functions.shared as sh
rng = np.random.default_rng(1)
nd = 40
c = rng.uniform([-1, -1, -1], [1, 1, 1], (1, 1 + nd, 3))*[1, .3, 3]
dx = np.tile([0.3, 0., 0.], (1, nd, 1))
np.savez('output/F.npz', centres=c, deltax=dx)
g = np.array([[x, y, z] for x in np.arange(-1, 1, .45) for y in (-.3, 0, .3) for z in np.arange(-1.5, 4, .45)])
g = g[:2*(len(g)//2)]
d = 0.5*(g[0::2] + g[1::2])
pd = posdata([[0, 0, 0]], dumbbells=d, deltax=g[1::2] - g[0::2])
new = sh.feed_particles_from_bottom(pd, 1, 'F', 1)
beads = np.concatenate([new[4] - new[5]/2, new[4] + new[5]/2])
old = np.concatenate([pd[4] - pd[5]/2, pd[4] + pd[5]/2])
isold = np.array([np.linalg.norm(old - b, axis=1).min() < 1e-9 for b in beads])
for b in beads[~isold]:
    m = np.linalg.norm(beads[isold] - b, axis=1).min()
    expect(m > 0.2, f'fed bead overlaps: {m}')
expect((~isold).sum() > 0, 'nothing was fed')
"""
