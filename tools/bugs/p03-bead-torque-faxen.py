PROPERTY = 'P03'
NEEDS = """A torque on a sphere near the second bead of a dumbbell of a different size."""
BREAKS = """The finite-size correction of the coupling between sphere torque and dumbbell bead 2 uses the sphere radius instead of that of the bead."""
EDITS = [('stokesian_dynamics/functions/generate_Minfinity.py', '                          M12(mr, s, a2, a1, j, i, c, mu)\n', '                          M12(mr, s, a1, a2, j, i, c, mu)\n', 1), ('stokesian_dynamics/functions/generate_Minfinity.py', '                    M35_temp[i,j] = M13(mr, s, a2, a1, j, *cond_idx[i], c, mu)\n', '                    M35_temp[i,j] = M13(mr, s, a1, a2, j, *cond_idx[i], c, mu)\n')]
DEMO = r"""
setup()
args = dict(form='fts', minf_only=True, Ta=[[0, 0, 1.]], Sa=[[[0, 0, 0]]*3],
            Fb=[[0, 0, 0]], DFb=[[0, 0, 0]])
T = [[0, 0, 0.]]
S = [[[0, 1., 0], [1., 0, 0], [0, 0, 0]]]
for t, s in (([[0, 0, 1.]], [[[0, 0, 0]]*3]), (T, S)):
    args.update(Ta=t, Sa=s)
    o1 = solve(posdata([[0, 0, 0]], dumbbells=[[2.5, .3, 0]],
                       deltax=[[1, .5, 0]]), **args)
    o2 = solve(posdata([[0, 0, 0]], dumbbells=[[2.5, .3, 0]],
                       deltax=[[-1, -.5, 0]]), **args)
    close(o1['Ub'] + o1['HDUb'], o2['Ub'] - o2['HDUb'], 'same bead')
"""
