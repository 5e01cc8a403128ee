"""P30 the documented example cases reproduce published results and the behaviour the documentation states."""
import os
import numpy as np
from lib import common, par, runs

DURLOFSKY1 = [0.5018, 0.5029, 0.5054, 0.5102, 0.5183, 0.5321, 0.5559, 0.6170]
SIEROU = [(0.449618321, 0.102376862), (0.341984733, 0.111104125), (0.214503817, 0.160271692), (0.124427481, 0.242719753), (0.06259542, 0.35848019), (0.026717557, 0.49642408)]
CELL = dict(sc=[[0, 0, 0]], bcc=[[0, 0, 0], [0.5, 0.5, 0.5]], fcc=[[0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]])


def hasimoto(kind, phi):
    """Sedimentation velocity of a dilute cubic array relative to an isolated sphere (Hasimoto 1959)."""
    c, q = dict(sc=(1.7601, 1.5593), bcc=(1.7919, 0.3293), fcc=(1.7917, 0.3020))[kind]
    return 1 - c * phi ** (1 / 3) + phi - q * phi ** 2


def finish(rec, run, c):
    run.go()
    return rec.mon("completes", run.failure() is None and len(run.files()) == 1, dict(c), "example %s: %s" % (c["ex"], run.failure() or "no output file"), run.replay())


def case(rec, rng, c):
    ex = c["ex"]
    run, rp = None, None
    try:
        run = globals()["example_" + ex](rec, rng, c)
    finally:
        if run is not None:
            run.clean()


def planar(rec, c, run, d):
    y = max(float(np.max(np.abs(d["centres"][:, :, 1]))), float(np.max(np.abs(d["deltax"][..., 1]), initial=0)))
    rec.mon("planar", y <= 1e-9, dict(c), "example %s: a particle leaves the xz-plane by %.3g" % (c["ex"], y), run.replay(), err=y)


def example_a(rec, rng, c):
    run = runs.Run(None, setup=1, number=1, dt=1, frames=1, settings=dict(timestepping_scheme="euler"))
    if finish(rec, run, c):
        d = run.data()
        lam = d["Fa"][0][:, 2] / (6 * np.pi * (d["centres"][1] - d["centres"][0])[:, 2])
        for k, (g, w) in enumerate(zip(lam[len(lam) // 2:], DURLOFSKY1)):
            rec.mon("chain-drag", len(lam) == 15 and abs(g / w - 1) <= 5e-3, dict(c, sphere=k), "sphere %d of the chain: drag coefficient %.5f, published %.4f" % (k, g, w), run.replay(), err=abs(g / w - 1))
        e = float(np.max(np.abs(lam - lam[::-1])))
        rec.mon("symmetric", e <= 1e-9, dict(c), "the chain's drag coefficients are not symmetric (%.3g)" % e, run.replay(), err=e)
        planar(rec, c, run, d)
    return run


def far(p, paths):
    best = np.inf
    for q in paths:
        a, b = q[:-1], q[1:]
        t = np.clip(((p - a) * (b - a)).sum(1) / ((b - a) ** 2).sum(1), 0, 1)
        best = min(best, np.min(np.hypot(*(a + t[:, None] * (b - a) - p).T)))
    return float(best)


def example_b(rec, rng, c):
    run = runs.Run(None, setup=2, number=1, dt=c["dt"], frames=c["frames"], settings=dict(timestepping_scheme=c["scheme"], invert_m_every=1))
    if finish(rec, run, c):
        d = run.data()
        paths = [d["centres"][:, i][:, [0, 2]] for i in range(3)]
        published = np.genfromtxt(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "durlofsky_fig5_data.txt"), delimiter=",")
        # the documentation: the converged solution deviates from the paper at the bottom of the graph
        for lo in range(0, 700, 50):
            e = [far(p, paths) for p in published if -lo - 50 < p[1] <= -lo]
            rec.mon("published-paths", max(e) <= 0.35 and np.median(e) <= 0.12, dict(c, depth=lo), "depth %d-%d: published points up to %.3f (median %.3f) from the paths" % (lo, lo + 50, max(e), np.median(e)), run.replay(), err=max(e))
        planar(rec, c, run, d)
    return run


def array(kind, phi, n=1):
    x = np.array(CELL[kind], float)
    x = np.concatenate([(x + [i, j, k]) / n for i in range(n) for j in range(n) for k in range(n)])
    L = (len(x) * 4 / 3 * np.pi / phi) ** (1 / 3)
    x = (x - 0.25) * L
    return (np.ones(len(x)), x, np.stack([x + [1, 0, 0], x + [0, 0, 1]], 1), np.array([]), np.empty((0, 3)), np.empty((0, 3))), L


def example_c(rec, rng, c):
    if c.get("kind") is None:
        phi, dt, n = 8 * 4 / 3 * np.pi / 8 ** 3, 1.0, 8
        run = runs.Run(None, setup=3, number=2, dt=1, frames=1, settings=dict(timestepping_scheme="euler"))
    else:
        phi, dt = c["phi"], 1e-3
        pd, L = array(c["kind"], phi, c.get("cells", 1))
        n = len(pd[0])
        u = rng.normal(size=3)
        u = u / np.linalg.norm(u) if c["kind"] == "sc" and n == 1 else np.array([0, 0, -1.0])   # cubic symmetry: same mobility in every direction
        shift = rng.uniform(-1, 1, 3) * L
        load = dict(Fa=[u.tolist()] * n, Ta=[[0, 0, 0.0]] * n, box=[(shift - L / 2).tolist(), (shift + L / 2).tolist()])
        pd = (pd[0], pd[1] + shift, pd[2] + shift) + pd[3:]
        run = runs.Run(pd, load=load, dt=dt, frames=1, settings=dict(timestepping_scheme="euler"))
    if finish(rec, run, c):
        d = run.data()
        U = (d["centres"][1] - d["centres"][0]) / dt * 6 * np.pi
        F = d["Fa"][0]
        s = (U * F).sum(1) / (F * F).sum(1)
        off = float(np.max(np.abs(U - s[:, None] * F)) + np.max(np.abs(s - s.mean())))
        rec.mon("array-moves-as-one", off <= 1e-3, dict(c), "the spheres of the array do not all move with the force (%.3g)" % off, run.replay(), err=off)
        if c.get("curve"):
            w = c["curve"]
            rec.mon("published-curve", abs(s[0] - w) <= 0.025 * w, dict(c), "concentration %.4f: velocity %.4f, published %.4f" % (phi, s[0], w), run.replay(), err=abs(s[0] / w - 1))
        else:
            kind = c.get("kind") or "sc"
            w = hasimoto(kind, phi)
            tol = 1e-4 + (6 if kind == "sc" else 4) * phi ** 2
            rec.mon("dilute-array", abs(s[0] - w) <= tol, dict(c), "%s array at concentration %.4f: velocity %.5f, Hasimoto %.5f" % (kind, phi, s[0], w), run.replay(), err=abs(s[0] - w) / tol)
    return run


def example_d(rec, rng, c):
    run = runs.Run(None, setup=4, number=3, dt=1, frames=100)
    if finish(rec, run, c):
        d = run.data()
        x, dx = d["centres"], d["deltax"]
        s = np.array([4.5, 0, 4.5])
        e = float(max(np.max(np.abs(s - x[:, 1] - x[:, 0])), np.max(np.abs(s - x[:, 2] - x[:, 3])), np.max(np.minimum(np.abs(dx[:, 0] - dx[:, 1]), np.abs(dx[:, 0] + dx[:, 1])))))
        rec.mon("symmetric", e <= 1e-9, dict(c), "the arrangement loses its symmetry about the centre of the flow (%.3g)" % e, run.replay(), err=e)
        back = float(np.max(np.linalg.norm(x[::10] - x[0], axis=2)))
        swing = float(np.max(np.linalg.norm(x - x[0], axis=2)))
        rec.mon("oscillates", back <= 0.2 and swing >= 0.5, dict(c), "after whole periods the particles are up to %.3g from the start; they swing by %.3g" % (back, swing), run.replay(), err=back)
        length = np.linalg.norm(dx, axis=2)
        rec.mon("springs-hold", bool(np.all(np.abs(length - 2) <= 0.5)), dict(c), "dumbbell lengths between %.3g and %.3g around the natural length 2" % (length.min(), length.max()), run.replay())
        planar(rec, c, run, d)
    return run


def example_e(rec, rng, c):
    run = runs.Run(None, setup=5, number=4, dt=1, frames=c["frames"], extra=dict(np_seed=int(rng.integers(1, 2 ** 31))))
    if finish(rec, run, c):
        d = run.data()
        x = d["centres"]
        size = np.sqrt(((x - x.mean(1, keepdims=True)) ** 2).sum((1, 2)) / x.shape[1])
        total = np.abs(d["Fa"]).sum((1, 2))
        rec.mon("spreads", bool(x.shape[1] == 41 and np.all(np.diff(size) > 0)), dict(c), "sizes of the cloud of spheres: %s" % np.round(size, 4).tolist(), run.replay())
        rec.mon("force-falls", bool(np.all(total[1:] < 0.5 * total[0])), dict(c), "total repulsion frame by frame: %s" % np.round(total, 3).tolist(), run.replay())
        planar(rec, c, run, d)
    return run


def walls(rec, c, run, d, n):
    v = np.diff(d["centres"], axis=0)[:, :n]
    want = np.zeros_like(v)
    want[:, :n // 2, 0], want[:, n // 2:, 0] = -1, 1
    e = float(np.max(np.abs(v - want)))
    rec.mon("walls", e <= 1e-9, dict(c), "a wall sphere's velocity is off its prescribed one by %.3g" % e, run.replay(), err=e)


def example_f(rec, rng, c):
    run = runs.Run(None, setup=6, number=5, form="ufte", dt=1, frames=c["frames"], extra=dict(np_seed=int(rng.integers(1, 2 ** 31))))
    if finish(rec, run, c):
        d = run.data()
        x = d["centres"]
        walls(rec, c, run, d, 90)
        z, u = x[0, 90:, 2], (x[1] - x[0])[90:, 0]
        slope, mid = np.polyfit(z - 5.5, u, 1)
        res = float(np.max(np.abs(u - slope * (z - 5.5) - mid)))
        rec.mon("couette", x.shape[1] == 290 and 0.13 <= slope <= 0.21 and abs(mid) <= 0.05 and res <= 0.25, dict(c), "dumbbells between the walls: shear rate %.3f, velocity half-way %.3f, deviation %.3f" % (slope, mid, res), run.replay(), err=res)
        planar(rec, c, run, d)
    return run


def example_g(rec, rng, c):
    run = runs.Run(None, setup=7, number=6, form="ufte", dt=1, frames=c["frames"])
    if finish(rec, run, c):
        d = run.data()
        x = d["centres"]
        walls(rec, c, run, d, 90)
        v = (x[1] - x[0])[90:].reshape(3, 3, 3)     # columns from left to right, rows from bottom to top
        e = float(max(np.max(np.abs(v[0, :, 0] - v[2, :, 0])), np.max(np.abs(v[0, :, 2] + v[2, :, 2])), np.max(np.abs(v[1, :, 2]))))
        rec.mon("symmetric", e <= 1e-7, dict(c), "velocities of the array are not symmetric under reversal (%.3g)" % e, run.replay(), err=e)
        rec.mon("array-drifts", bool(np.all(np.diff(x[:, 90:, 0], axis=0) > 0) and np.all(np.diff(v[:, :, 0], axis=1) > 0)), dict(c), "the array does not move to the right, sheared by the walls: %s" % np.round(v[:, :, 0], 3).tolist(), run.replay())
        rec.mon("forces-as-given", bool(np.all(np.abs(d["Fa"][:, 90:] - [10, 0, 0]) <= 1e-9)), dict(c), "forces on the array are not those prescribed", run.replay())
        planar(rec, c, run, d)
    return run


def body(chk):
    for name, rule, need in (("completes", "each documented command completes with one output file", 20),
                             ("chain-drag", "(a) drag coefficients of the chain of 15 are those of Durlofsky et al., fig. 1", 8),
                             ("published-paths", "(b) the three paths are those of Durlofsky et al., fig. 5", 28),
                             ("published-curve", "(c) sedimentation velocity of simple cubic arrays is that of Sierou & Brady, fig. 9", 5),
                             ("dilute-array", "(c) dilute cubic arrays follow Hasimoto's expansion", 8),
                             ("array-moves-as-one", "(c) every sphere of an array moves alike, along the force", 12),
                             ("oscillates", "(d) particles return after whole periods", 1),
                             ("springs-hold", "(d) springs keep the dumbbells near their natural length", 1),
                             ("spreads", "(e) the spheres spread out", 2),
                             ("force-falls", "(e) the total repulsion falls", 2),
                             ("walls", "(f,g) wall spheres move exactly as prescribed", 2),
                             ("couette", "(f) dumbbells follow the shear between the walls", 1),
                             ("array-drifts", "(g) the array moves to the right, faster near the wall moving right", 1),
                             ("forces-as-given", "(g) prescribed forces are those saved", 1),
                             ("symmetric", "(a,d,g) symmetry of the arrangement is kept", 3),
                             ("planar", "arrangements in a plane stay in it", 7)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cs = [dict(ex="f", frames=10 if th else 1), dict(ex="g", frames=10 if th else 2), dict(ex="b", scheme="ab2", dt=16, frames=800), dict(ex="b", scheme="rk4", dt=128, frames=100), dict(ex="c"), dict(ex="a"), dict(ex="d")]
    cs += [dict(ex="e", frames=10 if th else 3, rep=r) for r in range(12 if th else 3)]
    cs += [dict(ex="c", kind="sc", phi=p, curve=u) for p, u in SIEROU]
    rng = common.rng_for("p30")
    for kind in CELL:
        for p in np.exp(rng.uniform(np.log(3e-4), np.log(0.05), 20 if th else 4)):
            cs.append(dict(ex="c", kind=kind, phi=float(p)))
    cs.append(dict(ex="c", kind="sc", phi=0.02, cells=2))
    if th:
        cs += [dict(ex="b", scheme="rk4", dt=32, frames=400), dict(ex="f", frames=1, rep=1), dict(ex="c", kind="bcc", phi=0.01, cells=2)]
    par.run_cases(chk, os.path.abspath(__file__), "case", cs, loader={})


if __name__ == "__main__":
    common.main(body, common.Check("P30", rule="a state is one documented example (or one array) and one quantity of it"))
