"""P11 imposed background flow carries particles as a fluid element would (closed forms only, no solver call by the harness)."""
import os
import numpy as np
from lib import common, gen, integ, loads, oracle, par, runs, twosphere
from lib import solver as S


def flow_at(f, t):
    c = loads.phase(f, t)
    if f.get("shear") is not None:
        O, E = loads.shear_parts(f["shear"])
    else:
        O, E = np.array(f.get("O", [0, 0, 0]), float), np.array(f.get("E", np.zeros((3, 3))), float)
    U, x0 = np.array(f.get("U", [0, 0, 0]), float), np.array(f.get("centre", [0, 0, 0]), float)
    return c * U, c * O, c * E, x0


def scheme_path(f, x, d, rot, dt, frames, scheme):
    """Points x and displacements d carried by the linear flow with the given scheme; markers turn at the vorticity."""
    def vel(x, d, t):
        U, O, E, c = flow_at(f, t)
        return U + np.cross(O, x - c) + (x - c) @ E.T, np.cross(O, d) + d @ E.T, O
    X, D, R = [x], [d], [rot]
    old = None
    for n in range(frames):
        t = n * dt
        v = vel(x, d, t)
        if scheme == "euler" or (scheme == "ab2" and old is None):
            w = v
        elif scheme == "ab2":
            w = tuple(1.5 * a - 0.5 * b for a, b in zip(v, old))
        else:
            k2 = vel(x + dt / 2 * v[0], d + dt / 2 * v[1], t + dt / 2)
            k3 = vel(x + dt / 2 * k2[0], d + dt / 2 * k2[1], t + dt / 2)
            k4 = vel(x + dt * k3[0], d + dt * k3[1], t + dt)
            w = tuple((a + 2 * b + 2 * c + e) / 6 for a, b, c, e in zip(v, k2, k3, k4))
        old = v
        r = integ.rotate(rot - x[:len(rot), None], np.array([w[2]] * len(rot)), dt)
        x, d = x + dt * w[0], d + dt * w[1]
        rot = r + x[:len(rot), None]
        X.append(x)
        D.append(d)
        R.append(rot)
    return np.array(X), np.array(D), np.array(R)


def case(rec, rng, c):
    ns, nd, kind = c["ns"], c["nd"], c["kind"]
    form = c["form"]
    dt = float(rng.choice([0.1, 0.05, 0.2]))
    frames = int(rng.integers(3, 6))
    number = None
    load = None
    f = runs.random_flow(rng)
    if kind == "rigid":
        f["E"] = np.zeros((3, 3))
    if kind == "uniform":
        f["E"], f["O"] = np.zeros((3, 3)), np.zeros(3)
    if kind == "isolated":
        a = float(rng.choice([1., 0.1, 10., 2.5]))
        pd = S.posdata([(a, rng.normal(size=3) * 5)])
    elif kind == "far-beads":
        a = float(rng.choice([1., 0.1]))
        pd = S.posdata([], [(a, rng.normal(size=3) * 5 + 200 * a * i, gen.unit(rng) * a * rng.uniform(25, 40)) for i in range(nd)])
    elif kind == "provided":
        number = c["number"]
        pd = S.posdata([(1., rng.normal(size=3) * 5)] if ns else [], [(0.1, rng.normal(size=3) * 4 + 60 * i, gen.unit(rng) * rng.uniform(3, 5)) for i in range(nd)])
        f = dict(shear=1.0) if number == 7 else dict(shear=1 / 3 * 2 * np.pi / 10, w=2 * np.pi / 10, centre=[2.25, 0, 2.25])
    elif kind == "image":
        L = rng.uniform(8, 10, 3)
        pd = gen.config(rng, ns, nd, (1.0,), (0.1,), gap=2.1, image=oracle.nearest_image(np.diag(L)), box=(-L / 2, L / 2))
        f["E"], f["O"] = np.zeros((3, 3)), np.zeros(3)
    else:
        pd = gen.config(rng, ns, nd, c.get("sizes", (1.0,)), (0.1,), gap=2.06)
    if number is None:
        z = lambda n: [[0., 0, 0]] * n
        load = dict(Fa=z(ns), Ta=z(ns), Fb=z(nd), DFb=z(nd), flow=f, mu=float(rng.choice([1.0, 0.3])))
        if form in ("ufte", "ufteu"):
            load["Ua"] = [None] * ns
        if form in ("ufteu", "duf"):
            load["Ub"], load["HDUb"] = [None] * nd, [None] * nd
        if kind == "image":
            load["box"] = [(-L / 2).tolist(), (L / 2).tolist()]
    st = dict(timestepping_scheme=c["scheme"])
    if c.get("every"):
        st["invert_m_every"] = c["every"]
    run = runs.Run(pd, load=load, number=number, form=form, dt=dt, frames=frames, settings=st)
    try:
        run.go()
        s, rp = dict(case=c, **run.describe()), run.replay()
        bad = run.failure()
        if not rec.mon("run-completes", bad is None, s, bad, rp):
            return
        d = run.data()
        states = integ.states_of(d, range(len(d["centres"])), ns)
        x0 = np.concatenate([pd[1], pd[4]])
        X, D, R = scheme_path(f, x0, pd[5], pd[2], dt, frames, c["scheme"])
        for n in range(1, frames + 1):
            got = np.concatenate([states[n]["x"], states[n]["y"]])
            diff = got - X[n]
            if kind == "image":
                diff = diff - np.round(diff / L) * L
            size = np.max(np.abs(X[n] - X[n - 1])) + 1e-3
            big = 1 + np.max(np.abs(X[n]))
            tol = 1e-6 * size + 1e-8 * big
            e = np.max(np.abs(diff))
            name = {"isolated": "isolated-sphere", "far-beads": "beads-follow-flow", "rigid": "rigid-motion", "uniform": "rigid-motion", "provided": "provided-flow", "image": "rigid-motion"}[kind]
            rec.mon(name, bool(e <= tol), dict(s, row=n), "after frame %d particles are %.3g away from where the flow carries them (step %.3g)" % (n - 1, e, size), rp, err=e / size)
            if nd:
                e = np.max(np.abs(states[n]["d"] - D[n]))
                rec.mon(name, bool(e <= tol), dict(s, row=n, d=1), "after frame %d dumbbell displacements are %.3g away from what the flow makes of them" % (n - 1, e), rp, err=e / size)
            if ns:
                a = pd[0]
                r = states[n]["rot"] - states[n]["x"][:, None]
                want = R[n] - X[n][:ns, None]
                e = np.max(np.abs(r - want) / a[:, None, None])
                rec.mon("spin-at-vorticity", bool(e <= 1e-6 + 1e-8 * big / np.min(a)), dict(s, row=n), "after frame %d markers are %.3g radii away from rotation at the vorticity" % (n - 1, e), rp, err=e)
    finally:
        run.clean()


def pair(rec, rng, c):
    """Two force-free spheres in a straining flow, against the exact two-sphere solution."""
    lam = c["lam"]
    x1 = rng.normal(size=3)
    n = gen.unit(rng)
    d = 0.5 * (1 + lam) * c["s"]
    pd = S.posdata([(1.0, x1), (lam, x1 + d * n)])
    E = S.random_strain(rng)
    O = rng.normal(size=3) * 0.3
    f = dict(U=rng.normal(size=3), O=O, E=E, centre=rng.normal(size=3))
    dt = 1e-3
    load = dict(Fa=[[0., 0, 0]] * 2, Ta=[[0., 0, 0]] * 2, flow=f)
    run = runs.Run(pd, load=load, dt=dt, frames=1)
    try:
        run.go()
        s, rp = dict(case=c, **run.describe()), run.replay()
        if not rec.mon("run-completes", run.failure() is None, s, run.failure(), rp):
            return
        D = run.data()
        v = (D["centres"][1] - D["centres"][0]) / dt
        amb = np.array([f["U"] + np.cross(O, x - f["centre"]) + E @ (x - f["centre"]) for x in pd[1]])
        dist = v - amb
        R, res = twosphere.grand_resistance(pd[1][1] - pd[1][0], 1.0, lam, 1.0)
        e5 = S.condense(E)
        rhs = R[:12, 12:] @ np.concatenate([e5, e5])
        exact = np.linalg.solve(R[:12, :12], rhs)[:6].reshape(2, 3)
        scale = np.max(np.abs(exact))
        tol = 5e-3 if c["s"] > 2.15 else 2e-2
        tol = tol * scale + 1e-6
        e1, e2 = np.max(np.abs(dist - exact)), np.max(np.abs(dist + exact))
        ok = e1 <= tol
        rec.mon("pair-in-strain", bool(ok), s, "the disturbance velocity of two force-free spheres in a straining flow is %s, exact %s (differs by %.3g of %.3g)" % (dist.round(6).tolist(), exact.round(6).tolist(), e1, scale), rp,
                key="strain-coupling-sign" if e2 <= tol else None, err=float(e1 / scale))
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("run-completes", "a valid run finishes", 10),
                             ("isolated-sphere", "a force- and torque-free single sphere moves with the undisturbed flow at its centre (through the scheme)", 20),
                             ("beads-follow-flow", "force-free distant beads each move with the flow", 20),
                             ("rigid-motion", "uniform velocity and rigid rotation of the fluid move any configuration rigidly", 20),
                             ("provided-flow", "the provided constant and oscillating shear carry a sphere or dumbbell as stated", 10),
                             ("spin-at-vorticity", "markers of force- and torque-free spheres turn at the vorticity", 40),
                             ("pair-in-strain", "two force-free spheres in a straining flow move as the exact two-sphere solution says", 6)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cases = []
    for rep in range(12 if th else 2):
        for sch in ("euler", "ab2", "rk4"):
            cases += [dict(kind="isolated", ns=1, nd=0, form=f, scheme=sch, rep=rep) for f in ("fte", "ufte")]
            cases += [dict(kind="far-beads", ns=0, nd=nd, form=f, scheme=sch, rep=rep) for f, nd in (("fts", 1), ("duf", 2), ("fts", 3))]
            cases += [dict(kind=k, ns=ns, nd=nd, form=f, scheme=sch, rep=rep, **kw) for k, ns, nd, f, kw in (
                ("rigid", 3, 0, "fte", {}), ("rigid", 2, 2, "fte", {}), ("rigid", 2, 1, "ufteu", {}), ("rigid", 0, 2, "duf", {}), ("uniform", 4, 1, "ufte", dict(every=3)),
                ("rigid", 3, 0, "fte", dict(sizes=(1.0, 0.1), every=2)), ("rigid", 0, 3, "fts", {}))]
            cases += [dict(kind="provided", number=n, ns=ns, nd=nd, form=f, scheme=sch, rep=rep) for n, ns, nd, f in ((7, 1, 0, "fte"), (7, 0, 2, "fts"), (3, 1, 0, "fte"))]
        cases.append(dict(kind="image", ns=2, nd=0, form="fte", scheme=("euler", "ab2", "rk4")[rep % 3], rep=rep))
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "case", cases, loader={})
    pairs = [dict(s=s, lam=lam, rep=r) for r in range(4 if th else 1) for s in (2.1, 2.2, 2.5, 3.0, 3.6) for lam in (1.0, 0.1)]
    par.run_cases(chk, me, "pair", pairs, loader={}, salt=1)


if __name__ == "__main__":
    common.main(body, common.Check("P11", rule="a case is one program run; distinct = different run and saved row"))
