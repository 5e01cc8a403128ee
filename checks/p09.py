"""P09 trajectories follow the declared time-stepping scheme."""
import os
import numpy as np
from lib import common, gen, integ, loads, par, runs
from lib import solver as S

ABS, REL = 1e-8, 1e-6


def compare(rec, run, d, frames, st, rp, rotations=False, monitor=None):
    ns = len(run.pd[0])
    P = run.problem()
    states = integ.states_of(d, frames, ns)
    for n in frames[:-1]:
        new, F, v = P.predict(states, n)
        got = states[n + 1]
        B = P.lattice(n + 1)
        for key, name in (("x", "sphere positions"), ("y", "dumbbell positions"), ("d", "dumbbell displacements")):
            if not len(new[key]):
                continue
            diff = got[key] - new[key]
            if B is not None and key != "d":
                diff = diff - np.round(diff @ np.linalg.inv(B)) @ B
            step = np.max(np.abs(new[key] - states[n][key]))
            e = np.max(np.abs(diff))
            if not np.isfinite(e):
                e = np.inf
            lim = ABS * (1 + np.max(np.abs(new[key]))) + REL * step
            rec.mon(monitor or {"x": "sphere-step", "y": "dumbbell-step", "d": "displacement-step"}[key], e <= lim, dict(st, frame=n),
                    "%s after frame %d differ from the %s step by %.3g (step size %.3g)" % (name, n, P.scheme, e, step), rp, err=e / max(step, 1e-12))
        if rec_flat(run) and ns:
            rec.mon("plane-kept", np.array_equal(got["x"][:, 1], states[0]["x"][:, 1]), dict(st, frame=n), "spheres left their plane: y=%s" % got["x"][:, 1], rp)


def rec_flat(run):
    return run.settings.get("fully_2d_problem", False)


def case(rec, rng, c):
    if c["kind"] == "random":
        kw = {k: c[k] for k in ("form", "periodic", "flat", "sizes", "beads", "frames") if k in c}
        if c.get("sizes"):
            kw["gap"] = 2.2
        if c.get("cross"):
            kw.update(sheared=True, settings=dict(use_Minfinity_only=True), dt=0.1)
        run = runs.random_run(rng, c["ns"], c["nd"], c["scheme"], **kw)
        if c.get("cross"):      # particles driven across the faces of a sheared box
            for key in ("Fa", "Fb"):
                run.load[key] = (rng.normal(size=(len(run.load[key]), 3)) * (400 if key == "Fa" else 40)).tolist()
            run.load.pop("trap", None)
    else:
        number, ns, nd = c["number"], c["ns"], c["nd"]
        pd = runs.particles(rng, ns, nd, gap=2.03 if number == 4 else 2.1, box=((-3.9, -3.9, -3.9), (3.9, 3.9, 3.9)) if number == 2 else None, lat=np.diag([8., 8, 8]) if number == 2 else None)
        run = runs.Run(pd, number=number, form=c.get("form", "fte"), dt=0.05 if number != 4 else 0.002, frames=4, settings=dict(timestepping_scheme=c["scheme"]))
    try:
        execute(rec, run, c)
    finally:
        run.clean()


def execute(rec, run, c):
    st, rp = dict(case=c, **run.describe()), run.replay()
    run.go()
    bad = run.failure()
    rec.mon("run-completes", bad is None, st, bad, rp)
    if bad:
        return
    d = run.data()
    n = len(d["centres"])
    if not rec.mon("run-completes", n == run.frames + 1, st, "the output has %d rows of positions for %d frames" % (n, run.frames), rp):
        return
    ns = len(run.pd[0])
    s0 = integ.states_of(d, [0], ns)[0]
    same = np.array_equal(s0["x"], run.pd[1]) and np.array_equal(s0["y"], run.pd[4]) and np.array_equal(s0["d"], run.pd[5])
    rec.mon("starts-at-setup", same, st, "the first saved state is not the starting configuration", rp)
    try:
        if run.settings.get("fully_2d_problem") and run.settings["timestepping_scheme"] == "rk4":
            states = integ.states_of(d, range(n), ns)
            for k in range(1, n):
                rec.mon("plane-kept", np.array_equal(states[k]["x"][:, 1], s0["x"][:, 1]), dict(st, frame=k), "spheres left their plane", rp)
        else:
            compare(rec, run, d, list(range(n)), st, rp)
    except S.RepoError as e:
        rec.mon("run-completes", False, st, "the solve at a saved position fails: %s" % e, rp)


def converge(rec, rng, c):
    """Halving the timestep: the global error over a fixed time falls at the scheme's order (independent of any solver call by the harness)."""
    ns, nd = c["ns"], c["nd"]
    load = dict(Fa=(rng.normal(size=(ns, 3)) * 5).tolist(), Ta=[[0., 0, 0]] * ns, Fb=(rng.normal(size=(nd, 3)) * 0.3).tolist(), DFb=[[0., 0, 0]] * nd,
                trap=dict(k=1.5, c=[0., 0, 0]), tf=dict(w=float(rng.uniform(3, 5)), ph=float(rng.uniform(0, 3))),
                flow=dict(runs.random_flow(rng, steady=False), w=float(rng.uniform(3, 5))))
    if nd:
        load["spring"] = dict(k=0.05, n=2.0)
    pd = runs.particles(rng, ns, nd, gap=4.6, beads=(1.0,), spread=9.0)
    ends = []
    T = 0.8
    for k in c["steps"]:
        run = runs.Run(pd, load=load, dt=T / k, frames=k, settings=dict(timestepping_scheme=c["scheme"], use_Minfinity_only=True))
        try:
            run.go()
            if run.failure():
                rec.mon("run-completes", False, dict(c), run.failure(), run.replay())
                return
            d = run.data()
            ends.append(np.concatenate([d["centres"][-1].ravel(), d["deltax"][-1].ravel()]))
        finally:
            run.clean()
    e1, e2 = np.linalg.norm(ends[0] - ends[-1]), np.linalg.norm(ends[1] - ends[-1])
    order = np.log2(e1 / max(e2, 1e-300))
    want = dict(euler=1, ab2=2, rk4=4)[c["scheme"]]
    rec.mon("order-of-accuracy", order > want - 0.55, dict(c, order=round(float(order), 2)), "global error falls with order %.2f when the timestep is halved (errors %.3g, %.3g); %s is of order %d" % (order, e1, e2, c["scheme"], want),
            dict(c, load=load, posdata=[np.asarray(p).tolist() for p in pd]), err=float(want - order))


def body(chk):
    for name, rule, need in (("run-completes", "a valid run finishes with one row per frame plus the final state", 10),
                             ("starts-at-setup", "the first saved state is exactly the starting configuration", 10),
                             ("sphere-step", "saved sphere positions equal the scheme applied to the recomputed velocities incl. background flow (1e-6 of the step)", 40),
                             ("dumbbell-step", "same for dumbbell centres", 20),
                             ("displacement-step", "same for dumbbell displacements", 20),
                             ("plane-kept", "with the two-dimensional option sphere y never changes", 6),
                             ("order-of-accuracy", "halving the timestep reduces the global error at the scheme's order", 3)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cases = []
    for rep in range(12 if th else 2):
        for sch in ("euler", "ab2", "rk4"):
            for ns, nd, form in ((2, 0, "fte"), (3, 0, "fte"), (2, 2, "fte"), (1, 1, "fte"), (0, 2, "fts"), (3, 1, "ufte"), (2, 2, "ufteu"), (0, 2, "duf")):
                cases.append(dict(kind="random", ns=ns, nd=nd, form=form, scheme=sch, rep=rep, **(dict(sizes=(1.0, 0.1)) if rep % 3 == 1 else {})))
            for ns, nd, form in ((2, 0, "fte"), (1, 1, "fte"), (0, 1, "fts")):
                cases.append(dict(kind="random", ns=ns, nd=nd, form=form, scheme=sch, periodic=True, frames=3, rep=rep))
            for ns, nd, form in ((2, 0, "fte"), (1, 1, "fte")):
                cases.append(dict(kind="random", ns=ns, nd=nd, form=form, scheme=sch, periodic=True, frames=6, cross=True, rep=rep))
            cases.append(dict(kind="random", ns=3, nd=1, form="fte", scheme=sch, flat=True, rep=rep))
    for rep in range(3 if th else 1):
        for sch in ("euler", "ab2", "rk4"):
            for number, ns, nd in ((1, 3, 0), (3, 2, 2), (3, 0, 1), (4, 3, 1), (7, 2, 1), (7, 3, 0)) + (((2, 2, 0),) if sch == "ab2" or th else ()):
                cases.append(dict(kind="provided", number=number, ns=ns, nd=nd, scheme=sch, form="fts" if ns == 0 else "fte", rep=rep))
            cases.append(dict(kind="provided", number=5, ns=4, nd=0, scheme=sch, form="ufte", rep=rep))
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "case", cases, loader={})
    orders = [dict(scheme=s, ns=ns, nd=nd, steps=st, rep=r) for r in range(4 if th else 1) for s, st in (("euler", (16, 32, 256)), ("ab2", (16, 32, 256)), ("rk4", (4, 8, 32))) for ns, nd in ((2, 0), (1, 1))]
    par.run_cases(chk, me, "converge", orders, loader={}, salt=1)


if __name__ == "__main__":
    common.main(body, common.Check("P09", rule="a case is one program run; distinct = different run and frame"))
