"""P27 the reported force on fixed spheres due to dumbbells is the dumbbells' own contribution."""
import os
import numpy as np
from lib import common, gen, integ, loads, par, runs
from lib import solver as S

KEYS = ("Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HDUb")


def off(spec):
    return dict(spec, Fb=np.zeros_like(np.asarray(spec["Fb"], float)), DFb=np.zeros_like(np.asarray(spec["DFb"], float)))


def contribution(pd, spec, k, **kw):
    a = S.solve(pd, spec, form="ufte", **kw)
    b = S.solve(pd, off(spec), form="ufte", **kw)
    return a, a["Fa"][:k] - b["Fa"][:k]


def make(rng, c):
    ns, nd, k = c["ns"], c["nd"], c["k"]
    box = lat = None
    if c.get("periodic"):
        L = rng.uniform(9, 12, 3)
        box, lat = (-L / 2, L / 2), np.diag(L)
    pd = runs.particles(rng, ns, nd, sizes=c.get("sizes", (1.0,)), beads=c.get("beads", (0.1,)), box=box, lat=lat, gap=2.1)
    spec = dict(Fa=[None] * k + rng.normal(size=(ns - k, 3)).tolist(), Ta=rng.normal(size=(ns, 3)), Fb=rng.normal(size=(nd, 3)) * 2, DFb=rng.normal(size=(nd, 3)) * 2,
                Ua=rng.normal(size=(k, 3)).tolist() + [None] * (ns - k), Ea=[S.random_strain(rng)] * ns)
    if c.get("wall"):
        spec["Ua"] = [[0., 0, 0]] * k + [None] * (ns - k)
    if lat is not None:
        spec["box_bl"], spec["box_tr"] = box
    if c.get("mu"):
        spec["mu"] = c["mu"]
    return pd, spec


def case(rec, rng, c):
    pd, spec = make(rng, c)
    k = c["k"]
    kw = dict(minf_only=c.get("minf", False), drag=c.get("drag", False))
    st, rp = dict(c, conf=gen.describe(pd)), dict(c, posdata=[np.asarray(p).tolist() for p in pd], spec=common.jsonable(spec))
    try:
        plain, want = contribution(pd, spec, k, **kw)
        got = S.solve(pd, spec, form="ufte", extract=True, **kw)
    except S.RepoError as e:
        rec.mon("completes", False, st, "a solve with extraction fails: %s" % e, rp)
        return
    rec.mon("completes", True, st)
    w = np.asarray(got["wall"], float)
    if k == 0:
        rec.mon("nothing-fixed", w.size == 0 or not np.any(w), st, "no sphere is fixed but a force %s is reported" % w, rp)
    else:
        ok = w.shape == (k, 3)
        if rec.mon("per-sphere", ok, st, "the reported force has shape %s for %d fixed spheres" % (w.shape, k), rp):
            sc = np.max(np.abs(want)) + 1e-9
            e = np.max(np.abs(w - want)) / sc
            rec.mon("contribution", bool(e <= 1e-6), st, "reported force on the fixed spheres is off by %.3g of its size: %s, switching the dumbbell forces off changes the force by %s" % (e, w[:2].tolist(), want[:2].tolist()), rp, err=e)
            two = S.solve(pd, dict(spec, Fb=spec["Fb"] * -3, DFb=spec["DFb"] * -3), form="ufte", extract=True, **kw)
            e = np.max(np.abs(np.asarray(two["wall"], float) + 3 * w)) / sc
            rec.mon("proportional", bool(e <= 1e-6), st, "the reported force is not proportional to the dumbbell forces (%.3g)" % e, rp, err=e)
            other = dict(spec, Ua=[None if u is None else (np.array(u) + 1.5).tolist() for u in spec["Ua"]], Ta=spec["Ta"] * 2 + 1, Ea=[S.random_strain(rng)] * c["ns"],
                         Fa=[None if f is None else (np.array(f) * 2 - 1).tolist() for f in spec["Fa"]])
            e = np.max(np.abs(np.asarray(S.solve(pd, other, form="ufte", extract=True, **kw)["wall"], float) - w)) / sc
            rec.mon("only-dumbbells", bool(e <= 1e-6), st, "the reported force changes with loads that are not on dumbbells (%.3g)" % e, rp, err=e)
    for q in KEYS:
        if np.size(plain[q]):
            sc = np.max(np.abs(plain[q])) + 1e-6
            e = np.max(np.abs(got[q] - plain[q])) / sc
            rec.mon("nothing-else-changes", bool(e <= 1e-6), dict(st, q=q), "asking for the force changes %s by %.3g of its size" % (q, e), rp, err=e)


def others(rec, rng, c):
    """In the other forms asking for the force changes nothing either."""
    ns, nd, form = c["ns"], c["nd"], c["form"]
    pd = runs.particles(rng, ns, nd)
    load = runs.random_load(rng, ns, nd, form)
    spec = loads.at(load, pd, 0, 0.1)
    st, rp = dict(c, conf=gen.describe(pd)), dict(c, posdata=[np.asarray(p).tolist() for p in pd], load=load)
    try:
        a, b = S.solve(pd, spec, form=form), S.solve(pd, spec, form=form, extract=True)
    except S.RepoError as e:
        rec.mon("completes", False, st, "a solve fails: %s" % e, rp)
        return
    for q in KEYS:
        if np.size(a[q]):
            e = np.max(np.abs(a[q] - b[q])) / (np.max(np.abs(a[q])) + 1e-6)
            rec.mon("nothing-else-changes", bool(e <= 1e-6), dict(st, q=q), "in %s form asking for the force changes %s by %.3g" % (form, q, e), rp, err=e)


def program(rec, rng, c):
    run = runs.random_run(rng, c["ns"], c["nd"], c["scheme"], form="ufte", frames=4)
    ns, nd, k = c["ns"], c["nd"], c["k"]
    load = runs.random_load(rng, ns, nd, "ufte", fixed=k)
    run.load = load
    if c.get("save"):
        run.settings["save_forces_every_n_timesteps"] = c["save"]
    st, rp = dict(case=c, **run.describe()), run.replay()
    try:
        run.go(clock="2611160101")
        plain = run.data() if run.failure() is None else None
        run.argv = run.argv + [c["word"]]
        run.go(clock="2611160102")
        if not rec.mon("completes", plain is not None and run.failure() is None, st, "a run with extraction fails: %s" % run.failure(), rp):
            return
        name = sorted(run.files())[-1]
        d = run.data(name)
        for q in ("centres", "deltax", "sphere_rotations", "Fa", "Fb", "DFb", "Sa"):
            if np.size(plain[q]):
                e = np.max(np.abs(d[q] - plain[q])) / (np.max(np.abs(plain[q])) + 1e-6) if np.shape(d[q]) == np.shape(plain[q]) else np.inf
                rec.mon("nothing-else-changes", bool(e <= 1e-6), dict(st, q=q), "asking for the force changes the saved %s by %.3g" % (q, e), rp, err=e)
        w = np.asarray(d["force_on_wall_due_to_dumbbells"], float)
        fr = [f for f in range(run.frames) if f % (c.get("save") or 1) == 0]
        if not rec.mon("per-sphere", w.shape == (len(fr), k, 3), st, "saved forces on fixed spheres have shape %s, expected %s" % (w.shape, (len(fr), k, 3)), rp):
            return
        # independent: repeat each frame's solves without the dumbbell forces
        states = integ.states_of(d, range(run.frames + 1), ns)
        P = run.problem()
        for row, n in enumerate(fr):
            if c["scheme"] == "rk4":
                want = rk4(P, states, n, k)
            else:
                spec = loads.at(load, P.pd(states[n]), n, run.dt)
                want = contribution(P.pd(states[n]), spec, k, frameno=n, timestep=run.dt)[1]
            e = np.max(np.abs(w[row] - want)) / (np.max(np.abs(want)) + 1e-9)
            rec.mon("saved-contribution", bool(e <= 1e-5), dict(st, frame=n), "force saved for frame %d is off by %.3g of its size" % (n, e), rp, err=e)
    except S.RepoError as e:
        rec.mon("completes", False, st, "a solve at saved positions fails: %s" % e, rp)
    finally:
        run.clean()


def rk4(P, states, n, k):
    """Weighted contribution over the stages of a Runge-Kutta step."""
    st, dt = states[n], P.dt
    tot = np.zeros((k, 3))
    cur, v = st, None
    for frame, h, w in ((n, dt / 2, 1), (n + 0.5, dt / 2, 2), (n + 0.5, dt, 2), (n + 1, None, 1)):
        spec = loads.at(P.load, P.pd(cur), frame, dt)
        tot += w / 6 * contribution(P.pd(cur), spec, k, frameno=frame, timestep=dt)[1]
        if h:
            v, o, fl = P.velocities(cur, frame)
            cur = P.advance(st, v, h)
    return tot


def body(chk):
    for name, rule, need in (("completes", "solves and runs with the extraction finish", 20),
                             ("per-sphere", "one force per fixed sphere", 20),
                             ("contribution", "the reported force is the difference of two separate solves, with and without the dumbbell forces", 20),
                             ("proportional", "the reported force scales with the dumbbell forces", 20),
                             ("only-dumbbells", "the reported force does not depend on any other load", 20),
                             ("nothing-fixed", "nothing is reported when no sphere is fixed", 1),
                             ("nothing-else-changes", "all other results are the same with and without the request", 150),
                             ("saved-contribution", "the force saved by a run equals the difference of separate solves at the saved positions", 12)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    n = 20 if th else 1
    me = os.path.abspath(__file__)
    cs = []
    for r in range(n):
        for ns, nd, k in ((2, 1, 1), (3, 2, 2), (3, 3, 3), (1, 2, 1), (4, 1, 1), (2, 2, 0)):
            for o in (dict(), dict(minf=True), dict(mu=2.5), dict(drag=True), dict(wall=True)):
                cs.append(dict(ns=ns, nd=nd, k=k, rep=r, **o))
        cs.append(dict(ns=3, nd=2, k=2, sizes=(1.0, 0.1), beads=(0.1, 1.0), rep=r))
        cs.append(dict(ns=2, nd=1, k=1, periodic=True, rep=r))
    par.run_cases(chk, me, "case", cs, loader=dict(overrides=dict(how_far_to_reproduce_gridpoints=1)))
    par.run_cases(chk, me, "others", [dict(ns=ns, nd=nd, form=f, rep=r) for r in range(n) for ns, nd, f in ((2, 1, "fte"), (2, 1, "fts"), (2, 2, "ufteu"), (0, 2, "duf"), (0, 2, "fts"))], loader={}, salt=1)
    words = ["True", "true", "t", "T", "1"]
    pr = [dict(ns=ns, nd=nd, k=k, scheme=s, rep=r) for r in range(n) for s in ("euler", "ab2", "rk4") for ns, nd, k in ((2, 1, 1), (3, 2, 3), (4, 2, 2))]
    for i, p in enumerate(pr):
        p["word"] = words[i % 5]
        if i % 4 == 1:
            p["save"] = 2
    par.run_cases(chk, me, "program", pr, loader={}, salt=2)


if __name__ == "__main__":
    common.main(body, common.Check("P27", rule="a state is one configuration and option set, or one run and frame"))
