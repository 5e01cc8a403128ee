"""P12 periodic wrapping moves particles by lattice vectors of the current box only."""
import os
import numpy as np
from lib import common, gen, integ, loads, par, runs
from lib import solver as S

FAR = 1  # fewer images are summed: the velocities are cruder but wrapping does not depend on them
PLANES = ((0, 2), (0, 1), (2, 0), (1, 2), (1, 0), (2, 1))


def images(B, k=1):
    r = np.arange(-k, k + 1)
    return np.array([[i, j, l] for i in r for j in r for l in r]) @ B


def nearest(x, B):
    """Nearest-image distance of every pair."""
    out = []
    inv = np.linalg.inv(B)
    im = images(B, 2)
    for i in range(len(x)):
        for j in range(i):
            d = x[i] - x[j]
            d = d - np.round(d @ inv) @ B
            out.append(np.min(np.linalg.norm(d + im, axis=1)))
    return np.array(out)


def build(rng, c):
    """A periodic run whose particles travel far compared with the box."""
    ns, nd = c["ns"], c["nd"]
    L = rng.uniform(7, 10, 3)
    if c.get("flatbox"):
        L[int(rng.integers(3))] *= 1.7
    centre = rng.normal(size=3) * (20 if c.get("far") else 4) * (0 if c.get("origin") else 1)
    dt = float(rng.choice([0.5, 0.25, 1.0]))
    push = c.get("push", 6.0)
    load = dict(Fa=(rng.normal(size=(ns, 3)) * push * 6).tolist(), Ta=(rng.normal(size=(ns, 3)) * 3).tolist(),
                Fb=(rng.normal(size=(nd, 3)) * push * 0.6).tolist(), DFb=(rng.normal(size=(nd, 3)) * 0.02).tolist(),
                box=[(centre - L / 2).tolist(), (centre + L / 2).tolist()])
    if c.get("shear"):
        f = dict(shear=float(c["shear"]), centre=(rng.normal(size=3) * 3).tolist(), plane=list(c.get("plane", (0, 2))))
        if c.get("osc"):
            f["w"] = float(rng.uniform(0.7, 2.5))
        load["flow"] = f
    lat = loads.lattice(load, 0, dt)
    pd = runs.particles(rng, ns, nd, box=(centre - L / 2, centre + L / 2), lat=lat, sizes=c.get("sizes", (1.0,)), gap=2.3)
    if c.get("outside"):
        k = rng.integers(-3, 4, size=(ns + nd, 3)) @ lat
        pd = (pd[0], pd[1] + k[:ns], pd[2] + k[:ns, None], pd[3], pd[4] + k[ns:], pd[5])
    st = dict(timestepping_scheme=c["scheme"], use_Minfinity_only=not c.get("full"), how_far_to_reproduce_gridpoints=FAR)
    if c.get("flat"):
        st["fully_2d_problem"] = True
    return runs.Run(pd, load=load, form=c.get("form", "fte" if ns else "fts"), dt=dt, frames=c.get("frames", 4 if c["scheme"] == "rk4" else 8), settings=st)


def case(rec, rng, c):
    if c["kind"] == "cubic":
        pd = runs.particles(rng, c["ns"], c["nd"], box=((-3.9,) * 3, (3.9,) * 3), lat=np.diag([8.] * 3), gap=2.3)
        pd = (pd[0], pd[1] + np.array([0, 0, -3.5 + pd[1][:, 2].min() * 0]), pd[2] + np.array([0, 0, -3.5]), pd[3], pd[4], pd[5])
        run = runs.Run(pd, number=2, dt=60.0, frames=4, settings=dict(timestepping_scheme=c["scheme"], use_Minfinity_only=True, how_far_to_reproduce_gridpoints=FAR))
        centre = None
    else:
        run = build(rng, c)
    try:
        execute(rec, run, c)
    finally:
        run.clean()


def execute(rec, run, c):
    st, rp = dict(case=c, **run.describe()), run.replay()
    run.go()
    bad = run.failure()
    d = run.data() if bad is None else None
    if bad is None and len(d["centres"]) != run.frames + 1:
        bad = "%d rows of positions for %d frames" % (len(d["centres"]), run.frames)
    rec.mon("run-completes", bad is None, st, bad, rp)
    if bad:
        return
    ns = len(run.pd[0])
    P = run.problem()
    states = integ.states_of(d, range(run.frames + 1), ns)
    box = run.load["box"] if run.load else [[-4.] * 3, [4.] * 3]
    mid = (np.array(box[0]) + np.array(box[1])) / 2
    for n in range(run.frames):
        try:
            new, F, v = P.predict(states, n)
        except S.RepoError as e:
            rec.mon("run-completes", False, st, "solve at a saved position fails: %s" % e, rp)
            return
        got, B = states[n + 1], P.lattice(n + 1)
        inv = np.linalg.inv(B)
        slanted = bool(np.any(np.abs(B - np.diag(np.diag(B))) > 1e-9))
        for key, name in (("x", "sphere"), ("y", "dumbbell")):
            if not len(new[key]):
                continue
            big = 1 + np.max(np.abs(new[key])) + np.max(np.abs(new[key] - states[n][key]))
            frac = (got[key] - mid) @ inv
            worst = np.max(np.abs(frac)) - 0.5
            rec.mon("inside-slanted" if slanted else "inside-box", bool(worst <= 1e-9 * big), dict(st, frame=n + 1, kind=name),
                    "a %s centre is outside the box after frame %d: box coordinates %s" % (name, n, frac.tolist()), rp, err=worst)
            shift = (got[key] - new[key]) @ inv
            k = np.round(shift)
            res = np.max(np.abs((shift - k) @ B))
            rec.mon("lattice-shift" if np.any(k) else "no-shift", bool(res <= 1e-8 * big), dict(st, frame=n + 1, kind=name, shifts=k.tolist()),
                    "%s centres after frame %d differ from the unwrapped ones by %s box edges" % (name, n, shift.tolist()), rp, err=res)
            for row in k[np.any(k != 0, axis=1)]:
                rec.count("crossings")
                if np.max(np.abs(row)) > 1:
                    rec.count("crossings_of_several_boxes")
        if len(new["x"]) + len(new["y"]) > 1:
            a, b = nearest(np.vstack([new["x"], new["y"]]), B), nearest(np.vstack([got["x"], got["y"]]), B)
            e = np.max(np.abs(a - b))
            rec.mon("images-kept", bool(e <= 1e-7 * (1 + np.max(np.abs(new["x"])) if len(new["x"]) else 1e-7 * (1 + np.max(np.abs(new["y"]))))), dict(st, frame=n + 1), "nearest-image separations changed by %.3g when wrapping" % e, rp, err=e)
        if len(new["d"]):
            e = np.max(np.abs(got["d"] - new["d"]))
            rec.mon("displacement-kept", bool(e <= 1e-8 * (1 + np.max(np.abs(new["d"])))), dict(st, frame=n + 1), "dumbbell displacements changed by %.3g when wrapping" % e, rp, err=e)
        if len(new["x"]):
            e = np.max(np.abs((got["rot"] - got["x"][:, None]) - (new["rot"] - new["x"][:, None])))
            big = 1 + np.max(np.abs(new["x"]))
            rec.mon("markers-kept", bool(e <= 1e-8 * big), dict(st, frame=n + 1), "markers moved by %.3g relative to their spheres" % e, rp, err=e)


def body(chk):
    for name, rule, need in (("run-completes", "periodic runs finish with all rows", 10),
                             ("inside-box", "after every step all centres are inside the rectangular box (box coordinates within 1/2 of the centre)", 40),
                             ("inside-slanted", "same for the sheared box as it is at the end of the step", 60),
                             ("lattice-shift", "wrapped minus unwrapped position is an integer combination of that box's edges (positions that crossed)", 60),
                             ("no-shift", "same, for steps in which nothing crossed", 10),
                             ("images-kept", "nearest-image separations are the same before and after wrapping", 60),
                             ("displacement-kept", "dumbbell displacements are untouched by wrapping", 30),
                             ("markers-kept", "markers stay where they were relative to their sphere", 60)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cases = []
    for rep in range(10 if th else 2):
        for sch in ("euler", "ab2", "rk4"):
            for ns, nd in ((2, 0), (2, 1), (0, 2), (1, 2)) if th or sch != "rk4" else ((2, 0), (1, 1), (0, 1)):
                cases.append(dict(kind="run", ns=ns, nd=nd, scheme=sch, rep=rep, origin=rep % 2 == 1))
                cases.append(dict(kind="run", ns=ns, nd=nd, scheme=sch, rep=rep, shear=float((1.3, -0.9)[rep % 2]), outside=rep % 2 == 0))
            for p in PLANES[:3] if not th else PLANES:
                cases.append(dict(kind="run", ns=2, nd=1, scheme=sch, rep=rep, shear=(0.8, -1.7, 3.1)[(rep + PLANES.index(p)) % 3], plane=p, far=rep % 2 == 0, flatbox=True))
            cases.append(dict(kind="run", ns=2, nd=1, scheme=sch, rep=rep, shear=2.2, osc=True, frames=5 if sch == "rk4" else 14))
            cases.append(dict(kind="run", ns=2, nd=1, scheme=sch, rep=rep, shear=0.4, frames=30 if th else 6 if sch == "rk4" else 16, push=0.5))
            cases.append(dict(kind="run", ns=2, nd=1, scheme=sch, rep=rep, shear=0.8, sizes=(1.0, 0.1, 10.0)[:2], full=True, frames=3, push=4.0))
            cases.append(dict(kind="run", ns=2, nd=1, scheme=sch, rep=rep, full=True, frames=3, push=40.0))
            cases.append(dict(kind="cubic", ns=2, nd=0, scheme=sch, rep=rep))
            if sch != "rk4":
                cases.append(dict(kind="run", ns=2, nd=0, scheme=sch, rep=rep, flat=True, shear=1.1))
    par.run_cases(chk, os.path.abspath(__file__), "case", cases, loader=dict(overrides=dict(how_far_to_reproduce_gridpoints=FAR)))


if __name__ == "__main__":
    common.main(body, common.Check("P12", rule="a state is one run and step; distinct = different run, step and particle kind"))
