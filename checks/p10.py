"""P10 orientation markers rotate rigidly with their sphere."""
import os
import numpy as np
from lib import common, gen, integ, par, runs
from lib import solver as S


def markers(rng, pd, style, axes=None):
    """Starting markers: default, random frames, or one marker along the expected axis of rotation."""
    ns = len(pd[0])
    rot = pd[2].copy()
    for i in range(ns):
        if style == "default":
            continue
        q = gen.rotation(rng)
        a, b = q[0], q[1]
        if style == "oblique":
            b = gen.unit(rng)
        if style == "parallel" and axes is not None:
            a = axes[i] / np.linalg.norm(axes[i])
            if rng.random() < 0.5:
                a = -a
            b = np.cross(a, gen.unit(rng))
            b /= np.linalg.norm(b)
        rot[i, 0], rot[i, 1] = pd[1][i] + pd[0][i] * a, pd[1][i] + pd[0][i] * b
    return (pd[0], pd[1], rot) + tuple(pd[3:])


def check(rec, run, st, rp):
    run.go()
    bad = run.failure()
    rec.mon("run-completes", bad is None, st, bad, rp)
    if bad:
        return
    d = run.data()
    ns = len(run.pd[0])
    a = run.pd[0]
    n = len(d["centres"])
    if not rec.mon("run-completes", np.shape(d["sphere_rotations"]) == (n, ns, 2, 3), st, "markers saved with shape %s for %d rows and %d spheres" % (np.shape(d["sphere_rotations"]), n, ns), rp):
        return
    states = integ.states_of(d, range(n), ns)
    r0 = states[0]["rot"] - states[0]["x"][:, None]
    rec.mon("starts-at-setup", np.allclose(states[0]["rot"], run.pd[2], atol=1e-12 * (1 + np.max(np.abs(run.pd[2])))), st, "the first saved markers are not those of the starting configuration", rp)
    P = run.problem()
    ang0 = np.sum(r0[:, 0] * r0[:, 1], axis=1) / a ** 2
    for k in range(n):
        r = states[k]["rot"] - states[k]["x"][:, None]
        big = 1 + np.max(np.abs(states[k]["x"])) / np.min(a)
        dist = np.max(np.abs(np.linalg.norm(r, axis=2) / a[:, None] - 1))
        rec.mon("attached", bool(dist < 1e-9 * big), dict(st, row=k), "a marker is %.3g radii off its sphere's surface" % dist, rp, err=dist)
        da = np.max(np.abs(np.sum(r[:, 0] * r[:, 1], axis=1) / a ** 2 - ang0))
        rec.mon("angle-kept", bool(da < 1e-8 * big), dict(st, row=k), "the cosine of the angle between the markers changed by %.3g" % da, rp, err=da)
        if k + 1 < n:
            try:
                new, F, v = P.predict(states, k)
            except S.RepoError as e:
                rec.mon("run-completes", False, st, "solve at a saved position fails: %s" % e, rp)
                return
            rn = states[k + 1]["rot"] - states[k + 1]["x"][:, None]
            want = new["rot"] - new["x"][:, None]
            e = np.max(np.abs(rn - want) / a[:, None, None])
            w = np.linalg.norm(v["w"], axis=1) * P.dt
            lim = 1e-8 * big * (1 + np.max(w)) + 1e-6 * np.max(w) * (np.max(w) < 1)
            rec.mon("turn", bool(e <= lim), dict(st, row=k, angles=[float("%.3g" % x) for x in w]),
                    "markers after frame %d are %.3g radii from the rotation about the angular velocity (angle swept %s)" % (k, e, w), rp, err=e)
            rec.mon("turn-tiny" if np.max(w) < 1e-4 else "turn-huge" if np.max(w) > 3 else "turn-moderate", bool(e <= lim), dict(st, row=k), "see turn", rp)


def case(rec, rng, c):
    if c["kind"] == "mixed":
        run = runs.random_run(rng, c["ns"], c["nd"], c["scheme"], periodic=c.get("periodic", False), sizes=c.get("sizes", (1.0,)), frames=4, gap=2.2)
        run.pd = markers(rng, run.pd, c["style"])
    else:
        a = c["a"]
        ns = 1 if c.get("spin") else 2
        x = rng.normal(size=(ns, 3)) * 2
        if ns == 2:
            x[1] = x[0] + gen.unit(rng) * 40 * a
        pd = S.posdata([(a, x[i]) for i in range(ns)])
        ax = np.array([{"x": [1., 0, 0], "y": [0, 1., 0], "z": [0, 0, 1.], "-x": [-1., 0, 0], "-z": [0, 0, -1.], "nearx": [1., 1e-6, -1e-6], "any": gen.unit(rng)}[c["axis"]] for _ in range(ns)])
        dt = float(rng.choice([0.1, 0.05]))
        w = c["angle"] / dt
        pd = markers(rng, pd, c["style"], ax)
        load = dict(Fa=(rng.normal(size=(ns, 3)) * c.get("push", 0.0)).tolist(), Ta=(8 * np.pi * a ** 3 * w * ax).tolist())
        if c.get("spin"):
            load["Ta"] = [[0., 0, 0]] * ns
            load["flow"] = dict(O=(w * ax[0]).tolist(), centre=x[0].tolist())
        run = runs.Run(pd, load=load, dt=dt, frames=4, settings=dict(timestepping_scheme=c["scheme"], use_Minfinity_only=bool(c.get("minf", False))))
    try:
        check(rec, run, dict(case=c, **run.describe()), run.replay())
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("run-completes", "the run finishes and saves two markers per sphere and row", 20),
                             ("starts-at-setup", "first saved markers are those of the starting configuration", 20),
                             ("attached", "every marker lies one radius from its sphere's centre in every saved row", 60),
                             ("angle-kept", "the angle between a sphere's two markers never changes", 60),
                             ("turn", "in every step the markers turn about the angular velocity (flow included) by the angle it sweeps, right-handed", 40),
                             ("turn-tiny", "turns below 1e-4 rad", 4), ("turn-moderate", "turns between", 20), ("turn-huge", "turns above 3 rad", 4)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cases = []
    for rep in range(10 if th else 2):
        for sch in ("euler", "ab2", "rk4"):
            for style in ("default", "oblique", "frame"):
                cases.append(dict(kind="mixed", ns=2, nd=1, scheme=sch, style=style, rep=rep, sizes=((1.0,), (1.0, 0.1), (0.1,), (10.0, 1.0))[rep % 4]))
            cases.append(dict(kind="mixed", ns=2, nd=0, scheme=sch, style="frame", periodic=True, rep=rep))
    for rep in range(6 if th else 1):
        for sch in ("euler", "ab2", "rk4"):
            for axis in ("x", "y", "z", "-x", "-z", "any", "any", "nearx"):
                for style in ("default", "parallel", "frame"):
                    cases.append(dict(kind="spin", scheme=sch, axis=axis, style=style, angle=float(10 ** rng_angle(chk.rng)), a=float(chk.rng.choice([1., 0.1, 10., 2.5])),
                                      spin=bool(chk.rng.random() < 0.4), push=float(chk.rng.choice([0, 1.0])), rep=rep))
            cases.append(dict(kind="spin", scheme=sch, axis="any", style="frame", angle=0.0, a=1.0, push=1.0, rep=rep))
            cases.append(dict(kind="spin", scheme=sch, axis="z", style="default", angle=7.0, a=1.0, push=1.0, rep=rep))
            cases.append(dict(kind="spin", scheme=sch, axis="any", style="oblique", angle=1e-7, a=1.0, push=0.0, rep=rep))
    par.run_cases(chk, os.path.abspath(__file__), "case", cases, loader={})


def rng_angle(rng):
    return rng.choice([-6, -3, -1, 0, 0, 0.3, 0.9, 1.5]) + rng.uniform(-0.3, 0)


if __name__ == "__main__":
    common.main(body, common.Check("P10", rule="a case is one program run; distinct = different run and saved row"))
