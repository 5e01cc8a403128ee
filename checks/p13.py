"""P13 the long-range matrix is refreshed exactly on schedule."""
import os
import numpy as np
from lib import common, gen, integ, loads, par, runs
from lib import solver as S


def compare(rec, run, d, frames, P, st, rp, wrong, name):
    """Steps of a run against the scheduled prediction; `wrong` are alternative schedules used to tell whether this step could reveal a mistake."""
    ns = len(run.pd[0])
    states = integ.states_of(d, frames, ns)
    for n in frames[:-1]:
        new, F, v = P.predict(states, n)
        got = states[n + 1]
        other = 0.0
        for Q in wrong:
            alt = Q.predict(states, n)[0]
            other = max(other, max(np.max(np.abs(alt[k] - new[k])) for k in ("x", "y", "d") if len(new[k])))
        e, step = 0.0, 0.0
        B = P.lattice(n + 1)
        for k in ("x", "y", "d"):
            if not len(new[k]):
                continue
            diff = got[k] - new[k]
            if B is not None and k != "d":
                diff = diff - np.round(diff @ np.linalg.inv(B)) @ B
            e = max(e, np.max(np.abs(diff)))
            step = max(step, np.max(np.abs(new[k] - states[n][k])))
        lim = 1e-9 * (1 + np.max(np.abs(got["x"])) if len(got["x"]) else 1e-9 * (1 + np.max(np.abs(got["y"])))) + 1e-7 * step
        fresh = P.refresh_frame(n) == n
        if other > 20 * lim:
            rec.count("steps_that_would_reveal_another_schedule")
            rec.mon(name + ("-refresh-frame" if fresh else "-reused"), bool(e <= lim), dict(st, frame=n),
                    "the step of frame %d differs by %.3g from the one using the long-range matrix of frame %d (step size %.3g; another schedule would give %.3g)" % (n, e, P.refresh_frame(n), step, other), rp, err=e / max(step, 1e-12))
        else:
            rec.mon("other-steps", bool(e <= lim), dict(st, frame=n), "the step of frame %d differs by %.3g from the scheduled one" % (n, e), rp)
        for k, nm in (("Fa", "Fa"), ("Sa", "Sa"), ("Fb", "Fb"), ("DFb", "DFb")):
            if name == "resumed" and n == frames[0]:
                continue  # the backup already held this frame's forces, found before the interruption with the schedule in force then
            if n - frames[0] < len(d[nm]) and np.size(F[k]):
                g = np.asarray(d[nm][n - frames[0]], float)
                if g.shape == np.shape(F[k]):
                    sc = np.max(np.abs(F[k])) + 1e-3
                    rec.mon("forces", bool(np.max(np.abs(g - F[k])) <= 1e-6 * sc), dict(st, frame=n, q=k), "%s saved for frame %d differ from those solved with the scheduled matrix by %.3g" % (k, n, np.max(np.abs(g - F[k]))), rp)


def make(rng, c):
    every = c["every"]
    kw = dict(form=c.get("form", "fte"), periodic=c.get("periodic", False), frames=c["frames"], every=every, stages=c.get("stages", True), dt=float(rng.choice([0.1, 0.2, 0.05])))
    if c.get("jit"):
        kw["beads"] = (0.1,)
    run = runs.random_run(rng, c["ns"], c["nd"], c["scheme"], **kw)
    # make particles move appreciably between refreshes
    for k in ("Fa",):
        if run.load.get(k):
            run.load[k] = [None if r is None else (np.array(r) * 4).tolist() for r in run.load[k]]
    run.settings.update(c.get("settings", {}))
    if c.get("periodic"):
        run.settings["how_far_to_reproduce_gridpoints"] = 1
    return run


def alternatives(run, start=0, **kw):
    every, stages, sch = run.settings["invert_m_every"], run.settings["rk4_generate_minfinity_for_each_stage"], run.settings["timestepping_scheme"]
    alts = []
    if every > 1:
        alts.append(run.problem(every=1, start=start))
        alts.append(run.problem(every=every - 1, start=start))
    else:
        alts.append(run.problem(every=2, start=start))
    if every > 2:
        alts.append(run.problem(every=every + 1, start=start))
    if sch == "rk4":
        alts.append(run.problem(stages=not stages, start=start))
    return alts


def case(rec, rng, c):
    run = make(rng, c)
    try:
        st, rp = dict(case=c, **run.describe()), run.replay()
        if c.get("resume"):
            return resumed(rec, run, c, st, rp)
        run.go()
        bad = run.failure()
        d = run.data() if bad is None else None
        if bad is None and len(d["centres"]) != run.frames + 1:
            bad = "%d rows of positions for %d frames" % (len(d["centres"]), run.frames)
        rec.mon("run-completes", bad is None, st, bad, rp)
        if bad:
            return
        compare(rec, run, d, list(range(run.frames + 1)), run.problem(), st, rp, alternatives(run), "scheduled")
    except S.RepoError as e:
        rec.mon("run-completes", False, st, "the solve at a saved position fails: %s" % e, rp)
    finally:
        run.clean()


def resumed(rec, run, c, st, rp):
    """Interrupt the run, continue it, and check the schedule restarts at the first frame after the resume."""
    per = 4 if c["scheme"] == "rk4" else 1
    run.settings.update(save_to_temp_file_every_n_timesteps=1)
    run.go(kill=dict(at="solve", k=per * c["resume"] + 1))
    bk = run.backups()
    if run.res["signal"] != 9 or len(bk) != 1:
        rec.mon("run-completes", False, st, "an interrupted run left backups %s (%s)" % (bk, run.res["rc"]), rp)
        return
    start = len(run.data(bk[0])["centres"]) - 1
    run.go()
    bad = run.failure()
    d = run.data() if bad is None else None
    if bad is None and len(d["centres"]) != run.frames + 1:
        bad = "%d rows of positions for %d frames" % (len(d["centres"]), run.frames)
    rec.mon("run-completes", bad is None, st, bad, rp)
    if bad:
        return
    ns = len(run.pd[0])
    tail = {k: d[k][start:] for k in d}
    P = run.problem(start=start)
    frames = list(range(start, run.frames + 1))
    wrong = alternatives(run, start)
    compare(rec, run, tail, frames, P, dict(st, start=start), rp, wrong, "resumed")
    head = {k: d[k][:start + 1] for k in d}
    compare(rec, run, head, list(range(start + 1)), run.problem(), st, rp, alternatives(run), "scheduled")


def equal(rec, rng, c):
    """Refreshing at every frame is the same as solving every frame from scratch; a schedule longer than the run uses the first frame's matrix throughout."""
    run = make(rng, dict(c, every=1))
    try:
        st, rp = dict(case=c, **run.describe()), run.replay()
        outs = []
        for every in (c["frames"] + 3, 10 * c["frames"]):
            run.settings["invert_m_every"] = every
            run.go()
            if run.failure():
                rec.mon("run-completes", False, st, run.failure(), rp)
                return
            name = [f for f in run.files() if "-M%d" % every in f]
            outs.append(run.data(name[0] if name else None))
        for k in ("centres", "deltax", "Fa", "Sa", "Fb", "DFb", "sphere_rotations"):
            rec.close("never-again", outs[0][k], outs[1][k], 1e-9, 1e-12, state=dict(st, q=k), detail="%s of runs refreshed only at the start" % k, replay=rp)
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("run-completes", "runs finish", 20),
                             ("scheduled-refresh-frame", "a step at a scheduled frame uses the long-range matrix of the current positions (and, for Runge-Kutta, of every stage or the first only, as selected)", 30),
                             ("scheduled-reused", "a step between refreshes uses the latest scheduled matrix with current short-range corrections", 40),
                             ("resumed-refresh-frame", "after a resume the first frame refreshes", 5),
                             ("resumed-reused", "after a resume later frames keep to the schedule", 5),
                             ("forces", "saved forces and stresslets are those of the scheduled matrix", 50),
                             ("never-again", "any two schedules longer than the run give the same run", 10)):
        chk.monitor(name, rule, need)
    chk.monitor("other-steps", "steps whose result does not depend on the schedule also match", 0)
    th = common.THOROUGH
    cases = []
    for rep in range(8 if th else 1):
        for sch in ("euler", "ab2", "rk4"):
            for ns, nd, form in ((3, 0, "fte"), (2, 1, "fte"), (0, 2, "fts"), (3, 1, "ufte"), (2, 2, "ufteu"), (0, 2, "duf")):
                for every in (1, 2, 3, 4) if sch != "rk4" or th else (1, 3):
                    cases.append(dict(ns=ns, nd=nd, form=form, scheme=sch, every=every, frames=2 * every + 2, rep=rep, stages=bool((every + ns + rep) % 2)))
            cases.append(dict(ns=3, nd=1, scheme=sch, every=1, frames=3, stages=False, rep=rep))
            cases.append(dict(ns=2, nd=1, scheme=sch, every=2, frames=4, stages=True, rep=rep))
            cases.append(dict(ns=2, nd=1, scheme=sch, every=2, frames=4, stages=False, periodic=True, rep=rep))
            cases.append(dict(ns=2, nd=0, scheme=sch, every=3, frames=5, stages=True, periodic=True, rep=rep))
            for k, every in ((2, 3), (4, 3), (3, 2), (5, 4), (1, 4)):
                cases.append(dict(ns=3, nd=1, scheme=sch, every=every, frames=k + every + 2, resume=k, stages=bool(k % 2), rep=rep))
            cases.append(dict(ns=0, nd=2, form="fts", scheme=sch, every=3, frames=6, resume=2, rep=rep))
    me = os.path.abspath(__file__)
    far = dict(overrides=dict(how_far_to_reproduce_gridpoints=1))
    par.run_cases(chk, me, "case", [c for c in cases if not c.get("periodic")], loader={})
    par.run_cases(chk, me, "case", [c for c in cases if c.get("periodic")], loader=far, salt=1)
    par.run_cases(chk, me, "equal", [dict(ns=ns, nd=nd, scheme=s, frames=4, rep=r, stages=bool(r % 2)) for r in range(4 if th else 2) for s in ("euler", "ab2", "rk4") for ns, nd in ((3, 0), (1, 1))], loader={}, salt=2)


if __name__ == "__main__":
    common.main(body, common.Check("P13", rule="a state is one run and step; distinct = different run and step"))
