"""P14 the output file is a faithful, complete record of the run."""
import os
import shutil
import numpy as np
from lib import common, gen, integ, loads, par, runs
from lib import solver as S

FORCES = ("Fa", "Fb", "DFb", "Sa")


def stepno(frames, every, start):
    return [f for f in range(frames) if every and f % every == 0 and f >= start]


def equal(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= 1e-11 * (1 + np.max(np.abs(b))))


def name_ok(name, run):
    stem = name[:-4]
    t = ("%r" % float(run.dt)).replace(".", "p")
    parts = "-s%s-i%s-%dfr-t%s" % (run.setup, run.input, run.frames, t)
    k = stem.find(parts)
    return k >= 0 and (len(stem) == k + len(parts) or stem[k + len(parts)] == "-")


def reference(rec, run, st, rp):
    """Every frame saved; forces of each frame against an independent solve at the saved positions."""
    run.go(clock="2611160101")
    bad = run.failure()
    if not rec.mon("run-completes", bad is None, st, bad, rp):
        return None
    files = run.files()
    rec.mon("one-file", len(files) == 1 and not run.backups(), st, "a finished run left outputs %s and backups %s" % (files, run.backups()), rp)
    if len(files) != 1:
        return None
    rec.mon("name", name_ok(files[0], run), dict(st, file=files[0]), "the output file %s does not record setup %s, input %s, %d frames, timestep %s" % (files[0], run.setup, run.input, run.frames, run.dt), rp)
    d = run.data()
    ns, nd = len(run.pd[0]), len(run.pd[3])
    want = dict(centres=(run.frames + 1, ns + nd, 3), deltax=(run.frames + 1, nd, 3), sphere_rotations=(run.frames + 1, ns, 2, 3),
                Fa=(run.frames, ns, 3), Sa=(run.frames, ns, 3, 3), Fb=(run.frames, nd, 3), DFb=(run.frames, nd, 3))
    for k, sh in want.items():
        if not rec.mon("complete", k in d and (np.shape(d[k]) == sh or 0 in sh and np.size(d[k]) == 0), dict(st, array=k), "array %s has shape %s, expected %s" % (k, np.shape(d[k]) if k in d else None, sh), rp):
            return None
    P = run.problem()
    states = integ.states_of(d, range(run.frames + 1), ns)
    for n in range(run.frames):
        new, F, v = P.predict(states, n)
        for k in FORCES:
            if np.size(F[k]):
                sc = 1e-3 + np.max(np.abs(F[k]))
                e = np.max(np.abs(np.asarray(d[k][n], float) - F[k])) / sc
                rec.mon("forces-of-frame" if k != "Sa" else "stresslets-of-frame", bool(e <= 1e-6), dict(st, frame=n, q=k), "%s saved for frame %d differ from the solve at its positions by %.3g of their size" % (k, n, e), rp, err=e)
        B = P.lattice(n + 1)
        for k in ("x", "y", "d"):
            if len(new[k]):
                diff = states[n + 1][k] - new[k]
                if B is not None and k != "d":
                    diff -= np.round(diff @ np.linalg.inv(B)) @ B
                rec.mon("positions-of-frame", bool(np.max(np.abs(diff)) <= 1e-7 * (1 + np.max(np.abs(new[k])))), dict(st, frame=n, q=k), "saved row %d of %s is not the state at the start of that frame" % (n + 1, k), rp)
    return d


def case(rec, rng, c):
    run = runs.random_run(rng, c["ns"], c["nd"], c["scheme"], form=c.get("form", "fte"), frames=c["frames"], sizes=c.get("sizes", (1.0,)), gap=2.2, periodic=c.get("periodic", False))
    if c.get("periodic"):
        run.settings["how_far_to_reproduce_gridpoints"] = 1
    if c.get("dt"):
        run.dt = c["dt"]
        run.argv[2] = c["dt"]
    run.settings["save_to_temp_file_every_n_timesteps"] = int(rng.choice([1, 2, 3, 120]))
    st, rp = dict(case=c, **run.describe()), run.replay()
    try:
        ref = reference(rec, run, st, rp)
        if ref is None:
            return
        for pe, fe, start in c["intervals"]:
            before = runs.snapshot(run.wd)
            run.settings.update(save_positions_every_n_timesteps=pe, save_forces_every_n_timesteps=fe, start_saving_after_first_n_timesteps=start,
                                save_to_temp_file_every_n_timesteps=int(rng.choice([1, 2, 3, 120])), save_forces_and_positions_to_temp_file_as_well=bool(rng.random() < 0.8))
            s2, rp2 = dict(st, pos=pe, forces=fe, start=start), run.replay()
            run.go(clock="2611160101" if rng.random() < 0.5 else "26111601%02d" % rng.integers(2, 60))
            if not rec.mon("run-completes", run.failure() is None, s2, run.failure(), rp2):
                continue
            after = runs.snapshot(run.wd)
            lost = [k for k in before if after.get(k) != before[k]]
            rec.mon("earlier-untouched", not lost, s2, "earlier outputs %s were changed or removed" % lost, rp2)
            fresh = [k for k in after if k not in before]
            ok = len(fresh) == 1 and fresh[0].endswith(".npz") and not fresh[0].endswith("_TEMP.npz")
            if not rec.mon("one-file", ok, s2, "a finished run added the files %s" % fresh, rp2):
                continue
            rec.mon("name", name_ok(fresh[0], run), dict(s2, file=fresh[0]), "the output file %s does not record the run" % fresh[0], rp2)
            d = run.data(fresh[0])
            rows = stepno(run.frames, pe, start)
            rows = rows + [run.frames] if rows else []
            frows = stepno(run.frames, fe, start)
            for k in ("centres", "deltax", "sphere_rotations"):
                want = ref[k][rows] if rows else np.zeros(0)
                rec.mon("interval-positions", equal(d[k], want) or np.size(want) == 0 and np.size(d[k]) == 0, dict(s2, array=k),
                        "%s saved every %d from frame %d: %s, expected the states at the start of frames %s and the final one" % (k, pe, start, np.shape(d[k]), rows[:-1]), rp2)
            for k in FORCES:
                want = ref[k][frows] if frows else np.zeros(0)
                rec.mon("interval-forces", equal(d[k], want) or np.size(want) == 0 and np.size(d[k]) == 0, dict(s2, array=k),
                        "%s saved every %d from frame %d: %s, expected those of frames %s" % (k, fe, start, np.shape(d[k]), frows), rp2)
    except S.RepoError as e:
        rec.mon("run-completes", False, st, "the solve at a saved position fails: %s" % e, rp)
    finally:
        run.clean()


def minute(rec, rng, c):
    """Several runs started in the same minute, with the same and with other arguments, and with foreign files in the folder."""
    run = runs.random_run(rng, 2, 1, "euler", frames=2)
    try:
        st, rp = dict(case=c, **run.describe()), run.replay()
        out = os.path.join(run.wd, "output")
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "notes.txt"), "w") as f:
            f.write("not an output")
        with open(os.path.join(out, "2611160101-s5-i5-3fr-t0p1-M1_TEMP.npz"), "w") as f:
            f.write("backup of something else")
        os.makedirs(os.path.join(out, "sub"))
        with open(os.path.join(out, "sub", "old.npz"), "w") as f:
            f.write("old")
        seen = set()
        for i in range(c["n"]):
            before = runs.snapshot(run.wd)
            if i and rng.random() < 0.4:
                run.dt = float(rng.choice([0.1, 0.05, 1e-05, 0.3, 2.0]))
                run.frames = int(rng.integers(1, 4))
                run.argv[2], run.argv[3] = run.dt, run.frames
            run.go(clock="2611160101")
            if not rec.mon("run-completes", run.failure() is None, st, run.failure(), rp):
                return
            after = runs.snapshot(run.wd)
            lost = [k for k in before if after.get(k) != before[k]]
            rec.mon("earlier-untouched", not lost, dict(st, i=i), "files in the output folder were changed or removed: %s" % lost, rp)
            fresh = [k for k in after if k not in before]
            rec.mon("one-file", len(fresh) == 1, dict(st, i=i), "run %d of the same minute added the files %s" % (i, fresh), rp)
            if len(fresh) == 1:
                rec.mon("name", name_ok(fresh[0], run), dict(st, i=i), "the output file %s does not record the run" % fresh[0], rp)
                d = run.data(fresh[0])
                rec.mon("complete", len(d["centres"]) == run.frames + 1 and len(d["Fa"]) == run.frames, dict(st, i=i), "rows %d, %d for %d frames" % (len(d["centres"]), len(d["Fa"]), run.frames), rp)
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("run-completes", "valid runs finish", 20),
                             ("one-file", "a finished run adds exactly one output file and leaves no backup", 30),
                             ("name", "the file name holds setup, input, frames and timestep", 30),
                             ("complete", "every array has one row per frame (plus the final state for positions) and per particle", 100),
                             ("positions-of-frame", "row n is the state at the start of frame n (independent integrator)", 50),
                             ("forces-of-frame", "forces saved for frame n are those of an independent solve at row n", 50),
                             ("stresslets-of-frame", "stresslets likewise", 20),
                             ("interval-positions", "with other saving intervals and first frames the rows are exactly the selected ones plus the final state", 60),
                             ("interval-forces", "forces likewise", 80),
                             ("earlier-untouched", "files already in the output folder are byte-for-byte unchanged", 30)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cases = []
    rng = chk.rng
    for rep in range(10 if th else 1):
        for sch in ("euler", "ab2", "rk4"):
            for ns, nd, form in ((3, 0, "fte"), (2, 2, "fte"), (0, 2, "fts"), (3, 2, "ufte"), (2, 2, "ufteu"), (0, 3, "duf"), (1, 0, "fte")):
                fr = int(rng.integers(1, 10))
                iv = []
                for _ in range(4):
                    iv.append((int(rng.choice([1, 2, 3, 4, 7])), int(rng.choice([1, 2, 3, 5])), int(rng.integers(0, fr))))
                iv.append((0, 2, 0) if rep % 2 == 0 else (2, 0, 0))
                cases.append(dict(ns=ns, nd=nd, form=form, scheme=sch, frames=fr, intervals=iv, rep=rep))
        cases.append(dict(ns=2, nd=1, scheme="euler", frames=2, intervals=[(1, 1, 0)], dt=1e-05, rep=rep))
        cases.append(dict(ns=2, nd=0, scheme="ab2", frames=12, intervals=[(5, 3, 4), (4, 5, 9), (11, 11, 11)], sizes=(1.0, 0.1), rep=rep))
        cases.append(dict(ns=2, nd=1, scheme="rk4", frames=2, intervals=[(2, 1, 0)], periodic=True, rep=rep))
        cases.append(dict(ns=2, nd=1, scheme="euler", frames=4, intervals=[(2, 1, 1)], periodic=True, rep=rep))
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "case", [c for c in cases if not c.get("periodic")], loader={})
    par.run_cases(chk, me, "case", [c for c in cases if c.get("periodic")], loader=dict(overrides=dict(how_far_to_reproduce_gridpoints=1)), salt=1)
    par.run_cases(chk, me, "minute", [dict(n=5, rep=r) for r in range(12 if th else 3)], loader={}, salt=2)


if __name__ == "__main__":
    common.main(body, common.Check("P14", rule="a state is one run, frame or saved array; distinct = different run settings, frame or array"))
