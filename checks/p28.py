"""P28 explosion protection stops a run as soon as a dumbbell is too long, and only then."""
import os
import re
import numpy as np
from lib import common, drive, integ, par, runs
from lib import solver as S

LIMIT = 5.0
ARRAYS = ("centres", "deltax", "sphere_rotations")
FORCES = ("Fa", "Fb", "DFb", "Sa")
NUMBER = re.compile(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?")


def solved(run):
    """Frame numbers of the completed solves, from the trace."""
    import json
    with open(os.path.join(run.wd, "trace.jsonl")) as f:
        return [json.loads(line)["frame"] for line in f]


def case(rec, rng, c):
    ns, nd, frames = c["ns"], c["nd"], c["frames"]
    dt = float(rng.choice([0.05, 0.1]))
    k = int(rng.integers(nd))
    pd = runs.particles(rng, ns, nd, sizes=(1.0,), beads=(0.1,), gap=2.5, spread=8.0)
    pd = tuple(np.array(p, float) for p in pd)
    form = "fts" if ns == 0 and not c.get("duf") else "duf" if ns == 0 else c.get("form", "fte")
    load = runs.random_load(rng, ns, nd, form, flow=False, fixed=0, fixed_d=0)
    for key in ("tf", "trap", "spring", "mu"):
        load.pop(key, None)
    load["Fb"] = (rng.normal(size=(nd, 3)) * 0.05).tolist()
    # internal forces: one dumbbell (or several, or none) is pulled apart along its own direction
    DF = rng.normal(size=(nd, 3)) * 0.02
    pulled = {"one": [k], "none": [], "two": sorted({k, (k + 1) % nd}), "start": [k]}[c["who"]]
    for j in pulled:
        d = pd[5][j]
        rate = 6 * np.pi * 0.1  # force per unit speed of a bead
        if c["who"] == "start":
            pd[5][j] = d * (5.4 / np.linalg.norm(d))
            DF[j] = d / np.linalg.norm(d) * rate * 0.5
        else:
            pd[5][j] = d * (rng.uniform(2.5, 4.2) / np.linalg.norm(d))
            step = rng.uniform(0.15, 0.5)
            DF[j] = d / np.linalg.norm(d) * 2 * rate * step / dt
    load["DFb"] = DF.tolist()
    settings = dict(timestepping_scheme=c["scheme"], save_positions_every_n_timesteps=c.get("save", 1), save_forces_every_n_timesteps=c.get("save", 1))
    free = runs.Run(pd, load=load, form=form, dt=dt, frames=frames, settings=dict(settings, explosion_protection=False))
    full = runs.Run(pd, load=load, form=form, dt=dt, frames=frames, settings=dict(timestepping_scheme=c["scheme"], explosion_protection=False))
    kept = runs.Run(pd, load=load, form=form, dt=dt, frames=frames, settings=dict(settings, explosion_protection=True))
    st, rp = dict(c, dt=dt, k=k), kept.replay()
    try:
        full.go()
        free.go()
        kept.go(trace=True)
        ok = [rec.mon("run-completes", r.failure() is None and len(r.files()) == 1 and not r.backups(), dict(st, which=w), "%s run: %s, files %s %s" % (w, r.failure(), r.files(), r.backups()), rp)
              for w, r in (("unprotected", free), ("reference", full), ("protected", kept))]
        if not all(ok):
            return
        d, a, b = full.data(), free.data(), kept.data()
        L = np.linalg.norm(d["deltax"], axis=2)
        rec.mon("off-never-stops", len(d["deltax"]) == frames + 1, st, "the unprotected run saved %d states" % len(d["deltax"]), rp)
        if np.any(np.abs(L[1:] - LIMIT) < (0.05 if c["scheme"] == "rk4" else 1e-6)):
            rec.count("too close to the limit to judge")
            return
        over = [n for n in range(frames) if np.any(L[n + 1] > LIMIT)]
        frames_seen = solved(kept)
        every = c.get("save", 1)
        if not over:
            rec.mon("not-stopped", max(frames_seen) >= frames - 1, st, "no dumbbell is longer than %.4g, but the last frame solved is %s of %d" % (L.max(), max(frames_seen), frames), rp)
            for key in ARRAYS + FORCES:
                same = np.array_equal(np.asarray(a[key], float), np.asarray(b[key], float))
                rec.mon("no-effect", same, dict(st, array=key), "%s differs between the protected and the unprotected run" % key, rp)
            return
        n = over[0]
        last = int(np.floor(max(frames_seen) - 1e-9)) if c["scheme"] == "rk4" else int(max(frames_seen))
        rec.mon("stopped", last == n, dict(st, frame=n), "a dumbbell is too long (%.4g) after frame %d; the last frame solved is %s" % (L[n + 1].max(), n, max(frames_seen)), rp)
        named = {}
        for line in kept.res["out"].splitlines():
            m = re.search(r"umbbell\D{0,12}?(\d+)(?!\d|\.)(.*)", line)
            if m and re.search(r"exceed|too long|longer", line):
                named.setdefault(int(m.group(1)), []).extend(float(x) for x in NUMBER.findall(m.group(2)))
        for j in range(nd):
            if L[n + 1][j] > LIMIT:
                good = any(abs(x - L[n + 1][j]) <= 1e-3 * x for x in named.get(j, []))
                rec.mon("explained", good, dict(st, dumbbell=j), "dumbbell %d reached length %.6g; the messages say %s" % (j, L[n + 1][j], named), rp)
            elif c["scheme"] != "rk4":
                rec.mon("only-the-long", j not in named, dict(st, dumbbell=j), "dumbbell %d has length %.6g but is reported as too long" % (j, L[n + 1][j]), rp)
        rows = [f for f in range(n + 1) if f % every == 0]
        want = rows + ([frames] if n == frames - 1 else [])
        for key in ARRAYS:
            w, g = np.asarray(d[key], float)[want], np.asarray(b[key], float)
            rec.mon("kept-until-then", w.shape == g.shape and np.array_equal(w, g), dict(st, array=key), "%s: %d rows saved, frames up to %d expected" % (key, len(g), n), rp)
        for key in FORCES:
            w, g = np.asarray(d[key], float)[rows], np.asarray(b[key], float)
            rec.mon("kept-until-then", w.shape == g.shape and np.array_equal(w, g), dict(st, array=key), "%s: %d rows saved, frames up to %d expected" % (key, len(g), n), rp)
    finally:
        for r in (free, full, kept):
            r.clean()


def turned(text):
    """Dumbbells named in the messages of one frame of an unprotected run."""
    return [int(m) for m in re.findall(r"umbbell\D{0,12}?(\d+)", text)]


def edge(rec, rng, c):
    """Isolated-drag dynamics, where a force moves the beads by a known amount: turns close to a right angle and lengths close to the limit."""
    nd, dt, frames = 4, 0.1, 3
    unit = rng.normal(size=(nd, 3))
    unit /= np.linalg.norm(unit, axis=1)[:, None]
    v = np.cross(unit, rng.normal(size=(nd, 3)))
    v /= np.linalg.norm(v, axis=1)[:, None]
    if c["what"] == "turn":
        th = np.radians(rng.permutation([88.0, 89.6, 90.4, 92.0]) + rng.uniform(-0.3, 0.3, nd))
        old = unit * rng.uniform(0.8, 2, (nd, 1))
        new = (np.cos(th)[:, None] * unit + np.sin(th)[:, None] * v) * rng.uniform(0.8, 2, (nd, 1))
        frames = 1
    else:
        # one step of 0.02: dumbbell k passes the limit in frame 0 or never
        k = int(rng.integers(nd))
        start = np.full(nd, 4.9)
        start[k] = 4.985 if c["over"] else 4.935
        old, new = unit * start[:, None], unit * (start + 0.02)[:, None]
    pd = list(runs.particles(rng, 1, nd, sizes=(1.0,), beads=(0.1,), gap=2.5, spread=20.0))
    pd = tuple(np.array(p, float) for p in pd[:5]) + (old,)
    load = runs.random_load(rng, 1, nd, "fte", flow=False, fixed=0, fixed_d=0)
    for key in ("tf", "trap", "spring", "mu"):
        load.pop(key, None)
    load["Fb"] = (rng.normal(size=(nd, 3)) * 0.05).tolist()
    load["DFb"] = ((new - old) * 6 * np.pi * 0.1 / dt).tolist()
    run = runs.Run(pd, load=load, form="fte", dt=dt, frames=frames, settings=dict(timestepping_scheme="euler", explosion_protection=c["what"] == "length", use_drag_Minfinity=True, use_Minfinity_only=True))
    st, rp = dict(c), run.replay()
    try:
        run.go(trace=True)
        if not rec.mon("run-completes", run.failure() is None and len(run.files()) == 1 and not run.backups(), st, "%s, files %s %s" % (run.failure(), run.files(), run.backups()), rp):
            return
        x = np.asarray(run.data()["deltax"], float)
        if c["what"] == "turn":
            part = re.split(r"Processing frame \d+/\d+", run.res["out"])[1]
            for j in range(nd):
                cos = float(x[0][j] @ x[1][j] / np.linalg.norm(x[0][j]) / np.linalg.norm(x[1][j]))
                if abs(cos) > 1e-3:
                    rec.mon("flip-told" if cos < 0 else "no-flip-quiet", (j in turned(part)) == (cos < 0), dict(st, dumbbell=j), "dumbbell %d turns by %.2f degrees; reported are %s" % (j, np.degrees(np.arccos(cos)), turned(part)), rp)
            return
        if c["over"]:
            rec.mon("stopped", max(solved(run)) == 0, st, "dumbbell %d has length 5.005 after frame 0; the last frame solved is %s" % (k, max(solved(run))), rp)
        else:
            rec.mon("not-stopped", max(solved(run)) == frames - 1 and len(x) == frames + 1 and np.linalg.norm(x, axis=2).max() < LIMIT, st, "no dumbbell is longer than 4.995, but the last frame solved is %s of %d" % (max(solved(run)), frames), rp)
    finally:
        run.clean()


def flips(rec, rng, c):
    """A dumbbell turned by more than a right angle in one step is reported, and only reported."""
    ns, nd, frames = c["ns"], c["nd"], 4
    dt = float(rng.choice([0.05, 0.1]))
    pd = tuple(np.array(p, float) for p in runs.particles(rng, ns, nd, gap=2.5, spread=8.0))
    load = runs.random_load(rng, ns, nd, "fts" if ns == 0 else "fte", flow=False)
    for key in ("tf", "trap", "spring", "mu"):
        load.pop(key, None)
    f = rng.uniform(-8.0, 1.0, (nd, 1))
    side = rng.normal(size=(nd, 3)) * 0.5
    load["DFb"] = ((pd[5] * f + side) * 6 * np.pi * 0.1 / dt / rng.integers(1, 5)).tolist()
    run = runs.Run(pd, load=load, form="fts" if ns == 0 else "fte", dt=dt, frames=frames, settings=dict(timestepping_scheme=c["scheme"]))
    st, rp = dict(c, dt=dt), run.replay()
    try:
        run.go()
        if not rec.mon("run-completes", run.failure() is None and len(run.files()) == 1, st, run.failure(), rp):
            return
        x = np.asarray(run.data()["deltax"], float)
        rec.mon("off-never-stops", len(x) == frames + 1, st, "%d states saved" % len(x), rp)
        parts = re.split(r"Processing frame \d+/\d+", run.res["out"])[1:]
        for n in range(min(frames, len(x) - 1, len(parts))):
            told = turned(parts[n])
            for j in range(nd):
                cos = float(x[n][j] @ x[n + 1][j] / np.linalg.norm(x[n][j]) / np.linalg.norm(x[n + 1][j]))
                if abs(cos) > 1e-3:
                    rec.mon("flip-told" if cos < 0 else "no-flip-quiet", (j in told) == (cos < 0), dict(st, frame=n, dumbbell=j), "frame %d: dumbbell %d turns by %.1f degrees; reported are %s" % (n, j, np.degrees(np.arccos(cos)), told), rp)
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("run-completes", "protected and unprotected runs end normally with one output file and no backup", 60),
                             ("off-never-stops", "without protection all frames are simulated", 20),
                             ("stopped", "the last frame simulated is the one that makes a dumbbell longer than 5", 12),
                             ("explained", "a message names the dumbbell and its length", 12),
                             ("only-the-long", "no other dumbbell is reported as too long", 8),
                             ("flip-told", "a dumbbell turned by more than a right angle in a step is reported", 3),
                             ("no-flip-quiet", "other dumbbells are not reported as turned", 20),
                             ("kept-until-then", "the output holds exactly the frames of the unprotected run up to the stop", 80),
                             ("not-stopped", "no stop while no dumbbell is longer than 5", 4),
                             ("no-effect", "a protected run that never stops equals the unprotected one", 28)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cs = []
    for rep in range(16 if th else 1):
        for scheme in ("euler", "ab2", "rk4"):
            for ns, nd in ((1, 1), (2, 2), (0, 2), (1, 3)):
                cs.append(dict(ns=ns, nd=nd, frames=10, scheme=scheme, who="one", rep=rep))
            cs.append(dict(ns=1, nd=3, frames=10, scheme=scheme, who="two", save=2, rep=rep))
            cs.append(dict(ns=1, nd=2, frames=5, scheme=scheme, who="none", rep=rep))
            cs.append(dict(ns=0, nd=2, frames=5, scheme=scheme, who="none", duf=True, rep=rep))
            cs.append(dict(ns=1, nd=2, frames=4, scheme=scheme, who="start", rep=rep))
            cs.append(dict(ns=2, nd=1, frames=10, scheme=scheme, who="one", form="ufte", rep=rep))
    par.run_cases(chk, os.path.abspath(__file__), "case", cs, loader={})
    fl = [dict(ns=ns, nd=nd, scheme=scheme, rep=rep) for rep in range(24 if th else 3) for scheme in ("euler", "ab2") for ns, nd in ((1, 1), (0, 2), (2, 3))]
    par.run_cases(chk, os.path.abspath(__file__), "flips", fl, loader={}, salt=1)
    ed = [dict(what="turn", rep=r) for r in range(20 if th else 3)] + [dict(what="length", over=o, rep=r) for r in range(10 if th else 2) for o in (True, False)]
    par.run_cases(chk, os.path.abspath(__file__), "edge", ed, loader={}, salt=2)


if __name__ == "__main__":
    common.main(body, common.Check("P28", rule="a state is one run (and saved array)"))
