"""P15 an interrupted run resumes to the same result as an uninterrupted one."""
import json
import os
import re
import shutil
import numpy as np
from lib import common, drive, gen, integ, loads, par, runs

ARRAYS = ("centres", "deltax", "sphere_rotations", "Fa", "Fb", "DFb", "Sa", "force_on_wall_due_to_dumbbells")
DAMAGE = re.compile(r"corrupt|damag|unread|could not|cannot|invalid|fail", re.I)


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.size == 0 and b.size == 0:
        return True, 0.0
    if a.shape != b.shape:
        return False, np.inf
    e = np.max(np.abs(a - b)) / (1e-3 + np.max(np.abs(b)))
    return bool(e <= 1e-9), e


def build(rng, c):
    run = runs.random_run(rng, c["ns"], c["nd"], c["scheme"], form=c.get("form", "fte"), frames=c["frames"], periodic=c.get("periodic", False), gap=2.2, sizes=c.get("sizes", (1.0,)), dt=c.get("dt"))
    run.settings.update(save_to_temp_file_every_n_timesteps=c["temp"], save_positions_every_n_timesteps=c.get("pos", 1), save_forces_every_n_timesteps=c.get("forces", 1),
                        start_saving_after_first_n_timesteps=c.get("start", 0))
    if c.get("periodic"):
        run.settings["how_far_to_reproduce_gridpoints"] = 1
    if c.get("extract"):
        run.argv = run.argv + ["True"]
    if c.get("desc"):
        run.extra["setup_desc"] = c["desc"]
    return run


def uninterrupted(rec, run, st, rp):
    wd = run.wd
    run.wd = wd + "-ref"
    run.go(clock="2611150000")
    try:
        bad = run.failure()
        if not rec.mon("run-completes", bad is None and len(run.files()) == 1, st, bad or "outputs %s" % run.files(), rp):
            return None
        return run.data()
    finally:
        shutil.rmtree(run.wd, ignore_errors=True)
        run.wd = wd


def frames_solved(run):
    p = os.path.join(run.wd, "trace.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(l)["frame"] for l in open(p) if l.strip()]


def backup_frame(run, ref, name, c):
    """Frame whose starting state is the last row of this backup; None when the backup is unusable, frames when it is complete."""
    try:
        d = run.data(name)
        n = len(d["centres"])
        for k in ARRAYS:
            d[k]
    except Exception:
        return None
    pe, start = run.settings["save_positions_every_n_timesteps"], run.settings["start_saving_after_first_n_timesteps"]
    rows = [f for f in range(run.frames) if f % pe == 0 and f >= start] + [run.frames]
    return rows[n - 1] if 0 < n <= len(rows) else None


def other_backups(rng, run, ref):
    """Backups of runs differing from this one in one number, with other contents."""
    out = os.path.join(run.wd, "output")
    os.makedirs(out, exist_ok=True)
    t = ("%r" % float(run.dt)).replace(".", "p")
    s, i, n = run.setup, run.input, run.frames
    names = ["2699999999-s%s-i%s-%dfr-t%s-M1" % (a, b, f, q) for a, b, f, q in (
        (s - 1, i, n, t), (-s, i, n, t), (s * 10, i, n, t), (s, i + 1, n, t), (s, i // 10, n, t), (s, -i, n, t), (s, i, n + 1, t), (s, i, n * 10 + n, t),
        (s, i, n, ("%r" % (run.dt * 10)).replace(".", "p")), (s, i, n, t + "1"), (s, i, n, "1e-07"))]
    names.append("2699999999-something-else")
    made = []
    for k, nm in enumerate(names):
        p = os.path.join(out, nm + "_TEMP.npz")
        np.savez_compressed(p, **{a: (np.asarray(ref[a], float) * 0 + 7.5)[:2] for a in ARRAYS})
        made.append(nm + "_TEMP.npz")
    return made


def kills(rng, c, n):
    per = 4 if c["scheme"] == "rk4" else 1
    out = []
    for _ in range(n):
        at = c["at"] if c["at"] != "any" else str(rng.choice(["solve", "solved", "open", "fsize", "remove"]))
        if at in ("solve", "solved"):
            out.append(dict(at=at, k=int(rng.integers(1, per * c["frames"] + 1))))
        elif at == "open":
            out.append(dict(at=at, k=int(rng.integers(1, c["frames"] // c["temp"] + 2))))
        elif at == "remove":
            out.append(dict(at=at, k=1))
        else:
            out.append(dict(at="fsize", k=1, bytes=int(rng.integers(150, 3200))))
    return out


def case(rec, rng, c):
    run = build(rng, c)
    st, rp = dict(case=c, **run.describe()), run.replay()
    try:
        ref = uninterrupted(rec, run, st, rp)
        if ref is None:
            return
        foreign = other_backups(rng, run, ref) if c.get("foreign") else []
        before = runs.snapshot(run.wd)
        ks = kills(rng, c, c.get("n", 1))
        minute = 0
        history = []
        for k in ks + [None]:
            minute += 1
            usable = {b: backup_frame(run, ref, b, c) for b in run.backups() if b not in foreign}
            good = [f for f in usable.values() if f is not None]
            run.go(clock="26111601%02d" % minute, trace=not (k and k["at"] == "fsize"), **(dict(kill=k) if k else {}))
            history.append(dict(kill=k, signal=run.res["signal"], rc=run.res["rc"], backups=usable))
            if k and run.res["signal"] is None and run.res["rc"] != 0:
                rec.mon("run-completes", False, dict(st, history=history), "a resumed run failed: " + run.failure(), rp)
                return
            fr = frames_solved(run) if not (k and k["at"] == "fsize") else []
            s2 = dict(st, history=history)
            if usable and run.res["rc"] is not None or fr:
                if good:
                    want = usable[sorted(b for b in usable if usable[b] is not None)[-1]]
                    if fr or run.res["rc"] == 0 and not k:
                        first = fr[0] if fr else run.frames
                        rec.mon("continues", first == want, s2, "a run with a backup reaching frame %s started at frame %s" % (want, first), dict(rp, history=history))
                        rec.count("resumed_runs")
                elif fr:
                    rec.mon("starts-afresh", fr[0] == 0, s2, "a run without a usable backup started at frame %s" % fr[0], dict(rp, history=history))
                bad = [b for b, f in usable.items() if f is None]
                if bad and not good and run.res["rc"] == 0 and not (k and k["at"] == "fsize"):
                    rec.mon("damage-reported", DAMAGE.search(run.res["out"] + run.res["err"]) is not None, s2, "the damaged backup %s was not mentioned: %r" % (bad, run.res["out"][:300]), dict(rp, history=history))
            if k is None or run.res["rc"] == 0:
                break
        bad = run.failure()
        rp = dict(rp, history=history)
        if not rec.mon("run-completes", bad is None, s2, bad, rp):
            return
        done = [f for f in run.files() if f not in before]
        results = []
        for f in done:
            try:
                results.append(run.data(f))
            except Exception:
                continue  # cut short by the interruption
        if not rec.mon("one-result", len(results) >= 1, s2, "no finished output (files %s)" % done, rp):
            return
        d = results[-1]
        for k in ARRAYS:
            ok, e = same(d[k], ref[k])
            rec.mon("same-result", ok, dict(s2, array=k), "%s of the resumed run has shape %s (uninterrupted %s) and differs by %.3g" % (k, np.shape(d[k]), np.shape(ref[k]), e), rp, err=e)
        after = runs.snapshot(run.wd)
        lost = [f for f in before if after.get(f) != before[f]]
        if foreign:
            rec.mon("other-backups", not lost, s2, "backups of other runs were changed or removed: %s" % lost, rp)
        rec.count("interruptions", sum(1 for h in history if h["signal"]))
        for h in history:
            if h["signal"]:
                rec.count("killed_at_" + h["kill"]["at"])
    finally:
        run.clean()


def damaged(rec, rng, c):
    """A usable backup is damaged in various ways; an older intact one may exist."""
    run = build(rng, c)
    st, rp = dict(case=c, **run.describe()), run.replay()
    try:
        ref = uninterrupted(rec, run, st, rp)
        if ref is None:
            return
        per = 4 if c["scheme"] == "rk4" else 1
        out = os.path.join(run.wd, "output")
        run.go(clock="2611160105", kill=dict(at="solve", k=per * 2 + 1))
        older = run.backups()
        if len(older) != 1:
            rec.mon("run-completes", False, st, "an interrupted run left backups %s" % older, rp)
            return
        name = older[0]
        if c["older"]:
            newer = "2611160106" + name[10:]
            shutil.copy(os.path.join(out, name), os.path.join(out, newer))
            f0 = backup_frame(run, ref, name, c)
        else:
            newer, f0 = name, 0
        p = os.path.join(out, newer)
        b = bytearray(open(p, "rb").read())
        how = c["how"]
        if how == "truncate":
            b = b[:int(len(b) * rng.uniform(0.05, 0.95))]
        elif how == "tail":
            b = b[:-int(rng.integers(1, 30))]
        elif how == "empty":
            b = b""
        elif how == "noise":
            b = rng.integers(0, 256, len(b)).astype(np.uint8).tobytes()
        elif how == "flip":
            import zipfile
            with zipfile.ZipFile(p) as z:
                info = z.getinfo(str(rng.choice(["Fa.npy", "Sa.npy", "centres.npy", "deltax.npy", "sphere_rotations.npy"])))
            at = info.header_offset + 30 + len(info.filename) + 20 + info.compress_size // 2
            b[min(at, len(b) - 1)] ^= 0xFF
        elif how == "missing":
            d = dict(np.load(p))
            d.pop(str(rng.choice(["centres", "deltax", "sphere_rotations"])))
            np.savez_compressed(p, **d)
            b = open(p, "rb").read()
        with open(p, "wb") as f:
            f.write(bytes(b))
        if how == "flip":
            try:
                for k, v in np.load(p).items():
                    pass
                rec.count("undetectable_flips")
                return
            except Exception:
                pass
        run.go(clock="2611160109", trace=True)
        bad = run.failure()
        rp = dict(rp, how=how)
        if not rec.mon("run-completes", bad is None, st, "with a damaged backup: %s" % bad, rp):
            return
        fr = frames_solved(run)
        rec.mon("damage-reported", DAMAGE.search(run.res["out"] + run.res["err"]) is not None, st, "a damaged backup (%s) was not mentioned" % how, rp)
        rec.mon("continues" if c["older"] else "starts-afresh", fr and fr[0] == f0, st, "with the newest backup damaged (%s)%s the run started at frame %s" % (how, " and an older one reaching frame %s" % f0 if c["older"] else "", fr[:1]), rp)
        res = [run.data(f) for f in run.files()]
        if rec.mon("one-result", len(res) == 1, st, "outputs %s" % run.files(), rp):
            for k in ARRAYS:
                ok, e = same(res[0][k], ref[k])
                rec.mon("same-result", ok, dict(st, array=k), "%s after a damaged backup (%s) has shape %s (uninterrupted %s) and differs by %.3g" % (k, how, np.shape(res[0][k]), np.shape(ref[k]), e), rp, err=e)
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("run-completes", "uninterrupted and resumed runs finish", 30),
                             ("continues", "the first frame solved after a restart is the one the latest usable backup ends with", 20),
                             ("starts-afresh", "without a usable backup the run starts at frame 0", 3),
                             ("one-result", "a readable finished output exists", 20),
                             ("same-result", "every array of the final output equals that of the uninterrupted run", 200),
                             ("other-backups", "backups of other runs are byte-for-byte unchanged", 8),
                             ("damage-reported", "a damaged backup is mentioned", 8)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    rng = chk.rng
    cases, dam = [], []
    for rep in range(14 if th else 2):
        for sch in ("euler", "rk4"):
            for ns, nd, form in ((2, 1, "fte"), (0, 2, "fts"), (3, 2, "ufte"), (2, 0, "fte")):
                for at in ("solve", "open", "fsize", "any"):
                    fr = int(rng.integers(3, 9))
                    c = dict(ns=ns, nd=nd, form=form, scheme=sch, frames=fr, temp=int(rng.choice([1, 1, 2, 3])), at=at, n=int(rng.integers(1, 4)), rep=rep)
                    if rng.random() < 0.5:
                        c.update(pos=int(rng.choice([1, 2, 3])), forces=int(rng.choice([1, 2, 3])), start=int(rng.integers(0, min(fr, 3))))
                    if rng.random() < 0.4:
                        c["foreign"] = True
                    if form == "ufte":
                        c["extract"] = True
                    if rng.random() < 0.2:
                        c["desc"] = "my-setup"
                    cases.append(c)
            cases.append(dict(ns=2, nd=1, scheme=sch, frames=4, temp=1, at="remove", rep=rep))
            cases.append(dict(ns=2, nd=1, scheme=sch, frames=7, temp=1, at="solve", n=4, rep=rep, foreign=True, dt=float((1e-05, 0.1)[rep % 2])))
            cases.append(dict(ns=2, nd=1, scheme=sch, frames=6, temp=5, at="solved", n=1, rep=rep, foreign=True, pos=2))
            if sch == "euler":
                cases.append(dict(ns=2, nd=1, scheme=sch, frames=5, temp=1, at="solve", n=2, rep=rep, periodic=True))
            for how in ("truncate", "tail", "empty", "noise", "flip", "missing"):
                if sch == "euler" or th:
                    dam.append(dict(ns=2, nd=1, scheme=sch, frames=4, temp=1, how=how, older=bool((rep + len(dam)) % 2), rep=rep))
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "case", cases)
    par.run_cases(chk, me, "damaged", dam, salt=1)


if __name__ == "__main__":
    common.main(body, common.Check("P15", rule="a state is one run with its interruptions and one saved array"))
