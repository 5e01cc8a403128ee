"""P29 what a run tells its user (header, diagnostics, completion email) is true and changes nothing."""
import email
import json
import os
import re
import socket
import time
import numpy as np
from lib import common, drive, gen, integ, loads, par, runs
from lib import solver as S

ANSI = re.compile(r"\x1b\[[0-9;]*m")
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf")
ARRAYS = ("centres", "deltax", "sphere_rotations", "Fa", "Fb", "DFb", "Sa")
CLOCK = "2611160404"


def header(text):
    """Field name -> list of values in the box printed before the first frame."""
    out = {}
    for line in ANSI.sub("", text).splitlines():
        if line.startswith("|"):
            for cell in line.strip("|").split("|"):
                if ":" in cell:
                    k, v = cell.split(":", 1)
                    out.setdefault(k.strip().lower(), []).append(v.strip())
    return out


def header_case(rec, rng, c):
    ns, nd = c["ns"], c["nd"]
    st = dict(timestepping_scheme=str(rng.choice(["euler", "ab2", "rk4"])), invert_m_every=int(rng.integers(1, 13)), use_Minfinity_only=bool(rng.integers(2)),
              use_drag_Minfinity=bool(rng.integers(2)), bead_bead_interactions=bool(rng.integers(2)), save_positions_every_n_timesteps=int(rng.integers(1, 4)),
              start_saving_after_first_n_timesteps=int(rng.integers(0, 2)), how_far_to_reproduce_gridpoints=1)
    form = c["form"]
    load = runs.random_load(rng, ns, nd, form, flow=False, fixed=min(1, ns))
    box = None
    if c.get("periodic"):
        L = rng.uniform(9, 12, 3)
        load["box"] = [(-L / 2).tolist(), (L / 2).tolist()]
        box = (-L / 2, L / 2)
    pd = runs.particles(rng, ns, nd, gap=2.5, box=box, lat=loads.lattice(load, 0, 0.1) if box else None)
    dt, frames = float(rng.choice([0.1, 0.05, 0.025, 1e-5, 0.5])), int(rng.integers(2, 4))
    extract = bool(rng.integers(2))
    run = runs.Run(pd, load=load, form=form, dt=dt, frames=frames, settings=st, argv=[runs.SETUP, runs.INPUT, dt, frames, form, str(extract)], jit=bool(c.get("jit")))
    state, rp = dict(c, dt=dt, frames=frames, extract=extract, **st), run.replay()
    try:
        run.go(clock=CLOCK)
        if not rec.mon("completes", run.failure() is None and len(run.files()) == 1, state, run.failure(), rp):
            return
        text = ANSI.sub("", run.res["out"])
        h = header(text)
        onoff = lambda b: "ON" if b else "OFF"
        want = {"setup": [str(runs.SETUP)], "input": [str(runs.INPUT)], "frames": [str(frames)], "minfinity": [onoff(not st["use_drag_Minfinity"])], "r2bexact": [onoff(not st["use_Minfinity_only"])],
                "bead-bead": [onoff(st["bead_bead_interactions"])], "matrix form": [form.upper()], "inv m every": [str(st["invert_m_every"])], "periodic": [onoff(bool(c.get("periodic")))],
                "video": ["OFF"], "numba": [onoff(c.get("jit"))], "save every": [str(st["save_positions_every_n_timesteps"])], "save after": [str(st["start_saving_after_first_n_timesteps"])],
                "machine": [socket.gethostname()]}
        for k, v in want.items():
            rec.mon("header", [x.lower() for x in h.get(k, [])] == [x.lower() for x in v], dict(state, field=k), "the header says %s: %s, in force is %s" % (k, h.get(k), v), rp)
        t = h.get("timestep", [])
        name = {"euler": r"euler", "ab2": r"ab2|adams", "rk4": r"rk4|runge"}[st["timestepping_scheme"]]
        rec.mon("header", any(close(x, dt) for x in t) and any(re.search(name, x, re.I) for x in t) and len(t) == 2, dict(state, field="timestep"), "the header says timestep %s, in force are %s and %s" % (t, dt, st["timestepping_scheme"]), rp)
        rec.mon("header", ("slow" in " ".join(h.get("solve using", [])).lower()) == extract, dict(state, field="solve using"), "the header says solve using %s, extraction is %s" % (h.get("solve using"), extract), rp)
        size = 48 * (11 * ns + 6 * nd) ** 2
        m = re.search(r"([\d.]+)\s*([KMGT]?)i?B", " ".join(h.get("memory", [])))
        shown = float(m.group(1)) * 1024 ** " KMGT".index(m.group(2) or " ") if m else -1
        rec.mon("header", abs(shown - size) <= 0.06 * size, dict(state, field="memory"), "the header says memory %s, the documented estimate is %d bytes" % (h.get("memory"), size), rp)
        stem = run.files()[0][:-4]
        rec.mon("file-named", stem in text and re.search(r"complete[^\n]*%s" % re.escape(stem), text, re.I) is not None, state, "the output file %s is not the one announced" % stem, rp)
    finally:
        run.clean()


def close(x, v):
    try:
        return abs(float(x) - v) <= 1e-12 * abs(v)
    except ValueError:
        return False


LABELS = [("U", r"Velocities on particles"), ("HDU", r"(?:^|[^\w(] ?)Half Delta U"), ("O", r"(?:^|[^\w(] ?)Omegas"), ("F", r"(?:^|[^\w(] ?)Forces"), ("DF", r"(?:^|[^\w(] ?)Delta F"), ("T", r"(?:^|[^\w(] ?)Torques"), ("E", r"(?:^|[^\w(] ?)Strain rate"), ("S", r"(?:^|[^\w(] ?)Stresslets")]


def blocks(text):
    """The numbers printed under each label, one dictionary per solve."""
    out, cur = [], None
    for line in ANSI.sub("", text).splitlines():
        for key, pat in LABELS:
            if re.search(pat, line):
                if key == "U":
                    out.append({})
                if out:
                    cur = out[-1].setdefault(key, [])
                break
        else:
            if cur is not None and re.fullmatch(r"[\s\[\],.0-9eE+\-naif]*", line):
                cur += [float(x) for x in NUMBER.findall(line)]
            elif line.strip():
                cur = None
    return out


def matrix_file(rec, state, run, n, o, ns, nd, rp):
    """The matrix written to R-n.txt turns the velocities of the solve into its forces (fluid and strain rates zero)."""
    try:
        with open(os.path.join(run.wd, "R-%d.txt" % n)) as f:
            R = np.array([[float(x) for x in line.split()] for line in f.read().splitlines()[1:]])
        v = np.concatenate([np.ravel(o["Ua"]), np.ravel(o["Oa"]), np.zeros(5 * ns), np.ravel(o["Ub"]), np.ravel(o["HDUb"])])
        f = np.concatenate([np.ravel(o["Fa"]), np.ravel(o["Ta"]), np.zeros(5 * ns), np.ravel(o["Fb"]), np.ravel(o["DFb"])])
        keep = np.r_[0:6 * ns, 11 * ns:11 * ns + 6 * nd]
        e = float(np.max(np.abs((R @ v - f)[keep])) / np.max(np.abs(f))) if R.shape == (len(v), len(v)) else np.inf
    except (OSError, ValueError) as err:
        e = np.inf
    rec.mon("matrix-file", e <= 1e-5, dict(state, frame=n), "frame %d: the matrix in R-%d.txt does not turn the velocities into the forces (off by %.3g)" % (n, n, e), rp, err=e)


def diagnostics(rec, rng, c):
    ns, nd, form = c["ns"], c["nd"], c["form"]
    pd = runs.particles(rng, ns, nd, gap=2.3)
    load = runs.random_load(rng, ns, nd, form, flow=False)
    dt, frames, level = 0.05, c.get("frames", 2), c["level"]
    st = dict(timestepping_scheme=c["scheme"])
    run = runs.Run(pd, load=load, form=form, dt=dt, frames=frames, settings=dict(st, printout=level))
    quiet = runs.Run(pd, load=load, form=form, dt=dt, frames=frames, settings=dict(st, printout=0))
    state, rp = dict(c), run.replay()
    try:
        run.go()
        quiet.go()
        if not rec.mon("completes", run.failure() is None and len(run.files()) == 1 and quiet.failure() is None, state, "%s %s" % (run.failure(), quiet.failure()), rp):
            return
        a, b = run.data(), quiet.data()
        for key in ARRAYS:
            rec.mon("printing-no-effect", np.array_equal(np.asarray(a[key], float), np.asarray(b[key], float)), dict(state, array=key), "%s differs when diagnostics are printed" % key, rp)
        rec.mon("quiet", not blocks(quiet.res["out"]), state, "diagnostics are printed without being asked for", quiet.replay())
        if c["scheme"] != "euler":
            return
        bl = blocks(run.res["out"])
        rec.mon("every-solve", len(bl) == frames, state, "%d diagnostics for %d solves" % (len(bl), frames), rp)
        for n, block in enumerate(bl[:frames]):
            x, y = a["centres"][n][:ns], a["centres"][n][ns:]
            here = (pd[0], x, a["sphere_rotations"][n].reshape(-1, 2, 3), pd[3], y, a["deltax"][n].reshape(-1, 3))
            o = S.solve(here, loads.at(load, here, n, dt), form=form, frameno=n, timestep=dt)
            want = dict(U=[o["Ua"][:10], o["Ub"][:10]], HDU=[o["HDUb"][:10]], O=[o["Oa"][:10]], F=[o["Fa"][:10], o["Fb"][:10]], DF=[o["DFb"][:10]], T=[o["Ta"][:10]])
            if form != "fts" or ns:
                want["S"] = [o["Sa"][:10]]
            if ns:
                want["E"] = [o["Ea"]]
            if level > 1 and form == "fte":
                matrix_file(rec, state, run, n, o, ns, nd, rp)
            for key, w in want.items():
                w = np.concatenate([np.asarray(v, float).ravel() for v in w])
                g = np.array(block.get(key, []), float)
                e = np.max(np.abs(g - w)) / (np.max(np.abs(w)) + 1e-30) if g.shape == w.shape and w.size else (0.0 if g.shape == w.shape else np.inf)
                if w.size and np.max(np.abs(w)) == 0:
                    e = float(np.max(np.abs(g))) if g.shape == w.shape else np.inf
                rec.mon("diagnostics", bool(e <= 1e-5), dict(state, frame=n, what=key), "frame %d: the numbers printed as %s are off by %.3g (%d printed, %d expected)" % (n, key, e, len(g), len(w)), rp, err=e)
    except S.RepoError as e:
        rec.mon("completes", False, state, "a solve of the same problem fails: %s" % e, rp)
    finally:
        run.clean()
        quiet.clean()


def mail(rec, rng, c):
    ns, nd = 2, 1
    pd = runs.particles(rng, ns, nd, gap=2.5)
    load = runs.random_load(rng, ns, nd, "fte", flow=False)
    st = dict(email_on_completion=c["on"])
    run = runs.Run(pd, load=load, frames=3, settings=st)
    plain = runs.Run(pd, load=load, frames=3)
    state, rp = dict(c), run.replay()
    try:
        kill = dict(kill=dict(at="solve", k=2)) if c.get("kill") else {}
        if c.get("bad"):
            run.argv[1] = 77
        t0 = time.time()
        r = run.go(smtp=dict(mode=c["mode"]), clock=CLOCK, **kill)
        t1 = time.time()
        try:
            with open(os.path.join(run.wd, "smtp.json")) as f:
                log = json.load(f)
        except OSError:
            log = []
        sent = [e for e in log if e[0] == "sendmail"]
        if c.get("kill") or c.get("bad"):
            rec.mon("only-when-complete", not log, state, "mail server contacted for a run that did not complete: %s" % log, rp)
            return
        plain.go(clock=CLOCK)
        if not rec.mon("completes", run.failure() is None and len(run.files()) == 1 and plain.failure() is None, state, "%s %s" % (run.failure(), plain.failure()), rp):
            return
        a, b = run.data(), plain.data()
        for key in ARRAYS:
            rec.mon("mail-no-effect", np.array_equal(np.asarray(a[key], float), np.asarray(b[key], float)), dict(state, array=key), "%s differs with email on" % key, rp)
        if not c["on"]:
            rec.mon("no-mail-unasked", not log, state, "mail server contacted without being asked: %s" % log, rp)
            return
        says = re.search(r"[^\n]*e-?mail[^\n]*", r["out"], re.I)
        failed = says is not None and re.search(r"fail|not sent|could not|error", says.group(), re.I) is not None
        if c["mode"] != "ok":
            rec.mon("failure-told", not sent and failed, state, "the mail could not be sent but the run says %r" % (says.group() if says else None), rp)
            return
        rec.mon("one-mail", len(sent) == 1 and says is not None and not failed, state, "%d mails sent; the run says %r" % (len(sent), says.group() if says else None), rp)
        if sent:
            names = [e[0] for e in log]
            rec.mon("encrypted", "starttls" in names and names.index("starttls") < names.index("login") < names.index("sendmail"), state, "order of the conversation: %s" % names, rp)
            m = email.message_from_string(sent[0][3])
            body = m.get_payload()
            rec.mon("mail-headers", m["From"] == sent[0][1] and m["To"] is not None and all(t in m["To"] for t in sent[0][2]) and bool(m["Subject"]) and "complete" in m["Subject"], state,
                    "headers From %r To %r Subject %r for a mail from %r to %r" % (m["From"], m["To"], m["Subject"], sent[0][1], sent[0][2]), rp)
            took = re.search(r"Total time to run ([^\]\n]*)", ANSI.sub("", r["out"]))
            rec.mon("mail-times", took is not None and took.group(1).strip() in body and any(time.strftime("%A %d %B %Y, %H:%M", time.localtime(t)) in body for t in np.arange(t0 - 1, t1 + 1)), state,
                    "the mail does not give the start and duration of the run: %r" % body, rp)
            rec.mon("mail-names-run", run.files()[0][:-4] in body and socket.gethostname() in body, state, "the mail does not name the run: %r" % body, rp)
    finally:
        run.clean()
        plain.clean()


def body(chk):
    for name, rule, need in (("completes", "runs finish", 30),
                             ("header", "every field of the header is the setting in force", 200),
                             ("file-named", "the file announced is the file written", 12),
                             ("diagnostics", "printed velocities, forces, torques, strain rates and stresslets are those of the solve", 60),
                             ("matrix-file", "the resistance matrix saved at level 2 is the one of the solve", 2),
                             ("every-solve", "diagnostics for every solve", 8),
                             ("printing-no-effect", "printing changes no saved number", 60),
                             ("quiet", "no diagnostics unless asked for", 8),
                             ("one-mail", "one mail after a completed run, reported as sent", 1),
                             ("encrypted", "the connection is encrypted before the login", 1),
                             ("mail-headers", "sender, recipients and subject are in the message", 1),
                             ("mail-names-run", "the mail names run and machine", 1),
                             ("mail-times", "the mail gives start and duration of the run", 1),
                             ("failure-told", "a mail that cannot be sent is reported and nothing else happens", 2),
                             ("no-mail-unasked", "no contact with the mail server unless asked for", 1),
                             ("only-when-complete", "no mail for runs that were refused or killed", 2),
                             ("mail-no-effect", "saved numbers do not depend on the mail", 20)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    n = 12 if th else 1
    me = os.path.abspath(__file__)
    hs = []
    for rep in range(4 * n):
        for ns, nd, form, per in ((1, 1, "fte", False), (2, 1, "ufte", False), (2, 0, "fts", False), (2, 1, "ufteu", False), (0, 2, "duf", False), (1, 1, "fte", True), (2, 0, "fte", True)):
            hs.append(dict(ns=ns, nd=nd, form=form, periodic=per, rep=rep))
    hs.append(dict(ns=1, nd=0, form="fte", jit=True, rep=0))
    par.run_cases(chk, me, "header_case", hs, loader={})
    ds = []
    for rep in range(n):
        for ns, nd, form in ((2, 1, "fte"), (1, 2, "ufte"), (2, 0, "fte"), (2, 2, "ufteu"), (0, 2, "fts"), (2, 1, "fts"), (12, 0, "fte"), (0, 3, "duf")):
            for level in (1, 2) if ns < 10 else (1,):
                ds.append(dict(ns=ns, nd=nd, form=form, level=level, scheme="euler", rep=rep))
        for s in ("ab2", "rk4"):
            ds.append(dict(ns=2, nd=1, form="fte", level=1, scheme=s, rep=rep))
    par.run_cases(chk, me, "diagnostics", ds, loader={}, salt=1)
    ms = [dict(on=True, mode="ok"), dict(on=True, mode="refused"), dict(on=True, mode="login"), dict(on=False, mode="ok"), dict(on=True, mode="ok", kill=True), dict(on=True, mode="ok", bad=True)]
    par.run_cases(chk, me, "mail", ms, loader={}, salt=2)


if __name__ == "__main__":
    common.main(body, common.Check("P29", rule="a state is one run and one thing it says"))
