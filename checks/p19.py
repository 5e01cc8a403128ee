"""P19 bad requests are refused before anything is simulated; valid arguments are honoured."""
import os
import re
import numpy as np
from lib import common, drive, gen, integ, loads, par, runs
from lib import solver as S

CLOCK = "2611160303"
RATIOS = (0.01, 0.1, 1.0, 10.0, 100.0)


def parts(name):
    m = re.match(r"(\d{10})-s(-?\d+)-i(-?\d+)-(-?\d+)fr-t(.+?)-M(\d+)(.*)\.npz$", name)
    return m.groups() if m else None


def bad(rec, rng, c):
    """One request which must be refused. c: why, words (regular expression the message must match), argv, pd, load, settings."""
    ns, nd = c.get("ns", 2), c.get("nd", 0)
    pd = runs.particles(rng, ns, nd, gap=3.0)
    load = dict(Fa=rng.normal(size=(ns, 3)).tolist(), Ta=rng.normal(size=(ns, 3)).tolist(), Fb=rng.normal(size=(nd, 3)).tolist(), DFb=rng.normal(size=(nd, 3)).tolist())
    load.update(c.get("load", {}))
    if c.get("sized") or c.get("all_sizes"):
        sz = c["all_sizes"]
        pd = S.posdata([(a, [3.0 * sum(sz[:i + 1]) * 3, 0, 0]) for i, a in enumerate(sz)], [(b, [0, 40.0 * max(list(sz) + c.get("beads", [])) * (i + 1), 0], [0, 0, 4 * b]) for i, b in enumerate(c.get("beads", []))])
        load = dict(Fa=[[0, 0, 1.0]] * len(sz), Ta=[[0, 0, 0.0]] * len(sz), Fb=[[0, 0, 1.0]] * len(c.get("beads", [])), DFb=[[0, 0, 0.0]] * len(c.get("beads", [])))
    run = runs.Run(pd, load=load, form=c.get("form", "fte"), frames=3, settings=c.get("settings"), argv=c.get("argv"))
    st, rp = dict(why=c["why"], argv=[str(a) for a in run.argv], settings=c.get("settings"), sizes=c.get("all_sizes"), load=sorted(c.get("load", {}))), run.replay()
    try:
        os.makedirs(os.path.join(run.wd, "output"), exist_ok=True)
        np.savez(os.path.join(run.wd, "output", "other.npz"), centres=np.arange(6.))
        before = runs.snapshot(run.wd)
        r = run.go(clock=CLOCK, timeout=120, trace=True)
        text = r["out"] + r["err"]
        rec.mon("refused", r["rc"] not in (0, None), st, "%s: the program ends with exit %s" % (c["why"], r["rc"]), rp)
        rec.mon("no-output", runs.snapshot(run.wd) == before, st, "%s: files in output changed to %s" % (c["why"], sorted(runs.snapshot(run.wd))), rp)
        if r["rc"] not in (0, None):
            flat = " ".join(text.split())
            said = re.search(c["words"], flat, re.I) is not None and "Traceback" not in r["err"]
            rec.mon("explained", said, st, "%s: the program stops without an explanation: %s" % (c["why"], flat[-300:]), rp)
        try:
            with open(os.path.join(run.wd, "trace.jsonl")) as f:
                solved = sum(1 for _ in f)
        except OSError:
            solved = 0
        rec.mon("nothing-simulated", solved == 0 and "[Complete" not in r["out"], st, "%s: %d solves were completed" % (c["why"], solved), rp)
    finally:
        run.clean()


UNFINISHED = dict(RPY_dumbbells_only="UnboundLocalError.*Fa_out", stokes_drag_dumbbells_only="TypeError: slice indices")


def dumbbell_only(rec, rng, c):
    """The two forms for dumbbells only that the startup checks let through: they run or are refused with an explanation."""
    run = runs.Run(runs.particles(rng, 0, c["nd"], gap=3.0), load=runs.random_load(rng, 0, c["nd"], "fts", flow=False), form=c["form"], frames=2)
    try:
        r = run.go(clock=CLOCK, timeout=120)
        ok = "Traceback" not in r["err"] and (len(run.files()) == 1 if r["rc"] == 0 else not run.files())
        known = "dumbbell-only-forms-unfinished" if re.search(UNFINISHED[c["form"]], r["err"]) and not run.files() else None
        rec.mon("dumbbell-only-forms", ok, c, "%d dumbbells in %s form end with exit %s, files %s: %s" % (c["nd"], c["form"], r["rc"], run.files(), r["err"][-200:]), run.replay(), key=known)
    finally:
        run.clean()


def good_sizes(rec, rng, c):
    """Size ratios that are in the table are accepted."""
    sz = c["all_sizes"]
    pd = S.posdata([(a, [30.0 * i * max(sz), 0, 0]) for i, a in enumerate(sz)], [(b, [0, 40.0 * max(sz) * (i + 1), 0], [0, 0, 4 * b]) for i, b in enumerate(c.get("beads", []))])
    nd = len(c.get("beads", []))
    run = runs.Run(pd, load=dict(Fa=[[0, 0, 1.0]] * len(sz), Ta=[[0, 0, 0.0]] * len(sz), Fb=[[0, 0, 1.0]] * nd, DFb=[[0, 0, 0.0]] * nd), frames=1)
    try:
        run.go()
        rec.mon("accepted", run.failure() is None and len(run.files()) == 1, c, "sizes %s %s are refused: %s" % (sz, c.get("beads"), run.failure()), run.replay())
    finally:
        run.clean()


def builtin(rec, rng, c):
    """A provided setup with a provided input."""
    run = runs.Run(None, setup=c["s"], number=c["i"], form=c["form"], frames=1, settings=dict(how_far_to_reproduce_gridpoints=1))
    try:
        run.go(np_seed=int(rng.integers(1 << 30)), clock=CLOCK)
        f = run.files()
        ok = run.failure() is None and len(f) == 1
        rec.mon("accepted", ok, c, "setup %d with input %d in %s form is refused: %s" % (c["s"], c["i"], c["form"], run.failure()), run.replay())
        if ok:
            p = parts(f[0])
            rec.mon("named-as-asked", p is not None and p[1:4] == (str(c["s"]), str(c["i"]), "1"), c, "output is called %s" % f[0], run.replay())
    finally:
        run.clean()


def honoured(rec, rng, c):
    """First k of the six arguments on the command line, the others from the settings; everything observed in the result."""
    k = c["k"]
    ns, nd = int(rng.integers(2, 4)), int(rng.integers(1, 3))
    sets = {n: runs.particles(rng, ns, nd, gap=2.05) for n in (-901, -902, -903)}
    form = c["form"]
    ins = {}
    for n in (90001, 90002, 90003):
        l = runs.random_load(rng, ns, nd, "fte", flow=False)
        l["Ua"] = [rng.normal(size=3).tolist()] + [None] * (ns - 1)
        l["Fa"][0] = rng.normal(size=3).tolist()
        l["Ea"] = np.zeros((ns, 3, 3)).tolist()
        ins[n] = l
    s, i = int(rng.choice(list(sets))), int(rng.choice(list(ins)))
    dt_text = str(rng.choice(["0.1", "0.05", "1e-2", ".2", "0.025", "0.1250", "5e-3", "0.003", "1e-5"]))
    dt, frames = float(dt_text), int(rng.integers(1, 6))
    word, extract = c["word"], c["word"] in ("True", "true", "t", "T", "1")
    full = [str(s), str(i), dt_text, str(frames), form, word]
    names = ["setup_number", "input_number", "timestep", "num_frames", "input_form", "extract_force_on_wall_due_to_dumbbells"]
    vals = [s, i, dt, frames, form, extract]
    st_ = {a: v for a, v in list(zip(names, vals))[k:]}
    desc = c.get("desc", "") if k == 0 else ""
    every = int(rng.integers(1, 4))
    run = runs.Run(sets[s], load=ins[i], setup=s, form=form, dt=dt, frames=frames, settings=dict(st_, invert_m_every=every), argv=full[:k])
    spec = dict(run.spec(), setups=sets, inputs=ins, argv=full[:k])
    st = dict(k=k, argv=full[:k], settings={a: v for a, v in st_.items()}, desc=desc)
    try:
        r = drive.run(run.wd, dict(spec, clock=CLOCK, stdin=desc + "\n" if k == 0 else ""))
        if r["timeout"] or r["rc"] == 71:
            raise RuntimeError("run did not complete: %s %s" % (r["rc"], r["err"][-500:]))
        run.res = r
        f = run.files()
        if not rec.mon("accepted", run.failure() is None and len(f) == 1, st, "a valid request is refused: %s (files %s)" % (run.failure(), f), spec):
            return
        d, p = run.data(), parts(f[0])
        want = (CLOCK, str(s), str(i), str(frames), str(dt).replace(".", "p"), str(every), "-" + desc if desc else "")
        rec.mon("named-as-asked", p == want, st, "output is called %s, expected the parts %s" % (f[0], want), spec)
        rec.mon("frames-as-asked", len(d["centres"]) == frames + 1, st, "%d positions saved for %d frames" % (len(d["centres"]), frames), spec)
        e = np.max(np.abs(d["centres"][0] - np.vstack([sets[s][1], sets[s][4]])))
        rec.mon("setup-as-asked", bool(e <= 1e-12), st, "the run starts %.3g away from setup %d" % (e, s), spec, err=e)
        if form != "fts":  # the strain rate computed in fts form is part of the motion there
            new, forces, vel = run.problem(every=every).predict(integ.states_of(d, range(2), ns), 0)
            moved, should = d["centres"][1] - d["centres"][0], np.vstack([new["x"], new["y"]]) - d["centres"][0]
            e = np.max(np.abs(moved - should)) / (np.max(np.abs(should)) + 1e-30)
            rec.mon("first-step-as-asked", bool(e <= 1e-5), st, "first step of input %d, form %s, timestep %s is off by %.3g of its size" % (i, form, dt_text, e), spec, err=e)
        asked = loads.at(ins[i], sets[s], 0, dt)["Fa"][0]
        got = ("fts" if not np.any(d["Sa"]) else "fte" if np.allclose(d["Fa"][0][0], asked, rtol=1e-9, atol=1e-12) else "ufte")
        rec.mon("form-as-asked", got == form, st, "the saved forces and stresslets are those of a problem in %s form, not %s" % (got, form), spec)
        w = np.asarray(d["force_on_wall_due_to_dumbbells"], float)
        on = w.size > 0 and bool(np.any(w != 0))
        rec.mon("extraction-as-asked", on == (extract and form == "ufte"), st, "extraction %s with form %s gives %s" % (word, form, w[:1].tolist()), spec)
    except S.RepoError as e:
        rec.mon("accepted", False, st, "a solve of the same problem fails: %s" % e, spec)
    finally:
        run.clean()


def cases(rng, th):
    out = []
    ok = [-900, 90001, 0.1, 3, "fte"]

    def add(why, words, argv=None, **kw):
        out.append(dict(why=why, words=words, argv=argv, **kw))
    for n in [0, 99, -999, 9] + rng.integers(10, 10**6, 2).tolist() + (-rng.integers(1000, 10**6, 2)).tolist():
        add("unknown setup %d" % n, "setup|position", [n] + ok[1:])
    for n in [0, 99, -999, 8] + rng.integers(10, 80000, 2).tolist() + (-rng.integers(1000, 10**6, 2)).tolist():
        add("unknown input %d" % n, "input", [-900, n] + ok[2:])
    for s in ["foo", "", "Euler", "rk5", "ab3", "RK4"]:
        add("unknown scheme %r" % s, "scheme|timestep", settings=dict(timestepping_scheme=s))
    for pos, words in ((0, ["abc", "1.5", "", "1e1", "--help"]), (1, ["x", "2.0", "one"]), (2, ["x", "0,1", "1/10"]), (3, ["10.5", "ten", "1e2"])):
        for w in words:
            a = [str(v) for v in ok]
            a[pos] = w
            add("malformed argument %r in place %d" % (w, pos + 1), "argument|invalid|command|order|number|integer", a)
            add("malformed argument %r, last of %d" % (w, pos + 1), "argument|invalid|command|order|number|integer", a[:pos + 1])
    for f in ["xyz", "FTE", "ftes", "fteu", "", "general"]:
        add("unknown form %r" % f, "form|mode", ok[:4] + [f])
    for f in ["fte", "ufte", "ufteu"]:
        add("only dumbbells in %s form" % f, "dumbbell", ok[:4] + [f], ns=0, nd=2, form=f)
    for ns, nd in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 2)):
        vel = dict(Ub=rng.normal(size=(nd, 3)).tolist(), HDUb=rng.normal(size=(nd, 3)).tolist())
        add("%d spheres and %d dumbbells in duf form" % (ns, nd), "dumbbell|sphere", ok[:4] + ["duf"], ns=ns, nd=nd, form="duf", load=dict(Ub=[None] * nd, HDUb=[None] * nd))
        add("%d spheres and %d dumbbells with imposed velocities in duf form" % (ns, nd), "dumbbell|sphere", ok[:4] + ["duf"], ns=ns, nd=nd, form="duf", load=vel)
        for f in ("RPY_dumbbells_only", "stokes_drag_dumbbells_only"):
            add("%d spheres and %d dumbbells in %s form" % (ns, nd, f), "dumbbell|sphere", ok[:4] + [f], ns=ns, nd=nd, form=f)
    miss = "provided|missing|not enough|given|required"
    z = [[0., 0, 0]] * 2
    for f in ("fte", "fts", "ufte"):
        add("a force not given in %s form" % f, miss, ok[:4] + [f], form=f, load=dict(Fa=[[0, 0, 1.0], None]))
        add("a torque not given in %s form" % f, miss, ok[:4] + [f], form=f, load=dict(Ta=[None, [0, 0, 1.0]]))
        add("a dumbbell force not given in %s form" % f, miss, ok[:4] + [f], form=f, nd=2, load=dict(Fb=[[0, 0, 1.0], None]))
        add("a dumbbell tension not given in %s form" % f, miss, ok[:4] + [f], form=f, nd=2, load=dict(DFb=[None, [0, 0, 1.0]]))
    add("neither force nor velocity in ufte form", miss, ok[:4] + ["ufte"], form="ufte", load=dict(Fa=[None, None]))
    add("velocity of only one of two spheres without force", miss, ok[:4] + ["ufte"], form="ufte", ns=3, load=dict(Fa=[None, None, [1.0, 0, 0]], Ua=[[1.0, 0, 0], None, None], Ta=[[0., 0, 0]] * 3))
    add("strain not given in ufteu form", miss, ok[:4] + ["ufteu"], form="ufteu")
    add("dumbbell force not given in ufteu form", miss, ok[:4] + ["ufteu"], form="ufteu", nd=2, load=dict(Fb=[None, [0., 0, 1]], Ea=np.zeros((2, 3, 3)).tolist()))
    add("dumbbell tension not given in duf form", miss, ok[:4] + ["duf"], form="duf", ns=0, nd=2, load=dict(Fb=z, DFb=[None, None], Ub=[None, None], HDUb=[None, None]))
    add("dumbbell force not given in duf form", miss, ok[:4] + ["duf"], form="duf", ns=0, nd=2, load=dict(Fb=[z[0], None], DFb=z, Ub=[None, None], HDUb=[None, None]))
    for sz, b in [((1.0, 0.5), ()), ((1.0, 0.11), ()), ((1.0, 1.001), ()), ((10.0, 1.0, 0.1, 0.01), ()), ((1.0,), (0.2,)), ((1.0,), (0.1, 0.05)), ((1.0, 2.0), (0.1,)), ((1.0, 1000.0), ()), ((1.0,), (0.001,)), ((1.0,), (0.01, 10.0)), ((1.0,), (0.1, 100.0)), ((), (1.0, 0.3)), ((), (0.1, 0.11))]:
        add("size ratio outside the table: %s %s" % (sz, b), "ratio|size|table", all_sizes=list(sz), beads=list(b), sized=True, form="fte" if sz else "fts")
    for _ in range(60 if th else 4):
        r = float(np.exp(rng.uniform(np.log(1e-3), np.log(1e3))))
        if min(abs(r / t - 1) for t in RATIOS) > 1e-3:
            a = float(rng.uniform(0.2, 3))
            add("size ratio outside the table: %.6g" % r, "ratio|size|table", all_sizes=[a, a * r])
    return out


def body(chk):
    for name, rule, need in (("refused", "bad requests end the program with a non-zero exit", 60),
                             ("no-output", "a refused request leaves the output folder as it was", 60),
                             ("explained", "a refused request is answered with a message about its fault, not a traceback", 60),
                             ("nothing-simulated", "no solve is completed before a refusal", 60),
                             ("accepted", "valid requests run", 30),
                             ("dumbbell-only-forms", "the two other forms for dumbbells run or are refused", 4),
                             ("named-as-asked", "the output file is named after the arguments", 20),
                             ("frames-as-asked", "the number of frames is the one asked for", 20),
                             ("setup-as-asked", "the first saved frame is the setup asked for", 20),
                             ("first-step-as-asked", "the first step matches a separate solve with the input, form and timestep asked for", 15),
                             ("form-as-asked", "saved forces and stresslets show which quantities were imposed", 20),
                             ("extraction-as-asked", "wall forces are reported exactly when asked for in the form that supports it", 20)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "bad", cases(chk.rng, th), loader={})
    par.run_cases(chk, me, "dumbbell_only", [dict(nd=n, form=f) for n in (1, 2) for f in UNFINISHED], loader={}, salt=4)
    par.run_cases(chk, me, "good_sizes", [dict(all_sizes=list(s), beads=list(b)) for s, b in [((1.0, 0.1), ()), ((1.0, 0.01), ()), ((1.0, 10.0, 100.0), ()), ((0.3, 3.0), ()), ((7.0, 0.7, 0.07), ()), ((1.0,), (0.1, 0.01)), ((0.05,), (0.5,)), ((2.5, 2.5), (0.25,))]], loader={}, salt=1)
    bi = [dict(s=s, i=i, form=f) for s in (2, 3, 4) for i, f in ((1, "fte"), (1, "fts"), (1, "ufte"), (2, "fte"), (4, "fte"), (5, "ufte"), (7, "fte"), (3, "fte"))]
    bi += [dict(s=1, i=1, form="fte"), dict(s=1, i=7, form="fte"), dict(s=5, i=3, form="fte")]
    par.run_cases(chk, me, "builtin", bi, loader={}, salt=2)
    words = ["True", "False", "true", "t", "0", "T", "1", "no", "TRUE"]
    hc, n = [], 0
    for rep in range(30 if th else 3):
        for k in range(7):
            hc.append(dict(k=k, form=["ufte", "fts", "fte"][(rep + k) % 3] if k != 6 else ["ufte", "ufte", "fte"][rep % 3], word=words[n % 9], desc=["", "my-run", "two words"][rep % 3], rep=rep))
            n += 1
    for w in words:
        hc.append(dict(k=6, form="ufte", word=w, rep=w))
    par.run_cases(chk, me, "honoured", hc, loader={}, salt=3)


if __name__ == "__main__":
    common.main(body, common.Check("P19", rule="a state is one request"))
