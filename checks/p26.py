"""P26 pictures and videos: everything on the axes at each displayed frame against the saved data."""
import json
import os
import re
import shutil
import numpy as np
from lib import common, drive, gen, loads, par, pictures, runs
from lib import solver as S

TOL = 1e-9


def direction(elev, azim):
    e, a = np.radians(elev), np.radians(azim)
    return np.array([np.cos(e) * np.cos(a), np.cos(e) * np.sin(a), np.sin(e)])


def match(items, want, same):
    """Pairs drawn items off against expected ones; returns (missing, extra)."""
    left = list(items)
    missing = []
    for w in want:
        for i, x in enumerate(left):
            if same(x, w):
                del left[i]
                break
        else:
            missing.append(w)
    return missing, left


def scale(*xs):
    return 1 + max([float(np.abs(x).max()) for x in map(np.asarray, xs) if np.size(x)] + [0])


def check_discs(rec, snap, want, st, replay, mon="particles"):
    """want: list of (centre, radius)."""
    sc = scale([w[0] for w in want], [w[1] for w in want])
    n = direction(snap["elev"], snap["azim"])
    same = lambda d, w: np.abs(np.array(d["c"]) - w[0]).max() <= TOL * sc and abs(d["r"][0] - w[1]) <= 1e-6 * w[1] + TOL * sc and abs(d["r"][1] - w[1]) <= 1e-6 * w[1] + TOL * sc
    missing, extra = match(snap["discs"], want, same)
    rec.mon(mon, not missing and not extra and not snap["other"], st, "%d particles not drawn where the data has them, e.g. %s; %d drawn elsewhere, e.g. %s; unknown artists %s" % (
        len(missing), [(list(map(float, m[0])), float(m[1])) for m in missing[:1]], len(extra), [(d["c"], d["r"]) for d in extra[:1]], snap["other"]), replay)
    for d in snap["discs"][:20]:
        rec.mon("facing", abs(abs(np.dot(d["n"], n)) - 1) <= 1e-9 and d["flat"] <= 1e-9 * sc, dict(st, d=d["c"]), "disc at %s faces %s, the viewer is at %s" % (d["c"], d["n"], n), replay)


def segs(lines):
    return [(np.array(l[i]), np.array(l[i + 1])) for l in lines for i in range(len(l) - 1)]


def same_seg(x, w):
    sc = scale(*w)
    return (np.abs(x[0] - w[0]).max() <= TOL * sc and np.abs(x[1] - w[1]).max() <= TOL * sc) or (np.abs(x[1] - w[0]).max() <= TOL * sc and np.abs(x[0] - w[1]).max() <= TOL * sc)


def real_segs(ws):
    return [(np.array(a, float), np.array(b, float)) for a, b in ws]


def check_lines(rec, snap, want, optional, st, replay, mon="lines"):
    missing, extra = match(segs(snap["lines"]), real_segs(want), same_seg)
    gone, extra = match(extra, real_segs(optional), same_seg)
    if optional and 0 < len(gone) < len(optional):
        extra, missing = extra, missing + gone      # some but not all of an optional group
    rec.mon(mon, not missing and not extra, st, "%d lines missing, e.g. %s; %d lines too many, e.g. %s" % (len(missing), [[list(map(float, p)) for p in m] for m in missing[:1]], len(extra), [[p.tolist() for p in m] for m in extra[:1]]), replay)


def check_arrows(rec, snap, want, st, replay, mon, optional=()):
    """want: (tail, head) in space; compared after projection onto the page."""
    pj = lambda w: (pictures.project(snap["M"], w[0]), pictures.project(snap["M"], w[1]))
    same = lambda x, w: np.abs(np.array(x["a"]) - w[0]).max() <= 1e-9 * scale(*w) and np.abs(np.array(x["b"]) - w[1]).max() <= 1e-9 * scale(*w)
    missing, extra = match(snap["arrows"], [pj(w) for w in want], same)
    _, extra = match(extra, [pj(w) for w in optional], same)
    rec.mon(mon, not missing and not extra, st, "%d arrows missing of %d, %d drawn wrongly, e.g. %s instead of %s" % (len(missing), len(want), len(extra), extra[:1], [[p.tolist() for p in m] for m in missing[:1]]), replay)


def check_texts(rec, snap, want, st, replay, mon, optional=()):
    same = lambda x, w: x["s"].strip() == w[1] and np.abs(np.array(x["p"]) - w[0]).max() <= TOL * scale(w[0])
    missing, extra = match(snap["texts"], want, same)
    _, extra = match(extra, optional, same)
    rec.mon(mon, not missing and not extra, st, "labels missing %s, labels too many %s" % ([(list(map(float, m[0])), m[1]) for m in missing[:2]], extra[:2]), replay)


def shown(x):
    """Force arrows are only drawn for spheres in a slice around y = 0: required well inside, allowed near its faces, not judged elsewhere."""
    return -0.95 < x[1] < 0.0


# ---------------------------------------------------------------------------------------------- functions
def random_pd(rng, ns, nd, flat):
    pd = [rng.uniform(0.3, 3, ns), rng.uniform(-6, 6, (ns, 3)), None, rng.uniform(0.05, 0.8, nd), rng.uniform(-6, 6, (nd, 3)), rng.normal(size=(nd, 3)) * 2]
    if flat:
        pd[1][:, 1] = -rng.choice([0.0, 0.3], ns) if ns else 0
        pd[4][:, 1] = 0
        pd[5][:, 1] = 0
    Q = rng.normal(size=(ns, 2, 3))
    Q /= np.linalg.norm(Q, axis=2)[:, :, None]
    pd[2] = pd[1][:, None, :] + Q * pd[0][:, None, None] if ns else np.empty((0, 2, 3))
    return pd


def functions(rec, rng, c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    S.load()
    for _ in range(c["n"]):
        ns, nd = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        pd, prev = random_pd(rng, ns, nd, rng.random() < 0.7), random_pd(rng, ns, nd, False)
        view = [(0, -90), (30, -60), (-25, 40), (90, 0), (10, 170), (-80, -100), (0, 0), (55, 135)][int(rng.integers(8))]
        fig = plt.figure(figsize=(3, 3), dpi=50)
        ax = fig.add_subplot(111, projection="3d")
        ax.view_init(*view)
        for f in (ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d):
            f(-8, 8)
        trace = int(rng.choice([0, 1, 3]))
        frame = int(rng.integers(0, 7))
        what = str(rng.choice(["spheres", "dumbbells", "dumbbells-no-line", "forces", "torques", "velocities", "spins"]))
        V = rng.normal(size=(ns, 3)) * (rng.random((ns, 1)) < 0.8) * (0.3 if what == "forces" else 1)
        Fb, D = rng.normal(size=(nd, 3)), rng.normal(size=(nd, 3))
        if rng.random() < 0.2:
            Fb, D = 0 * Fb, 0 * D
        data = [pd, prev, V, Fb, D]
        before = json.dumps(common.jsonable_full(data))
        st = dict(what=what, ns=ns, nd=nd, view=view, trace=trace, frame=frame, x=pd[1].tolist())
        replay = dict(st, data=common.jsonable_full(data))
        if what == "spheres":
            out = S.helper("plot_all_spheres", "functions.graphics")(ax, frame, pd, prev, trace, [], V)
        elif what.startswith("dumbbells"):
            out = S.helper("plot_all_dumbbells", "functions.graphics")(ax, pd, trace, [], Fb, D, no_line=what != "dumbbells")
        else:
            out = dict(forces=S.helper("plot_all_force_lines", "functions.graphics"), torques=S.helper("plot_all_torque_lines", "functions.graphics"), velocities=S.helper("plot_all_velocity_lines", "functions.graphics"), spins=S.helper("plot_all_angular_velocity_lines", "functions.graphics"))[what](ax, pd, V)
        rec.mon("data-kept", json.dumps(common.jsonable_full(data)) == before, st, "drawing %s changed the data" % what, replay)
        snap = pictures.snapshot(fig, ax)
        x = pd[1]
        moving = [i for i in range(ns) if np.any(V[i] != 0)]
        if what == "spheres":
            check_discs(rec, snap, [(x[i], pd[0][i]) for i in range(ns)], st, replay)
            want = [(x[i], pd[2][i, k]) for i in range(ns) for k in range(2)]
            if trace and frame % trace == 0:
                want += [(prev[1][i], x[i]) for i in range(ns)]
            check_lines(rec, snap, want, [], st, replay)
        elif what.startswith("dumbbells"):
            check_discs(rec, snap, [(pd[4][i] + s * pd[5][i] / 2, pd[3][i]) for i in range(nd) for s in (-1, 1)], st, replay)
            check_lines(rec, snap, [(pd[4][i] - pd[5][i] / 2, pd[4][i] + pd[5][i] / 2) for i in range(nd)] if what == "dumbbells" else [], [], st, replay)
        elif what == "forces":
            req = [i for i in moving if shown(x[i])]
            opt = [i for i in moving if i not in req]
            check_arrows(rec, snap, [(x[i], x[i] + 6 * V[i]) for i in req], st, replay, "arrows", [(x[i], x[i] + 6 * V[i]) for i in opt])
            check_texts(rec, snap, [(x[i] + 6 * V[i], str(i)) for i in req], st, replay, "labels", [(x[i] + 6 * V[i], str(i)) for i in opt])
        else:
            check_arrows(rec, snap, [(x[i], x[i] + V[i]) for i in moving], st, replay, "arrows")
            check_texts(rec, snap, [(x[i] + V[i], str(i)) for i in moving] + [(x[i], str(i)) for i in range(ns)] if what == "velocities" else [], st, replay, "labels")
        # everything drawn can be taken off again through what was returned
        flat = []
        for o in (out if isinstance(out, tuple) else (out,)):
            flat += [a for a in o if a is not None]
        for a in {id(a): a for a in flat}.values():
            a.remove()
        snap = pictures.snapshot(fig, ax)
        rec.mon("removable", not (snap["discs"] or snap["lines"] or snap["arrows"] or snap["texts"]), st, "artists left after removing everything returned by the drawing of %s" % what, replay)
        plt.close(fig)


# ---------------------------------------------------------------------------------------------- running with pictures on
def screen(rec, rng, c):
    frames = int(c["frames"])
    view = [(0, -90), (30, -60), (-25, 40), (90, 0)][int(rng.integers(4))]
    trace = c["trace"]
    kw = dict(view_graphics=True, viewing_angle=list(view), view_labels=bool(c["labels"]), trace_paths=trace, two_d_plot=bool(rng.random() < 0.5))
    r = runs.random_run(rng, c["ns"], c["nd"], str(rng.choice(["euler", "ab2", "rk4"])), form="fts" if not c["ns"] else "fte", periodic=c["periodic"], frames=frames, sizes=(1.0, 0.1) if c["mixed"] else (1.0,),
                        flat=c["flat"], settings=dict(how_far_to_reproduce_gridpoints=1) if c["periodic"] else None)
    st = dict(c, view=view, conf=gen.describe(r.pd))
    off = r.go()
    if r.failure():
        raise RuntimeError("plain run failed: %s" % r.failure())
    plain = r.data()
    wd = r.wd
    r.wd = wd + "-pictures"
    r.settings.update(kw)
    pic = os.path.join(wd, "pictures.jsonl")
    r.go(pictures=pic)
    replay = r.replay()
    fail = r.failure()
    rec.mon("runs", not fail, st, "with pictures on %s" % fail, replay)
    if not fail:
        d = r.data()
        for k in plain:
            rec.mon("data-kept", np.array_equal(plain[k], d[k]), dict(st, field=k), "saved %s differs when pictures are shown" % k, replay)
        snaps = [json.loads(l) for l in open(pic)]
        snaps = [s for s in snaps if s["what"] == "screen"] if frames > 1 else snaps[:1]
        rec.mon("frames", len(snaps) == frames, st, "%d pictures for %d frames" % (len(snaps), frames), replay)
        ns, nd = c["ns"], c["nd"]
        traces, last = [], d["centres"][0][:ns]
        for k, s in enumerate(snaps[:frames]):
            stk = dict(st, k=k)
            X, dx, rot, Fa = d["centres"][k + 1], d["deltax"][k + 1], d["sphere_rotations"][k + 1], d["Fa"][k]
            check_discs(rec, s, [(X[i], r.pd[0][i]) for i in range(ns)] + [(X[ns + i] + q * dx[i] / 2, r.pd[3][i]) for i in range(nd) for q in (-1, 1)], stk, replay, "screen-particles")
            if trace and k % trace == 0:
                traces += [(last[i], X[i]) for i in range(ns)]
                last = X[:ns]
            check_lines(rec, s, [(X[i], rot[i, j]) for i in range(ns) for j in range(2)] + traces, [(X[ns + i] - dx[i] / 2, X[ns + i] + dx[i] / 2) for i in range(nd)], stk, replay, "screen-lines")
            mv = [i for i in range(ns) if np.any(Fa[i] != 0)] if c["labels"] else []
            req = [i for i in mv if shown(X[i])]
            opt = [i for i in mv if i not in req]
            check_arrows(rec, s, [(X[i], X[i] + 6 * Fa[i]) for i in req], stk, replay, "screen-arrows", [(X[i], X[i] + 6 * Fa[i]) for i in opt])
            check_texts(rec, s, [(X[i] + 6 * Fa[i], str(i)) for i in req], stk, replay, "screen-labels", [(X[i] + 6 * Fa[i], str(i)) for i in opt] + [(X[i], str(i)) for i in range(ns)])
            t = " ".join(s["titles"])
            m, q = re.search(r"frame\s+(\d+)/(\d+)", t), re.search(r"=\s*([-+.\de]+)/([-+.\de]+)", t)
            if m:
                rec.mon("titles", (int(m.group(1)), int(m.group(2))) == (k + 1, frames), stk, "title %r at frame %d of %d" % (t, k + 1, frames), replay)
            if q:
                rec.mon("titles", abs(float(q.group(1)) - (k + 1) * r.dt) <= 0.00501 and abs(float(q.group(2)) - frames * r.dt) <= 0.00501, dict(stk, t=1), "title %r at time %g of %g" % (t, (k + 1) * r.dt, frames * r.dt), replay)
            if view:
                rec.mon("views", (s["elev"], s["azim"]) == tuple(view) and np.allclose(s["lim"], np.array(settings_value("viewbox_bottomleft_topright")).T), stk, "seen from %s with limits %s" % ((s["elev"], s["azim"]), s["lim"]), replay)
    shutil.rmtree(wd, ignore_errors=True)
    r.clean()


def settings_value(name):
    S.load()
    import settings
    return getattr(settings, name)


# ---------------------------------------------------------------------------------------------- saved files
def saved_file(rng, c):
    """Arbitrary saved data, as a run would have named it."""
    ns, nd, F = c["ns"], c["nd"], c["frames"]
    load = dict(Fa=np.zeros((ns, 3)).tolist(), Fb=np.zeros((nd, 3)).tolist(), DFb=np.zeros((nd, 3)).tolist())
    load = {}
    dt = float(rng.choice([0.1, 0.05, 1.0, 0.5, 0.0001, 0.00002] if not c["periodic"] else [0.1, 0.05, 0.3, 0.00005]))
    lo, hi = np.full(3, -6.0), np.full(3, 6.0)
    if c["periodic"]:
        L = rng.uniform(6, 9, 3)
        ctr = rng.normal(size=3) * 3 * (rng.random() < 0.5)
        lo, hi = ctr - L / 2, ctr + L / 2
        load["box"] = [lo.tolist(), hi.tolist()]
        if c["sheared"]:
            load["flow"] = runs.random_flow(rng, shear=float(rng.uniform(0.5, 2) * rng.choice([-1, 1])) * (1 if dt > 0.01 else 3000), steady=rng.random() < 0.5)
            load["flow"]["centre"] = [0, 0, 0]
    sizes = rng.choice([1.0, 0.1, 0.5, 2.0], ns) if c["mixed"] else np.ones(ns)
    beads = rng.choice([0.1, 0.4], nd) if c["mixed"] else np.full(nd, 0.1)
    X = rng.uniform(lo, hi, (F + 1, ns + nd, 3))
    if c["flat"]:
        X[:, :, 1] = 0
    Q = rng.normal(size=(F + 1, ns, 2, 3))
    Q /= np.linalg.norm(Q, axis=3)[..., None]
    d = dict(centres=X, deltax=rng.normal(size=(F + 1, nd, 3)), sphere_rotations=X[:, :ns, None] + Q * sizes[None, :, None, None], Fa=rng.normal(size=(F, ns, 3)) * 0.2, Fb=rng.normal(size=(F, nd, 3)), DFb=rng.normal(size=(F, nd, 3)),
             Sa=rng.normal(size=(F, ns, 3, 3)), force_on_wall_due_to_dumbbells=np.zeros((F, 3)))
    pd = [sizes, X[0, :ns], d["sphere_rotations"][0], beads, X[0, ns:], d["deltax"][0]]
    name = "2601010101-s%d-i%d-%dfr-t%s-M1" % (runs.SETUP, runs.INPUT, F, str(dt).replace(".", "p"))
    if c.get("suffix"):
        name += c["suffix"]
    return load, dt, pd, d, name


def sandbox(c, tag):
    d = os.path.join(c["dir"], "%s-%d" % (tag, c["id"]))
    sd = os.path.join(d, "stokesian_dynamics")
    shutil.copytree(common.SD, sd, ignore=shutil.ignore_patterns("__pycache__", "*.npz", "*.mp4", "output_videos"))
    os.makedirs(os.path.join(sd, "output"), exist_ok=True)
    return d, sd


def expected(d, pd, frame, copies):
    ns, nd = len(pd[0]), len(pd[3])
    X, dx, rot = d["centres"][frame], d["deltax"][frame], d["sphere_rotations"][frame]
    discs, lines, opt = [], [], []
    for T in copies:
        discs += [(X[i] + T, pd[0][i]) for i in range(ns)] + [(X[ns + i] + T + q * dx[i] / 2, pd[3][i]) for i in range(nd) for q in (-1, 1)]
        lines += [(X[i] + T, rot[i, j] + T) for i in range(ns) for j in range(2)]
        opt += [(X[ns + i] + T - dx[i] / 2, X[ns + i] + T + dx[i] / 2) for i in range(nd)]
    return discs, lines, opt


def video(rec, rng, c):
    load, dt, pd, d, name = saved_file(rng, c)
    w, sd = sandbox(c, "video")
    F = c["frames"] + 1
    if c["id"] % 2:      # an older file that must not be used
        np.savez_compressed(os.path.join(sd, "output", name.replace("2601010101", "2601010100")), **{k: v + 1 for k, v in d.items()})
    path = os.path.join(sd, "output", name + ".npz")
    np.savez_compressed(path, **d)
    before = open(path, "rb").read()
    const = dict(viewing_angle=repr(tuple(c["view"])))
    start, end, every = c.get("range", (0, 0, 1))
    if (start, end, every) != (0, 0, 1):
        const.update(num_frames_override_start=start, num_frames_override_end=end, display_every_n_frames=every)
    if c["labels"]:
        const["view_labels"] = "True"
    pic = os.path.join(w, "pictures.jsonl")
    wd = os.path.join(w, "wd")
    # only edit what differs from the script's own value
    spec = dict(sd=sd, script="plotting/make_video.py", argv=[], pictures=pic, constants=const, setups={runs.SETUP: common.jsonable_full([np.asarray(x).tolist() for x in pd])}, inputs={runs.INPUT: load}, settings={})
    res = drive.run(wd, spec)
    if res["timeout"] or res["rc"] == 71:
        raise RuntimeError("video script: %s" % res["err"][-500:])
    st = dict({k: v for k, v in c.items() if k != "dir"}, name=name)
    replay = dict(st, spec=spec)
    snaps = [json.loads(l) for l in open(pic)] if os.path.exists(pic) else []
    snaps = [s for s in snaps if s["what"] == "video"]
    ok = res["rc"] == 0 and snaps
    if rec.mon("videos", bool(ok), st, "make_video ended with %s after %d frames: %s" % (res["rc"], len(snaps), (res["err"] or res["out"])[-700:]), replay):
        rec.mon("data-kept", open(path, "rb").read() == before, st, "the saved file changed", replay)
        stop = end or F
        want = list(range(start, start + (stop - start) // every * every, every))
        rec.mon("video-frames", len(snaps) in (len(want), len(range(start, stop, every))), st, "%d frames in the video, requested %s" % (len(snaps), want), replay)
        rec.mon("video-name", os.path.basename(snaps[0]["outfile"]) == name + ".mp4", st, "written to %s" % snaps[0]["outfile"], replay)
        for k, s in enumerate(snaps):
            frame = start + k * every
            stk = dict(st, k=k)
            copies = [np.zeros(3)]
            box = []
            B = loads.lattice(load, frame, dt)
            if B is not None:
                bl, tr = [np.array(x) for x in load["box"]]
                L = np.prod(tr - bl) ** (1 / 3)
                copies = [i * B[0] + j * B[2] for i in (-1, 0, 1) for j in (-1, 0, 1)]
                edge = [abs(np.linalg.norm(T) - 1.4142 * L) < 1e-6 * L for T in copies]
                if any(edge):
                    continue
                copies = [T for T in copies if np.linalg.norm(T) <= 1.4142 * L]
                m = (bl + tr) / 2
                frac = [(-0.5, -0.5), (-0.5, 0.5), (0.5, 0.5), (0.5, -0.5)]
                cs = [m + a * B[0] + b * B[2] for a, b in frac]
                for q in cs:
                    q[1] = 0
                box = [(cs[i], cs[(i + 1) % 4]) for i in range(4)]
            discs, lines, opt = expected(d, pd, frame, copies)
            check_discs(rec, s, discs, stk, replay, "video-particles")
            check_lines(rec, s, lines + box, opt, stk, replay, "video-lines" if B is None else "video-box")
            if (start, end, every) == (0, 0, 1):
                q = re.search(r"frame\s+(\d+)/(\d+)", " ".join(s["titles"]))
                if q:
                    rec.mon("titles", (int(q.group(1)), int(q.group(2))) == (k, F - 1), stk, "title %r at saved frame %d of %d" % (s["titles"], k, F - 1), replay)
            if c["labels"]:
                Fa = d["Fa"][min(frame, len(d["Fa"]) - 1)]
                ns = len(pd[0])
                X = [(d["centres"][frame][i] + T, Fa[i]) for T in copies for i in range(ns)]
                req = [p for p in X if shown(p[0])]
                optn = [p for p in X if not shown(p[0])]
                check_arrows(rec, s, [(x, x + 6 * f) for x, f in req], stk, replay, "video-arrows", [(x, x + 6 * f) for x, f in optn])
            rec.mon("views", (s["elev"], s["azim"]) == tuple(c["view"]), stk, "seen from %s" % ((s["elev"], s["azim"]),), replay)
    shutil.rmtree(w, ignore_errors=True)


def still(rec, rng, c):
    load, dt, pd, d, name = saved_file(rng, dict(c, mixed=False, periodic=False))
    w, sd = sandbox(c, "still")
    path = os.path.join(sd, "output", name + ".npz")
    np.savez_compressed(path, **d)
    before = open(path, "rb").read()
    frame = c["frame"] if c["frame"] >= 0 else c["frames"]
    const = dict(filename=repr(name), frameno=frame, viewing_angle=repr(tuple(c["view"])))
    if c["labels"]:
        const["view_labels"] = "True"
    pic = os.path.join(w, "pictures.jsonl")
    spec = dict(sd=sd, script="plotting/plot_positions.py", argv=[], pictures=pic, constants=const, setups={runs.SETUP: common.jsonable_full([np.asarray(x).tolist() for x in pd])}, inputs={}, settings={})
    res = drive.run(os.path.join(w, "wd"), spec)
    if res["timeout"] or res["rc"] == 71:
        raise RuntimeError("plot script: %s" % res["err"][-500:])
    st = dict({k: v for k, v in c.items() if k != "dir"}, frame=frame)
    replay = dict(st, spec=spec)
    snaps = [json.loads(l) for l in open(pic)] if os.path.exists(pic) else []
    if rec.mon("stills", res["rc"] == 0 and len(snaps) == 1, st, "plot_positions ended with %s and %d pictures: %s" % (res["rc"], len(snaps), (res["err"] or res["out"])[-700:]), replay):
        s = snaps[0]
        rec.mon("data-kept", open(path, "rb").read() == before, st, "the saved file changed", replay)
        discs, lines, opt = expected(d, pd, frame, [np.zeros(3)])
        check_discs(rec, s, discs, st, replay, "still-particles")
        check_lines(rec, s, lines, opt, st, replay, "still-lines")
        q = re.search(r"frame\s+(\d+)/(\d+)", " ".join(s["titles"]))
        if q:
            rec.mon("titles", (int(q.group(1)), int(q.group(2))) == (frame, c["frames"]), st, "title %r at saved frame %d of %d" % (s["titles"], frame, c["frames"]), replay)
        rec.mon("views", (s["elev"], s["azim"]) == tuple(c["view"]), st, "seen from %s" % ((s["elev"], s["azim"]),), replay)
    shutil.rmtree(w, ignore_errors=True)


def dispatch(rec, rng, c):
    globals()[c["kind"]](rec, rng, c)


def body(chk):
    th = common.THOROUGH
    for n, rule, need in (("particles", "discs at the position and size of each particle", 20), ("facing", "discs face the viewer", 40), ("lines", "orientation lines, dumbbell lines and traces join the right points", 20), ("arrows", "arrows start at the sphere and end at the scaled vector", 20),
                          ("labels", "labels stand at the right places", 20), ("removable", "everything drawn is handed back", 40), ("data-kept", "drawing changes no data", 60), ("runs", "runs with pictures on complete", 6), ("frames", "one picture per frame", 6),
                          ("screen-particles", "discs equal the state reached at the displayed frame", 15), ("screen-lines", "markers and traces equal the states", 15), ("screen-arrows", "force arrows equal the saved forces", 15), ("screen-labels", "labels", 15),
                          ("titles", "frame numbers and times shown are right", 20), ("views", "viewing angle and limits as set", 20), ("videos", "the video script completes", 8), ("video-frames", "exactly the requested frames", 8), ("video-name", "named after the file", 8),
                          ("video-particles", "discs equal the saved frame, with the periodic copies", 20), ("video-lines", "lines equal the saved frame, nothing left over", 8), ("video-box", "lines and box outline of the saved frame, nothing left over", 8),
                          ("video-arrows", "force arrows equal the saved forces", 4), ("stills", "the picture script completes", 6), ("still-particles", "discs equal the saved frame", 6), ("still-lines", "orientation markers equal the saved ones", 6)):
        chk.monitor(n, rule, need)
    rng = chk.rng
    views = [(0, -90), (30, -60), (-20, 50), (80, 10)]
    pick = lambda k: views[int(rng.integers(len(views)))] if k else views[0]
    jobs = []
    for i in range(24 if th else 8):
        jobs.append(dict(kind="functions", n=40 if th else 20, id=i))
    kinds = [(2, 0), (0, 2), (2, 1), (1, 2), (3, 1)]
    for i in range(40 if th else 10):
        ns, nd = kinds[i % 5]
        jobs.append(dict(kind="screen", id=i, ns=ns, nd=nd, frames=[3, 1, 4, 5, 2][i % 5] if i != 1 else 3, trace=[0, 1, 2, 1, 3][(i + i // 5) % 5] if ns else 0, labels=i % 3 != 1 and ns > 0, periodic=i % 5 == 2, mixed=i % 4 == 0, flat=i % 2 == 0 and i % 5 != 2))
    ranges = [(0, 0, 1), (0, 0, 1), (1, 4, 1), (0, 0, 2), (2, 0, 1), (1, 5, 2)]
    for i in range(36 if th else 12):
        ns, nd = kinds[(i + i // 5) % 5]
        jobs.append(dict(kind="video", id=i, ns=ns, nd=nd, frames=[4, 5, 6][i % 3] if ranges[i % 6][1] < 5 else 6, range=ranges[i % 6], labels=i % 2 == 0 and ns > 0, periodic=i % 3 == 1, sheared=i % 2 == 1, mixed=i % 4 != 0, flat=i % 4 == 1, view=pick(i % 2), suffix=["", "-gravity-periodic", "-2"][i % 3], dir=chk.scratch))
    for i in range(24 if th else 8):
        ns, nd = kinds[i % 5]
        jobs.append(dict(kind="still", id=i, ns=ns, nd=nd, frames=3, frame=[0, 1, -1, 2][i % 4], labels=i % 3 == 2, periodic=False, sheared=False, mixed=False, flat=i % 2 == 0, view=pick(i % 2), dir=chk.scratch))
    par.run_cases(chk, os.path.abspath(__file__), "dispatch", jobs, workers=8)


if __name__ == "__main__":
    common.main(body, common.Check("P26", rule="a case is one displayed frame (or one call of a drawing function) of one data set; distinct = different data, frame or options"))
