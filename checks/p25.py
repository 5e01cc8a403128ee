"""P25 a saved run can be reloaded as a starting configuration without loss; feeding keeps the particles it should."""
import contextlib
import hashlib
import io
import os
import shutil
import tempfile
import numpy as np
from lib import common, drive, gen, par, runs
from lib import solver as S


@contextlib.contextmanager
def folder():
    wd = tempfile.mkdtemp(prefix="reload-")
    old = os.getcwd()
    os.makedirs(os.path.join(wd, "output"))
    os.chdir(wd)
    try:
        yield wd
    finally:
        os.chdir(old)
        shutil.rmtree(wd, ignore_errors=True)


def digest(wd):
    return {f: hashlib.sha1(open(os.path.join(wd, "output", f), "rb").read()).hexdigest() for f in os.listdir(os.path.join(wd, "output"))}


def shared(name, *a, **kw):
    S.load()
    f = S.helper(name)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **kw)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        raise S.RepoError(e) from e


def saved(rng, ns, nd, frames, name="FILENAME", forces=True):
    d = dict(centres=rng.normal(size=(frames, ns + nd, 3)) * 10, deltax=rng.normal(size=(frames, nd, 3)), sphere_rotations=rng.normal(size=(frames, ns, 2, 3)),
             Fa=rng.normal(size=(frames, ns, 3)), Fb=rng.normal(size=(frames, nd, 3)), DFb=rng.normal(size=(frames, nd, 3)), Sa=rng.normal(size=(frames, ns, 3, 3)), force_on_wall_due_to_dumbbells=np.zeros(frames))
    (np.savez_compressed if rng.random() < 0.5 else np.savez)("output/%s.npz" % name, **d)
    return d


def reload(rec, rng, c):
    ns, nd, fr = c["ns"], c["nd"], c["frames"]
    with folder() as wd:
        name = str(rng.choice(["FILENAME", "2611160101-s4-i1-3fr-t0p1-M1-gravity", "a.b-c"]))
        d = saved(rng, ns, nd, fr, name)
        before = digest(wd)
        for k in sorted(set([0, fr - 1, -1, int(rng.integers(0, fr))])):
            kw = dict(frameno=k)
            a, b = 1, 0.1
            if rng.random() < 0.6:
                a, b = float(rng.choice([0.1, 2.5, 10.0])), float(rng.choice([0.01, 0.3, 1.0]))
                kw.update(sphere_size=a, dumbbell_size=b)
            st = dict(c, frame=k, sizes=[a, b], name=name)
            try:
                got = shared("same_setup_as", name, **kw)
            except S.RepoError as e:
                rec.mon("completes", False, st, "reloading frame %d fails: %s" % (k, e), st)
                continue
            rec.mon("completes", True, st)
            sz, x, rot, dsz, y, dx = (np.asarray(v) for v in got)
            rec.mon("same-positions", x.shape == (ns, 3) and np.array_equal(x, d["centres"][k][:ns]), st, "sphere positions of frame %d are not those saved" % k, st)
            rec.mon("same-dumbbells", y.shape == (nd, 3) and dx.shape == (nd, 3) and np.array_equal(y, d["centres"][k][ns:]) and np.array_equal(dx, d["deltax"][k]), st, "dumbbells of frame %d are not those saved" % k, st)
            rec.mon("sizes-as-asked", sz.shape == (ns,) and dsz.shape == (nd,) and bool(np.all(sz == a) and np.all(dsz == b)), st, "sizes %s %s instead of %s %s" % (sz.tolist(), dsz.tolist(), a, b), st)
            m = rot - x[:, None] if ns else np.zeros((0, 2, 3))
            ok = rot.shape == (ns, 2, 3) and bool(np.allclose(np.linalg.norm(m, axis=2), a, rtol=1e-9)) and bool(np.allclose(np.sum(m[:, 0] * m[:, 1], axis=1), 0, atol=1e-9 * a * a))
            rec.mon("markers-attached", ok, st, "markers of the reloaded spheres are not on their surface", st)
        rec.mon("file-kept", digest(wd) == before, c, "reloading changed the saved file", c)


def program(rec, rng, c):
    """A run saved by the program, reloaded by setup 8 of the program."""
    ns, nd = c["ns"], c["nd"]
    a = runs.random_run(rng, ns, nd, "euler", form=c["form"], frames=4)
    st, rp = dict(c, **a.describe()), a.replay()
    b = runs.Run(None, load=a.load, setup=8, form=c["form"], dt=a.dt, frames=4, settings=a.settings)
    try:
        a.go()
        if a.failure() is not None:
            raise RuntimeError("first run failed: %s" % a.failure())
        da = a.data()
        os.makedirs(os.path.join(b.wd, "output"), exist_ok=True)
        shutil.copy(os.path.join(a.wd, "output", a.files()[0]), os.path.join(b.wd, "output", "FILENAME.npz"))
        before = runs.snapshot(b.wd)
        b.go()
        if not rec.mon("completes", b.failure() is None, st, "setup 8 fails: %s" % b.failure(), rp):
            return
        after = runs.snapshot(b.wd)
        rec.mon("file-kept", all(after.get(k) == v for k, v in before.items()), st, "the run started from the saved file changed it", rp)
        new = [f for f in b.files() if f != "FILENAME.npz"]
        if not rec.mon("new-file", len(new) == 1, st, "files after the second run: %s" % b.files(), rp):
            return
        db = b.data(new[0])
        rec.mon("starts-there", np.array_equal(db["centres"][0], da["centres"][0]) and np.array_equal(db["deltax"][0], da["deltax"][0]), st, "the second run does not start at the saved frame", rp)
        for q in ("centres", "deltax", "Fa", "Sa", "Fb", "DFb"):
            if np.size(da[q]):
                e = np.max(np.abs(db[q] - da[q])) / (np.max(np.abs(da[q])) + 1e-9) if db[q].shape == da[q].shape else np.inf
                rec.mon("same-run", bool(e <= 1e-9), dict(st, q=q), "the same run started from its own saved first frame differs in %s by %.3g" % (q, e), rp, err=e)
    finally:
        a.clean()
        b.clean()


def feed(rec, rng, c):
    nd, size = c["nd"], c.get("size", 0.1)
    ref = c.get("ref", 0)
    ns = ref + 1 + int(rng.integers(0, 2))
    H, W = c.get("H", 6.0), c.get("W", 1.2)
    sph = [(1.0, [20.0 + 5 * i, 0, float(rng.uniform(-1, 1))]) for i in range(ns)]
    sph[ref] = (1.0, [0.0, 0.0, float(rng.normal())])
    z0 = sph[ref][1][2]
    up, down = c["up"] * H, c["down"] * H

    def block(n, lo, hi):
        out = []
        while len(out) < n:
            x = np.array([rng.uniform(1.5, 1.5 + W), rng.uniform(-W, W), rng.uniform(lo, hi)])
            if all(np.linalg.norm(x - y) > 2 * size for y in out):
                out.append(x)
        return np.array(out)
    beads = block(2 * nd, z0 - down, z0 + up)
    pd = list(S.posdata(sph, [(size, (beads[2 * i] + beads[2 * i + 1]) / 2, beads[2 * i + 1] - beads[2 * i]) for i in range(nd)]))
    nf = c.get("file", nd)
    fb = block(2 * nf, 0, c.get("fh", H))
    every, frame = c["every"], c["frame"]
    st, rp = dict(c, z0=z0), dict(c, posdata=[np.asarray(p).tolist() for p in pd], file=fb.tolist())
    with folder() as wd:
        y, dx = (fb[0::2] + fb[1::2]) / 2, fb[1::2] - fb[0::2]
        np.savez("output/feed.npz", centres=np.concatenate([[[0., 0, 0]], y])[None], deltax=dx[None])
        before = digest(wd)
        old = [np.array(p, copy=True) for p in pd]
        try:
            got = shared("feed_particles_from_bottom", tuple(pd), every, "feed", frame, **({"reference_particle": ref} if ref else {}))
        except S.RepoError as e:
            rec.mon("completes", False, st, "feeding fails: %s" % e, rp)
            return
        rec.mon("completes", True, st)
        rec.mon("file-kept", digest(wd) == before, st, "feeding changed the saved file", rp)
    sz, x, rot, dsz, y, d = (np.asarray(v, float) for v in got)
    rec.mon("arguments-kept", all(np.array_equal(a, b) for a, b in zip(old, pd)), st, "feeding changed the arrays passed in", rp)
    rec.mon("spheres-kept", np.array_equal(sz, old[0]) and np.array_equal(x, old[1]) and np.array_equal(rot, old[2]), st, "feeding changed the spheres", rp)
    if not rec.mon("count-kept", y.shape == (nd, 3) and d.shape == (nd, 3) and dsz.shape == (nd,) and bool(np.all(dsz == size)), st, "%d dumbbells became arrays of shape %s %s, sizes %s" % (nd, y.shape, d.shape, dsz[:3].tolist()), rp):
        return
    if every == 0 or frame == 0 or frame % every:
        rec.mon("only-on-schedule", np.array_equal(y, old[4]) and np.array_equal(d, old[5]), st, "frame %d with feeding every %d changed the dumbbells" % (frame, every), rp)
        return
    new = np.concatenate([y - d / 2, y + d / 2])

    def where(b, pool):
        return np.flatnonzero(np.linalg.norm(pool - b, axis=1) < 1e-9)
    top, bottom = beads[:, 2].max() - z0, z0 - beads[:, 2].min()
    cut = z0 + (top + bottom) / 2
    below = beads[beads[:, 2] <= cut - 1e-9]
    gone = [b.tolist() for b in below if len(where(b, new)) != 1]
    rec.mon("kept-below-cut", not gone, st, "beads %s below the cut at z=%.4g are not kept exactly once" % (gone[:3], cut), rp)
    fresh = np.array([b for b in new if len(where(b, beads)) == 0]).reshape(-1, 3)
    if np.sum(beads[:, 2] > cut + 1e-9) == 0:
        rec.mon("nothing-to-replace", len(fresh) == 0, st, "%d beads were added although none is above the cut" % len(fresh), rp)
        return
    # where the added beads came from: the saved block moved vertically, its part lowest in the block, ending at the bottom bead
    ok, shift = True, None
    for b in fresh:
        m = np.flatnonzero(np.linalg.norm(fb[:, :2] - b[:2], axis=1) < 1e-9)
        ok = ok and len(m) == 1
        if len(m) == 1:
            s = b[2] - fb[m[0], 2]
            shift = s if shift is None else shift
            ok = ok and abs(s - shift) < 1e-9
    rec.mon("added-from-file", bool(ok), st, "added beads are not the saved block moved vertically", rp)
    rec.mon("added-beneath", bool(np.all(fresh[:, 2] <= beads[:, 2].min() + 1e-9)), st, "an added bead is above the lowest bead before feeding", rp)
    if len(fresh):
        dist = np.linalg.norm(fresh[:, None] - below[None], axis=2).min() if len(below) else np.inf
        rec.mon("added-clear", bool(dist > 2 * size * (1 - 1e-9)), st, "an added bead is %.4g from a kept bead of radius %s" % (dist, size), rp)
        if len(fresh) > 1:
            D = np.linalg.norm(fresh[:, None] - fresh[None], axis=2) + 1e9 * np.eye(len(fresh))
            rec.mon("added-clear", bool(D.min() > 2 * size * (1 - 1e-9)), dict(st, what="added"), "two added beads are %.4g apart" % D.min(), rp)
    # as many as possible of the beads above the cut are replaced
    ndel = int(np.sum(beads[:, 2] > cut))
    order = fb[np.argsort(fb[:, 2])][:ndel].copy()
    order[:, 2] += beads[:, 2].min() - order[:, 2].max()
    room = [b for b in order if not len(below) or np.linalg.norm(below - b, axis=1).min() > 2 * size]
    rec.mon("replaced", abs(len(fresh) - len(room)) == 0, st, "%d beads were added, %d of the %d to replace have room" % (len(fresh), len(room), ndel), rp)


def body(chk):
    for name, rule, need in (("completes", "reloading and feeding return", 60), ("same-positions", "reloaded sphere positions are bit for bit those saved", 40),
                             ("same-dumbbells", "reloaded dumbbells are bit for bit those saved", 40), ("sizes-as-asked", "sizes requested", 40), ("markers-attached", "markers on the sphere surface", 40),
                             ("file-kept", "content hash of every saved file before and after", 30), ("new-file", "the second run has its own file", 3), ("starts-there", "the second run starts at the saved frame", 3),
                             ("same-run", "a run restarted from its own saved first frame repeats itself", 6), ("arguments-kept", "feeding leaves its arguments alone", 20), ("spheres-kept", "feeding leaves spheres alone", 20),
                             ("count-kept", "feeding keeps the number of dumbbells and their size", 20), ("only-on-schedule", "nothing is fed off schedule", 5), ("kept-below-cut", "every bead below the cut is kept exactly once", 15),
                             ("nothing-to-replace", "nothing is added when nothing is removed", 1), ("added-from-file", "added beads are the saved block moved vertically", 15), ("added-beneath", "added beads are below the others", 15),
                             ("added-clear", "added beads overlap no kept bead", 15), ("replaced", "every removed bead is replaced when there is room", 15)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    N = 40 if th else 2
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "reload", [dict(ns=a, nd=b, frames=f, rep=r) for r in range(N) for a, b in ((1, 0), (0, 1), (2, 3), (5, 2), (7, 0), (0, 6)) for f in (1, 4, 13)], loader={})
    fc = []
    for r in range(3 * N):
        for nd in (4, 10, 25):
            fc.append(dict(nd=nd, up=1.0, down=[0.1, 0.4, 0.0][r % 3], every=[1, 3, 5][r % 3], frame=15, rep=r, W=[1.2, 0.6, 2.0][r % 3]))
        fc += [dict(nd=6, up=1.0, down=0.2, every=e, frame=f, rep=r) for e, f in ((5, 5), (1, 1), (2, 1000))]
        fc.append(dict(nd=6, up=1.0, down=-0.6, every=2, frame=4, rep=r))
        fc.append(dict(nd=6, up=0.2, down=1.0, every=2, frame=4, rep=r))
        fc.append(dict(nd=8, up=1.0, down=0.2, every=2, frame=4, file=2, rep=r))
        fc.append(dict(nd=8, up=1.0, down=0.2, every=2, frame=4, file=30, fh=8.0, rep=r, ref=r % 2))
        fc.append(dict(nd=16, up=1.0, down=0.1, every=2, frame=4, file=40, fh=1.5, H=3.0, W=1.0, size=[0.1, 0.15][r % 2], rep=r))
        fc += [dict(nd=5, up=1.0, down=0.2, every=e, frame=f, rep=r) for e, f in ((0, 4), (3, 4), (3, 0), (4, 2))]
    par.run_cases(chk, me, "feed", fc, loader={}, salt=1)
    par.run_cases(chk, me, "program", [dict(ns=a, nd=b, form=f, rep=r) for r in range(6 if th else 1) for a, b, f in ((2, 1, "fte"), (3, 0, "fte"), (0, 2, "fts"), (2, 2, "ufte"))], loader={}, salt=2)


if __name__ == "__main__":
    common.main(body, common.Check("P25", rule="a state is one reload, feeding step or run"))
