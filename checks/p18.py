"""P18 generated starting configurations are valid."""
import contextlib
import io
import os
import numpy as np
from lib import common, gen, par
from lib import solver as S

SLACK = 1e-9


class Endless(BaseException):
    pass


@contextlib.contextmanager
def quiet(limit):
    """Swallow printing and stop a generator that draws far more random numbers than any valid case needs."""
    n = [0]
    old = {}

    def counted(f):
        def g(*a, **kw):
            n[0] += 1
            if n[0] > limit:
                raise Endless()
            return f(*a, **kw)
        return g
    for name in ("rand", "random", "uniform", "random_sample"):
        old[name] = getattr(np.random, name)
        setattr(np.random, name, counted(old[name]))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for name, f in old.items():
            setattr(np.random, name, f)


def call(rec, st, rp, name, *a, limit=400000, **kw):
    S.load()
    f = S.helper(name, "setups.functions_positions")
    try:
        with quiet(limit):
            r = f(*a, **kw)
    except KeyboardInterrupt:
        raise
    except Endless:
        rec.mon("completes", False, st, "%s keeps rejecting positions in a box with plenty of room" % name, rp)
        return None
    except BaseException as e:
        rec.mon("completes", False, st, "%s fails: %s: %s" % (name, type(e).__name__, e), rp)
        return None
    rec.mon("completes", True, st)
    return r


def inside(x, lo, hi):
    return bool(np.all(x >= np.asarray(lo) - SLACK) and np.all(x <= np.asarray(hi) + SLACK))


def nearest(x, y, period):
    d = x - y
    if period is not None:
        for k in range(3):
            if period[k]:
                d[k] -= period[k] * np.round(d[k] / period[k])
    return np.linalg.norm(d)


def worst_overlap(X, R, Y, Q, group=None, period=None):
    """Largest relative penetration between X and Y (or within X when Y is None), pairs of one group left out."""
    worst, who = -np.inf, None
    for i in range(len(X)):
        for j in range(len(Y) if Y is not None else i):
            if Y is None and group is not None and group[i] == group[j]:
                continue
            r = R[i] + (R[j] if Y is None else Q[j])
            p = 1 - nearest(X[i].copy(), (X if Y is None else Y)[j], period) / r
            if p > worst:
                worst, who = p, (i, j)
    return worst, who


def present(rng, lo, hi, n, sizes):
    """Spheres already there: not overlapping, in and around the box."""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    out, sz = [], []
    for _ in range(10000):
        if len(out) == n:
            break
        a = float(rng.choice(sizes))
        x = lo + rng.random(3) * (hi - lo)
        if all(np.linalg.norm(x - y) > a + b for y, b in zip(out, sz)):
            out.append(x)
            sz.append(a)
    return np.array(sz), np.array(out).reshape(-1, 3)


def spheres(rec, rng, c):
    n = c["n"]
    sz = rng.choice(c["sizes"], n)
    vol = np.sum((np.pi * sz ** 2) if c["flat"] else (4 / 3 * np.pi * sz ** 3)) + 20 * (c["there"] > 0)
    L = (vol / c["fill"]) ** (1 / (2 if c["flat"] else 3))
    dims = L * np.exp(rng.normal(size=3) * 0.1)
    lo = rng.normal(size=3) * 10
    hi = lo + dims
    if c["flat"]:
        lo[1] = hi[1] = c.get("level", 0.0)
    cs, cx = present(rng, lo, hi, c["there"], (1.0, 0.5))
    np.random.seed(int(rng.integers(1 << 31)))
    st, rp = dict(c, box=[lo, hi], present=len(cs)), dict(c, lo=lo.tolist(), hi=hi.tolist(), sizes=sz.tolist(), current=[cs.tolist(), cx.tolist()])
    asl = c.get("aslist", False)
    keep = (cs.copy(), cx.copy(), sz.copy())
    r = call(rec, st, rp, "randomise_spheres", lo.tolist() if asl else lo, hi.tolist() if asl else hi, sz, cs, cx)
    if r is None:
        return
    x = np.asarray(r, float)
    if not rec.mon("count", x.shape == (n, 3), st, "asked for %d spheres, got an array of shape %s" % (n, x.shape), rp):
        return
    rec.mon("arguments-kept", all(np.array_equal(a, b) for a, b in zip(keep, (cs, cx, sz))), st, "the sizes or positions passed in were changed", rp)
    rec.mon("inside", inside(x, lo, hi), st, "sphere centres from %s to %s lie outside the box %s to %s" % (x.min(0), x.max(0), lo, hi), rp)
    if n > 1:
        p, who = worst_overlap(x, sz, None, None)
        rec.mon("no-overlap", bool(p <= SLACK), st, "spheres %s overlap by %.3g of their distance" % (who, p), rp, err=max(p, 0))
    if len(cs):
        p, who = worst_overlap(x, sz, cx, cs)
        rec.mon("clear-of-present", bool(p <= SLACK), st, "new sphere and sphere already there %s overlap by %.3g" % (who, p), rp, err=max(p, 0))


def narrow(rec, rng, c):
    """Two spheres on a segment long enough for both, where one placed near the middle leaves no room for the other."""
    L, a = c["length"], c["size"]
    lo = np.array([rng.normal() * 5, 0.0, rng.normal() * 5])
    hi = lo.copy()
    hi[c["axis"]] += L * a
    np.random.seed(int(rng.integers(1 << 31)))
    st, rp = dict(c, lo=lo), dict(c, lo=lo.tolist(), hi=hi.tolist())
    r = call(rec, st, rp, "randomise_spheres", lo, hi, np.full(2, a), np.array([]), np.empty([0, 3]), limit=1500000)
    if r is None:
        return
    x = np.asarray(r, float)
    if rec.mon("count", x.shape == (2, 3), st, "asked for 2 spheres, got an array of shape %s" % (x.shape,), rp):
        rec.mon("inside", inside(x, lo, hi), st, "sphere centres %s lie outside the segment %s to %s" % (x.tolist(), lo, hi), rp)
        p, who = worst_overlap(x, np.full(2, a), None, None)
        rec.mon("no-overlap", bool(p <= SLACK), st, "the spheres overlap by %.3g of their distance" % p, rp, err=max(p, 0))


def check_dumbbells(rec, c, st, rp, r, n, sz, lo, hi, cs, cx, period=None):
    pos, dx = (np.asarray(v, float) for v in r)
    if not rec.mon("count", pos.shape == (n, 3) and dx.shape == (n, 3), st, "asked for %d dumbbells, got arrays of shape %s and %s" % (n, pos.shape, dx.shape), rp):
        return
    b1, b2 = pos - dx / 2, pos + dx / 2
    beads = np.stack([b1, b2], 1).reshape(-1, 3)
    if period is None:
        rec.mon("inside", inside(beads, lo, hi), st, "beads from %s to %s lie outside the box %s to %s" % (beads.min(0), beads.max(0), lo, hi), rp)
    else:
        ok = all(np.all(pos[:, k] >= lo[k] - SLACK) and np.all(pos[:, k] <= hi[k] + SLACK) for k in (0, 2))
        ok = ok and all(any(lo[1] - SLACK <= b[i, 1] <= hi[1] + SLACK for b in (b1, b2)) for i in range(n))
        rec.mon("inside", bool(ok), st, "dumbbells from %s to %s lie outside the periodic box %s to %s" % (pos.min(0), pos.max(0), lo, hi), rp)
    if "dx" in c:
        ln = np.linalg.norm(dx, axis=1)
        e = np.max(np.abs(ln - c["dx"])) / c["dx"]
        rec.mon("length", bool(e <= 1e-9), st, "dumbbell lengths %s differ from %s" % (ln.tolist(), c["dx"]), rp, err=e)
        u = dx / ln[:, None]
        if c.get("theta") is not None:
            e = np.max(np.abs(u[:, 2] - np.cos(c["theta"])))
            rec.mon("orientation", bool(e <= 1e-9), st, "dumbbells are not at angle %s to z" % c["theta"], rp, err=e)
        if c.get("phi") is not None:
            e = np.max(np.abs(u[:, 0] * np.sin(c["phi"]) - u[:, 1] * np.cos(c["phi"])))
            rec.mon("orientation", bool(e <= 1e-9), st, "dumbbells are not in the plane at angle %s" % c["phi"], rp, err=e)
        if c.get("theta") is not None and c.get("phi") is not None:
            w = np.array([np.sin(c["theta"]) * np.cos(c["phi"]), np.sin(c["theta"]) * np.sin(c["phi"]), np.cos(c["theta"])])
            e = np.max(np.abs(u - w))
            rec.mon("orientation", bool(e <= 1e-9), st, "dumbbells do not point along %s" % w, rp, err=e)
    bs = np.repeat(sz, 2)
    p, who = worst_overlap(beads, bs, None, None, group=np.repeat(np.arange(n), 2), period=period)
    if who is not None:
        rec.mon("no-overlap", bool(p <= SLACK), st, "beads %s of different dumbbells overlap by %.3g" % (who, p), rp, err=max(p, 0))
    if len(cs):
        p, who = worst_overlap(beads, bs, cx, cs, period=period)
        rec.mon("clear-of-present", bool(p <= SLACK), st, "bead and sphere already there %s overlap by %.3g" % (who, p), rp, err=max(p, 0))


def dumbbells(rec, rng, c):
    n = c["n"]
    sz = rng.choice(c["sizes"], n)
    vol = 2 * np.sum((np.pi * sz ** 2) if c["flat"] else (4 / 3 * np.pi * sz ** 3)) + 3 * c["there"]
    L = max((vol / c["fill"]) ** (1 / (2 if c["flat"] else 3)), 1.6 * c["dx"])
    if c.get("periodic"):
        L = max(L, 3 * c["dx"])
    dims = L * rng.uniform(1, 1.3, 3)
    if c.get("thin"):
        dims[1] = 0.5 * c["dx"]
    lo = rng.normal(size=3) * 10
    hi = lo + dims
    if c["flat"]:
        lo[1] = hi[1] = 0.0
    cs, cx = present(rng, lo, hi, c["there"], (1.0, 0.5))
    np.random.seed(int(rng.integers(1 << 31)))
    kw = {k: c[k] for k in ("theta", "phi") if c.get(k) is not None}
    if len(cs):
        kw.update(current_sphere_sizes=cs, current_sphere_positions=cx)
    st, rp = dict(c, box=[lo, hi], present=len(cs)), dict(c, lo=lo.tolist(), hi=hi.tolist(), sizes=sz.tolist(), current=[cs.tolist(), cx.tolist()])
    r = call(rec, st, rp, "randomise_dumbbells_periodic" if c.get("periodic") else "randomise_dumbbells", lo, hi, sz, dx=c["dx"], **kw)
    if r is not None:
        check_dumbbells(rec, c, st, rp, r, n, sz, lo, hi, cs, cx, period=[dims[0], 0, dims[2]] if c.get("periodic") else None)


def quadrilateral(rec, rng, c):
    th = np.sort(rng.uniform(0, 2 * np.pi, 4) * 0.2 + np.arange(4) * np.pi / 2)
    quad = rng.normal(size=2) * 5 + np.stack([np.cos(th), np.sin(th)], 1) * rng.uniform(5, 8, 2)
    n = c["n"]
    sz = rng.choice(c["sizes"], n)
    # the generator is for low densities
    area = 0.5 * abs(np.sum(quad[:, 0] * np.roll(quad[:, 1], -1) - quad[:, 1] * np.roll(quad[:, 0], -1)))
    quad = quad * max(1.0, np.sqrt(np.pi * (2 * np.sum(sz ** 2) + c["there"]) / area / 0.25))
    lo, hi = np.array([quad[:, 0].min(), 0, quad[:, 1].min()]), np.array([quad[:, 0].max(), 0, quad[:, 1].max()])
    cs, cx = present(rng, lo, hi, c["there"], (1.0,))
    np.random.seed(int(rng.integers(1 << 31)))
    st, rp = dict(c, quad=quad), dict(c, quad=quad.tolist(), sizes=sz.tolist(), current=cx.tolist())
    r = call(rec, st, rp, "randomise_beads_inside_quadrilateral", quad, sz, cx, 1.0)
    if r is None:
        return
    check_dumbbells(rec, {}, st, rp, r, n, sz, lo, hi, cs, cx)
    pos, dx = (np.asarray(v, float) for v in r)
    beads = np.concatenate([pos - dx / 2, pos + dx / 2])[:, [0, 2]]
    e = np.roll(quad, -1, 0) - quad
    cr = np.array([[e[k, 0] * (b[1] - quad[k, 1]) - e[k, 1] * (b[0] - quad[k, 0]) for k in range(4)] for b in beads])
    rec.mon("inside", bool(np.all(cr >= -1e-9)), st, "a bead lies outside the quadrilateral", rp)


def polygon(rec, rng, c):
    m = c["m"]
    th = np.arange(m) * 2 * np.pi / m + rng.uniform(0, 1)
    poly = rng.normal(size=2) * 5 + np.stack([np.cos(th), np.sin(th)], 1) @ rng.normal(size=(2, 2)) * 4
    if c["sense"]:
        poly = poly[::-1]
    if c.get("square"):
        a, b = rng.uniform(1, 5, 2)
        poly = np.array([[0, 0], [a, 0], [a, b], [0, b]]) + rng.normal(size=2) * 3
    S.load()
    f = S.helper("point_inside_polygon", "setups.functions_positions")
    e = np.roll(poly, -1, 0) - poly
    for k in range(40):
        p = poly.mean(0) + rng.normal(size=2) * np.ptp(poly, axis=0) * 0.45
        cr = e[:, 0] * (p[1] - poly[:, 1]) - e[:, 1] * (p[0] - poly[:, 0])
        if np.min(np.abs(cr)) < 1e-6:
            continue
        want = bool(np.all(cr > 0) or np.all(cr < 0))
        rec.mon("in-polygon", bool(f(p[0], p[1], poly)) == want, dict(c, k=k), "point %s is %s the polygon %s" % (p, "inside" if want else "outside", poly.tolist()), dict(p=p.tolist(), poly=poly.tolist()))


def cubic(rec, rng, c):
    s = c["side"]
    r = call(rec, c, c, "simple_cubic_8", s)
    if r is None:
        return
    x, lo, hi = (np.asarray(v, float) for v in r)
    if not rec.mon("count", x.shape == (8, 3), c, "simple cubic array has shape %s" % (x.shape,), c):
        return
    rec.mon("cubic-box", bool(np.allclose(hi - lo, s, rtol=1e-12)), c, "box from %s to %s for side %s" % (lo, hi, s), c)
    rec.mon("inside", inside(x, lo, hi), c, "spheres %s outside the box" % x.tolist(), c)
    # all eight equivalent: six nearest images at half the side
    shifts = np.array([[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]) * s
    for i in range(8):
        d = np.sort(np.linalg.norm((x[None] + shifts[:, None] - x[i]).reshape(-1, 3), axis=1))
        rec.mon("cubic-lattice", bool(np.allclose(d[:7], [0] + [s / 2] * 6, atol=1e-9 * s) and d[7] > s / 2 * 1.2), dict(c, i=i), "sphere %d has neighbours at %s, expected six at %s" % (i, d[:8].tolist(), s / 2), c)


WALL = [2.00001 * (i - 22) for i in range(45)]
STATED = {1: dict(ns=15, x=[[4 * i, 0, 0] for i in range(15)]), 2: dict(ns=3, x=[[-5, 0, 0], [0, 0, 0], [7, 0, 0]]),
          3: dict(ns=8, box=8.0), 4: dict(ns=2, nd=2, x=[[0, 0, 0], [4.5, 0, 4.5]], y=[[4.5, 0, 0], [0, 0, 4.5]], dx=2.0),
          5: dict(ns=41, lo=[-7.1, 0, -7.1], hi=[7.1, 0, 7.1]),
          6: dict(ns=90, nd=200, dx=2.0, x=[[w, 0, 0] for w in WALL] + [[w, 0, 11] for w in WALL], lo_b=[-17, 0, 1.2], hi_b=[17, 0, 9.8], flat=True),
          7: dict(ns=99, x=[[w, 0, -5] for w in WALL] + [[w, 0, 5] for w in WALL] + [[i, 0, j] for i in (-4, 0, 4) for j in (-2.5, 0, 2.5)]),
          -1: dict(sizes=[1, 1], s=2.1), -2: dict(sizes=[1, 1], s=3.9), -3: dict(sizes=[1, .1], s=2.1), -4: dict(sizes=[1, .1], s=3.9),
          -5: dict(sizes=[.1, 1], s=2.1), -6: dict(sizes=[.1, 1], s=3.9), -7: dict(sizes=[.1, .1], s=2.1), -8: dict(sizes=[.1, .1], s=3.9)}


def provided(rec, rng, c):
    n = c["n"]
    w = STATED[n]
    S.load()
    with contextlib.redirect_stdout(io.StringIO()):
        f = S.helper("pos_setup")
    np.random.seed(int(rng.integers(1 << 31)))
    try:
        with quiet(2000000):
            pd, desc = f(n)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        rec.mon("completes", False, c, "setup %d fails: %s: %s" % (n, type(e).__name__, e), c)
        return
    rec.mon("completes", True, c)
    sz, x, rot, dsz, y, d = (np.asarray(v, float) for v in pd)
    want = np.array(w.get("sizes", [1.0] * w.get("ns", 0)))
    wd = np.full(w.get("nd", 0), 0.1)
    ok = np.array_equal(sz, want) and x.shape == (len(want), 3) and np.array_equal(dsz, wd) and y.shape == d.shape == (len(wd), 3) and rot.shape == (len(want), 2, 3)
    if not rec.mon("stated-particles", bool(ok), c, "setup %d: sizes %s and %s, positions %s %s, markers %s" % (n, sz.tolist()[:5], dsz.tolist()[:5], x.shape, y.shape, rot.shape), c):
        return
    e = np.max(np.abs(rot - x[:, None] - sz[:, None, None] * np.array([[1., 0, 0], [0, 0, 1]])))
    rec.mon("markers", bool(e <= 1e-9), c, "setup %d: markers are %.3g away from the sphere surface points" % (n, e), c, err=e)
    for key, a in (("x", x), ("y", y)):
        if key in w:
            e = np.max(np.abs(a - np.array(w[key], float)))
            rec.mon("stated-positions", bool(e <= 1e-9), dict(c, what=key), "setup %d: positions differ by %.3g from the stated ones" % (n, e), c, err=e)
    if "s" in w:
        s = np.linalg.norm(x[1] - x[0]) * 2 / sz.sum()
        rec.mon("stated-positions", bool(abs(s - w["s"]) <= 1e-9), c, "setup %d: separation %s instead of %s" % (n, s, w["s"]), c)
    if "lo" in w:
        rec.mon("inside", inside(x, w["lo"], w["hi"]), c, "setup %d: centres from %s to %s" % (n, x.min(0), x.max(0)), c)
    if "box" in w:
        b = w["box"]
        shifts = np.array([[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]) * b
        dd = np.sort(np.linalg.norm((x[None] + shifts[:, None] - x[0]).reshape(-1, 3), axis=1))
        rec.mon("stated-positions", inside(x, [-b / 2] * 3, [b / 2] * 3) and bool(np.allclose(dd[1:7], b / 2)), c, "setup %d is not a simple cubic array of spacing %s" % (n, b / 2), c)
    if len(wd):
        beads = np.stack([y - d / 2, y + d / 2], 1).reshape(-1, 3)
        e = np.max(np.abs(np.linalg.norm(d, axis=1) - w["dx"]))
        rec.mon("length", bool(e <= 1e-9), c, "setup %d: dumbbell lengths differ by %.3g from %s" % (n, e, w["dx"]), c, err=e)
        if "lo_b" in w:
            rec.mon("inside", inside(beads, w["lo_b"], w["hi_b"]), c, "setup %d: beads from %s to %s" % (n, beads.min(0), beads.max(0)), c)
            rec.mon("orientation", bool(np.max(np.abs(d[:, 1])) <= 1e-9), c, "setup %d: dumbbells leave the plane" % n, c)
        D = np.linalg.norm(beads[:, None] - beads[None], axis=2) + 1e9 * np.kron(np.eye(len(wd)), np.ones((2, 2)))
        rec.mon("no-overlap", bool(D.min() >= 0.2 - 1e-9), c, "setup %d: beads of different dumbbells %.6g apart" % (n, D.min()), c)
        D = np.linalg.norm(beads[:, None] - x[None], axis=2)
        rec.mon("clear-of-present", bool(D.min() >= 1.1 - 1e-9), c, "setup %d: a bead is %.6g from a sphere centre" % (n, D.min()), c)
    if len(x) > 1:
        D = np.linalg.norm(x[:, None] - x[None], axis=2) / (sz[:, None] + sz[None]) + np.eye(len(x)) * 1e9
        rec.mon("no-overlap", bool(D.min() >= 1 - 1e-9), c, "setup %d: spheres at %.6g of their contact distance" % (n, D.min()), c)


def markers(rec, rng, c):
    S.load()
    f = S.helper("add_sphere_rotations_to_positions")
    n = c["n"]
    x, sz = rng.normal(size=(n, 3)) * 10, rng.choice([0.1, 1.0, 2.5], n)
    v = np.stack([gen.unit(rng), gen.unit(rng)])
    got = np.asarray(f(x, sz, v), float)
    want = x[:, None] + sz[:, None, None] * v
    e = np.max(np.abs(got - want)) if got.shape == want.shape else np.inf
    rec.mon("markers", bool(e <= 1e-12 * 30), c, "markers are off by %.3g" % e, dict(x=x.tolist(), sizes=sz.tolist(), v=v.tolist()), err=e)


def body(chk):
    for name, rule, need in (("completes", "every generator call and provided setup returns", 60), ("count", "number of particles asked for", 40),
                             ("inside", "every centre and bead in the requested region", 40), ("no-overlap", "no two generated particles overlap, periodic images included", 40),
                             ("clear-of-present", "no generated particle overlaps one already there", 20), ("length", "dumbbells have the requested length", 20),
                             ("orientation", "fixed angles are respected", 10), ("arguments-kept", "arrays passed in are not changed", 10),
                             ("in-polygon", "point-in-polygon agrees with half-plane tests", 100), ("cubic-box", "box of the cubic array", 3), ("cubic-lattice", "six nearest neighbours at half the side", 24),
                             ("stated-particles", "counts and sizes of the provided setups", 15), ("stated-positions", "positions of the provided setups", 10), ("markers", "markers sit on the sphere along the two directions", 20)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    N = 25 if th else 2
    me = os.path.abspath(__file__)
    sc, dc = [], []
    for r in range(N):
        for flat in (False, True):
            for sizes in ((1.0,), (1.0, 0.3), (0.2, 2.0)):
                for there in (0, 4):
                    sc.append(dict(n=int([12, 25][r % 2]), flat=flat, sizes=sizes, there=there, fill=0.35 if flat else 0.22, rep=r, aslist=bool(r % 2)))
        sc += [dict(n=1, flat=False, sizes=(1.0,), there=t, fill=0.05, rep=r) for t in (0, 3)] + [dict(n=2, flat=True, sizes=(1.0,), there=0, fill=0.3, rep=r, level=2.5)]
        for flat in (False, True):
            for ang in (dict(), dict(phi=0), dict(theta=0.7), dict(theta=1.1, phi=0.4)):
                if flat:
                    ang = {k: (0 if k == "phi" else v) for k, v in ang.items()}
                    ang.setdefault("phi", 0)
                for sizes, there in (((0.3,), 0), ((0.1, 0.4), 3)):
                    for per in (False, True):
                        dc.append(dict(n=int([6, 12][r % 2]), flat=flat, sizes=sizes, there=there, dx=float(chk.rng.choice([1.0, 2.0, 1.3])), fill=0.25 if flat else 0.12, periodic=per, rep=r, **ang))
        dc += [dict(n=10, flat=False, thin=True, sizes=(0.1,), there=0, dx=d, fill=0.02, periodic=True, rep=r) for d in (1.0, 2.0, 0.7)]
        dc += [dict(n=12, flat=True, sizes=(0.05,), there=0, dx=0.5, fill=0.2, periodic=True, phi=0, rep=r), dict(n=1, flat=False, sizes=(0.1,), there=1, dx=1.0, fill=0.05, rep=r)]
    par.run_cases(chk, me, "spheres", sc, loader={})
    par.run_cases(chk, me, "narrow", [dict(length=float(chk.rng.uniform(2.6, 3.2)), size=s, axis=k, rep=r) for r in range(2 * N) for s, k in ((1.0, 0), (0.4, 2), (2.0, 0))], loader={}, salt=7)
    par.run_cases(chk, me, "dumbbells", dc, loader={}, salt=1)
    par.run_cases(chk, me, "quadrilateral", [dict(n=n, sizes=s, there=t, rep=r) for r in range(N) for n, s, t in ((8, (0.3,), 3), (8, (0.1, 0.8), 0), (10, (0.1, 0.6), 4), (1, (0.1,), 0))], loader={}, salt=2)
    par.run_cases(chk, me, "polygon", [dict(m=m, sense=s, rep=r) for r in range(N) for m in (3, 4, 5, 8) for s in (0, 1)] + [dict(m=4, sense=0, square=True)], loader={}, salt=3)
    par.run_cases(chk, me, "cubic", [dict(side=s) for s in (8, 5.0, 12.5, 4)], loader={}, salt=4)
    par.run_cases(chk, me, "provided", [dict(n=n, rep=r) for n in STATED for r in range((6 if th else 2) if n in (5, 6) else 1)], loader={}, salt=5)
    par.run_cases(chk, me, "markers", [dict(n=n, rep=r) for n in (1, 2, 5) for r in range(4 * N)], loader={}, salt=6)


if __name__ == "__main__":
    common.main(body, common.Check("P18", rule="a state is one generator call, provided setup or point"))
