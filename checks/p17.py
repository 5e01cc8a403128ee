"""P17 provided loadings and shear flows are self-consistent at every time."""
import inspect
import os
import numpy as np
from lib import common, gen, par, runs
from lib import solver as S

NAMES = ("Fa", "Ta", "Sa", "Sa_c", "Fb", "DFb", "Ua", "Oa", "Ea", "Ea_c", "Ub", "HDUb", "desc", "U", "O", "centre", "Ot", "Et", "bl", "tr", "mu")


def numbers(x, shape):
    """Array of the given shape where every entry was filled in with a number; None otherwise."""
    try:
        a = np.asarray(x, float)
    except (ValueError, TypeError):
        return None
    if a.size == 0 and 0 in shape:
        return np.zeros(shape)
    return a if a.shape == shape else None


def unset(x):
    """True when no entry of this quantity has been given (placeholders only)."""
    def flat(y):
        if isinstance(y, (list, tuple, np.ndarray)):
            for z in y:
                yield from flat(z)
        else:
            yield y
    for z in flat(x):
        try:
            float(z)
            return False
        except (TypeError, ValueError):
            pass
    return True


def gradient(E, O):
    """Velocity gradient G with u = G x from strain rate and angular velocity."""
    O = np.asarray(O, float)
    W = np.array([[0, -O[2], O[1]], [O[2], 0, -O[0]], [-O[1], O[0], 0]])
    return np.asarray(E, float) + W


def get(n, pd, frame, dt, form, skip=False):
    m = S.load()
    try:
        return dict(zip(NAMES, m["orig_input"](n, pd, frame, dt, [[], [], [], []], input_form=form, skip_computation=skip)))
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        raise S.RepoError(e) from e


def random_pd(rng, ns, nd):
    return S.posdata([(1.0, rng.uniform(-30, 30, 3)) for _ in range(ns)], [(0.1, rng.uniform(-30, 30, 3), gen.unit(rng) * rng.uniform(0.5, 4)) for _ in range(nd)])


def shear_monitors(rec, E, O, U, rate, plane, st, rp, what):
    E, O = np.asarray(E, float), np.asarray(O, float)
    sc = abs(rate) + 1e-12
    rec.mon("strain-symmetric", E.shape == (3, 3) and bool(np.max(np.abs(E - E.T)) <= 1e-12 * sc), st, "%s: strain rate %s is not symmetric" % (what, E.tolist()), rp)
    rec.mon("strain-traceless", bool(abs(np.trace(E)) <= 1e-12 * sc), st, "%s: strain rate has trace %.3g" % (what, np.trace(E)), rp)
    G = gradient(E, O)
    want = np.zeros((3, 3))
    want[plane] = rate
    e = np.max(np.abs(G - want))
    rec.mon("simple-shear", bool(e <= 1e-9 * sc), st, "%s: velocity gradient %s is not simple shear of rate %.6g in entry %s" % (what, G.round(9).tolist(), rate, plane), rp, err=e / sc)
    if U is not None:
        rec.mon("no-uniform-flow", bool(np.max(np.abs(np.asarray(U, float))) == 0), st, "%s: uniform flow %s" % (what, U), rp)


def integrals(rec, f, t0, t1, scale, st, rp, what):
    """Accumulated quantities between two times against Gauss quadrature of the rates. f(t) -> (E, O, Et, Ot)."""
    x, w = np.polynomial.legendre.leggauss(24)
    IE, IO = np.zeros((3, 3)), np.zeros(3)
    for a, b in zip(x, w):
        E, O, _, _ = f(t0 + (t1 - t0) * (a + 1) / 2)
        IE += 0.5 * (t1 - t0) * b * np.asarray(E, float)
        IO += 0.5 * (t1 - t0) * b * np.asarray(O, float)
    A, B = f(t0), f(t1)
    eE = np.max(np.abs(np.asarray(B[2], float) - np.asarray(A[2], float) - IE))
    eO = np.max(np.abs(np.asarray(B[3], float) - np.asarray(A[3], float) - IO))
    rec.mon("accumulated-strain", bool(eE <= 1e-9 * scale), st, "%s: accumulated strain between t=%.4g and %.4g is off by %.3g" % (what, t0, t1, eE), rp, err=eE)
    rec.mon("accumulated-rotation", bool(eO <= 1e-9 * scale), st, "%s: accumulated rotation between t=%.4g and %.4g is off by %.3g" % (what, t0, t1, eO), rp, err=eO)


def function(rec, rng, c):
    """The two shear functions for any parameters."""
    centre = rng.normal(size=3) * 4
    ns = int(rng.choice([0, 1, 2, 7]))
    dt = float(rng.choice([0.1, 0.05, 0.013, 1.0]))
    if c["f"] == "oscillatory_shear":
        A, T, ph = float(rng.uniform(0.05, 3) * rng.choice([1, -1])), float(rng.uniform(0.5, 30)), float(rng.choice([0.0, 1.0, -0.6, 2.9]))
        kw = dict(unused_axis=c["axis"], transpose_shear=c["transpose"], opposite_direction=c["opposite"])
        call = lambda frame: f(amplitude=A, period=T, frameno=frame, timestep=dt, phase=ph, centre_of_background_flow=centre.copy(), num_spheres=ns, **kw)
        i, j = (0, 2) if c["axis"] == 1 else (0, 1)
        if c["transpose"]:
            i, j = j, i
        w = 2 * np.pi / T
        sign = -1 if c["opposite"] else 1
        rate = lambda t: sign * A * w * np.cos(w * t + ph)
        scale = abs(A)
        par_ = dict(A=A, T=T, ph=ph, **kw)
        span = T / 3
    else:
        g = float(rng.normal() * rng.choice([0.1, 1, 30]))
        call = lambda frame: f(gammadot=g, frameno=frame, timestep=dt, centre_of_background_flow=centre.copy(), num_spheres=ns)
        i, j = 0, 2
        rate = lambda t: g
        scale = abs(g) * 10
        par_ = dict(g=g)
        span = 3.0
    try:
        f = S.helper(c["f"])
    except ImportError:
        rec.count("missing_function")
        return
    rp = dict(c, dt=dt, centre=centre.tolist(), **par_)
    frames = list(rng.integers(0, 400, 4)) + [0, 0.5, 1, float(rng.integers(0, 50)) + 0.5]
    for fr in frames:
        st = dict(c, frame=float(fr), ns=ns, dt=dt, **par_)
        try:
            Ea, U, O, cen, Ot, Et = call(fr)
        except Exception as e:
            rec.mon("completes", False, st, "%s fails: %r" % (c["f"], e), rp)
            return
        rec.mon("completes", True, st)
        t = fr * dt
        E = np.asarray(Ea, float)
        rec.mon("one-strain-per-sphere", E.shape == (max(1, ns), 3, 3) and bool(np.all(E == E[0])), st, "strain rates have shape %s for %d spheres" % (E.shape, ns), rp)
        shear_monitors(rec, E[0], O, U, rate(t), (i, j), st, rp, c["f"])
        rec.mon("centre", np.array_equal(np.asarray(cen, float), centre), st, "flow centre %s given, %s returned" % (centre, cen), rp)
        # the deformation used to shear the box is itself a simple shear in the same plane
        G = gradient(Et, Ot)
        off = G.copy()
        off[i, j] = 0
        rec.mon("box-shear", bool(np.max(np.abs(off)) <= 1e-12 * (1 + abs(G[i, j]))), st, "accumulated deformation %s is not simple shear in entry (%d, %d)" % (G.tolist(), i, j), rp)
    def ft(t):
        Ea, U, O, cen, Ot, Et = call(t / dt)
        return Ea[0], O, Et, Ot
    for _ in range(3):
        t0 = float(rng.uniform(0, 20))
        integrals(rec, ft, t0, t0 + span * float(rng.uniform(0.2, 1)), scale, dict(c, t0=t0, **par_), rp, c["f"])
    integrals(rec, ft, 0.0, span, scale, dict(c, t0=0.0, **par_), rp, c["f"])


def provided(rec, rng, c):
    """Each numbered input: exactly its stated loading on exactly the stated particles."""
    n, ns, nd, form = c["number"], c["ns"], c["nd"], c["form"]
    pd = random_pd(rng, ns, nd)
    dt = float(rng.choice([0.1, 0.25, 1.0]))
    fr = float(rng.choice([0, 1, 7, 33, 12.5, 400]))
    st, rp = dict(c, frame=fr, dt=dt, at=pd[1].round(2).tolist()), dict(c, frame=fr, dt=dt, posdata=[np.asarray(p).tolist() for p in pd])
    try:
        r = get(n, pd, fr, dt, form)
    except S.RepoError as e:
        rec.mon("completes", False, st, "input %d fails: %s" % (n, e), rp)
        return
    rec.mon("completes", True, st)
    Z = np.zeros
    want = dict(Fb=Z((nd, 3)), DFb=Z((nd, 3)), Ta=Z((ns, 3)), Fa=Z((ns, 3)))
    left = ()
    if n in (1, 2):
        want["Fa"][:, 2] = -1
    if n == 3:
        for i in range(nd):
            L = np.linalg.norm(pd[5][i])
            want["DFb"][i] = -(L - 2) * pd[5][i] / L
    if n == 4:
        from checks import p16
        want["Fa"], want["Fb"], want["DFb"] = p16.law(pd)[:3]
    if n == 5:
        want["Ua"] = np.array([[-1., 0, 0]] * (ns // 2) + [[1., 0, 0]] * (ns - ns // 2)).reshape(-1, 3)
        want.pop("Fa")
    if n == 6:
        want.pop("Fa")
        u = r["Ua"]
        w = np.array([[-1., 0, 0]] * 45 + [[1., 0, 0]] * 45)
        g = numbers(list(u)[:90], (90, 3))
        rec.mon("loading", g is not None and np.array_equal(g, w), dict(st, q="Ua"), "wall velocities %s" % (u[:2],), rp)
        rec.mon("loading", unset(list(u)[90:]), dict(st, q="Ua rest"), "velocities were imposed on spheres beyond the walls", rp)
        g = numbers(list(r["Fa"])[90:], (9, 3))
        rec.mon("loading", g is not None and np.array_equal(g, np.array([[10., 0, 0]] * 9)), dict(st, q="Fa"), "forces on the free spheres %s" % (r["Fa"][90:92],), rp)
        rec.mon("loading", unset(list(r["Fa"])[:90]), dict(st, q="Fa walls"), "forces were imposed on wall spheres", rp)
    for k, w in want.items():
        g = numbers(r[k], w.shape)
        sc = 1e-12 * (1 + (np.max(np.abs(w)) if w.size else 0))
        rec.mon("loading", g is not None and (w.size == 0 or bool(np.max(np.abs(g - w)) <= sc * 100)), dict(st, q=k), "input %d imposes %s = %s, stated %s" % (n, k, str(r[k])[:200], w[:3].tolist()), rp)
    for k in ("Oa", "Ub", "HDUb") + (("Ua",) if n not in (5, 6) else ()):
        rec.mon("nothing-else", unset(r[k]), dict(st, q=k), "input %d also imposes %s = %s" % (n, k, str(r[k])[:200]), rp)
    L = np.asarray(r["tr"], float) - np.asarray(r["bl"], float)
    if n == 2:
        rec.mon("box", bool(np.allclose(L, 8.0, atol=1e-12)), st, "the periodic input's box has sides %s" % L, rp)
    else:
        rec.mon("box", bool(np.all(L == 0)), st, "input %d sets a periodic box %s" % (n, L), rp)
    rec.mon("viscosity", float(r["mu"]) == 1.0, st, "input %d sets viscosity %s" % (n, r["mu"]), rp)
    if n in (3, 7):
        E = np.asarray(r["Ea"], float)
        t = fr * dt
        if n == 3:
            w = 2 * np.pi / 10
            rate, cen = (1 / 3) * w * np.cos(w * t), np.array([2.25, 0, 2.25])
        else:
            rate, cen = 1.0, np.zeros(3)
        rec.mon("one-strain-per-sphere", E.shape == (max(1, ns), 3, 3), st, "strain rates of shape %s for %d spheres" % (E.shape, ns), rp)
        for k in range(len(E)):
            shear_monitors(rec, E[k], r["O"], r["U"], rate, (0, 2), dict(st, k=k), rp, "input %d" % n)
        rec.mon("centre", bool(np.allclose(np.asarray(r["centre"], float), cen, atol=1e-12)), st, "flow centre %s" % r["centre"], rp)
        def ft(tt):
            q = get(n, pd, tt / dt, dt, form)
            return np.asarray(q["Ea"], float)[0], q["O"], q["Et"], q["Ot"]
        integrals(rec, ft, 0.0, t if t and t < 5 else 2.0, 1.0, st, rp, "input %d" % n)
    else:
        for k in ("U", "O", "Ot", "Et"):
            rec.mon("no-flow", bool(np.all(np.asarray(r[k], float) == 0)), dict(st, q=k), "input %d has background %s = %s" % (n, k, r[k]), rp)
        if form in ("fte", "ufte"):
            g = numbers(r["Ea"], (ns, 3, 3))
            rec.mon("no-flow", g is not None and not np.any(g), dict(st, q="Ea"), "input %d has strain rate %s" % (n, str(r["Ea"])[:100]), rp)
    # asking only for constants must give the same constants
    q = get(n, pd, 0, 0.1, form, skip=True)
    r0 = get(n, pd, 0, 0.1, form, skip=False)
    same = all(np.array_equal(np.asarray(q[k], float), np.asarray(r0[k], float)) for k in ("bl", "tr", "mu", "U", "O", "Ot", "Et", "centre")) and q["desc"] == r0["desc"]
    rec.mon("constants", same, st, "box, viscosity or flow differ when only constants are requested", rp)


def solved(rec, rng, c):
    """What the solve receives is what the input states: imposed quantities come back unchanged."""
    n, ns, nd, form = c["number"], c["ns"], c["nd"], c["form"]
    pd = random_pd(rng, ns, nd)
    fr = float(rng.choice([0, 3, 17]))
    st, rp = dict(c, frame=fr, at=pd[1].round(2).tolist()), dict(c, frame=fr, posdata=[np.asarray(p).tolist() for p in pd])
    try:
        r = get(n, pd, fr, 0.1, form)
        o = S.solve(pd, None, number=n, form=form, frameno=fr, timestep=0.1, minf_only=n == 2)
    except S.RepoError as e:
        rec.mon("completes", False, st, "input %d fails: %s" % (n, e), rp)
        return
    for k in ("Fa", "Ta", "Fb", "DFb", "Ua"):
        if unset(r[k]):
            continue
        w = numbers(r[k], o[k].shape)
        if w is not None and w.size:
            rec.mon("reaches-the-solve", bool(np.max(np.abs(o[k] - w)) <= 1e-9 * (1 + np.max(np.abs(w)))), dict(st, q=k), "imposed %s comes back as %s" % (k, o[k][:2].tolist()), rp)
    for k, q in (("Uinf", "U"), ("Oinf", "O"), ("centre", "centre"), ("Ot", "Ot"), ("Et", "Et")):
        rec.mon("reaches-the-solve", bool(np.allclose(np.asarray(o[k], float), np.asarray(r[q], float), atol=1e-12)), dict(st, q=k), "background %s of the input comes back as %s" % (q, o[k]), rp)


def body(chk):
    for name, rule, need in (("completes", "inputs and shear functions return", 100),
                             ("loading", "each provided input imposes its stated forces/velocities on the stated particles, zero elsewhere", 60),
                             ("nothing-else", "no other velocities are imposed", 40),
                             ("box", "only the periodic input sets a box, of side 8", 20), ("viscosity", "viscosity 1", 20),
                             ("no-flow", "inputs without flow have no background flow", 20),
                             ("strain-symmetric", "strain rate symmetric", 60), ("strain-traceless", "strain rate traceless", 60),
                             ("simple-shear", "strain and rotation combine to simple shear of the stated rate, plane and direction", 60),
                             ("no-uniform-flow", "no uniform flow in shears", 60),
                             ("one-strain-per-sphere", "one strain rate per sphere, at least one, all equal", 60),
                             ("centre", "stated centre of the flow", 60), ("box-shear", "accumulated deformation is simple shear in the same plane", 60),
                             ("accumulated-strain", "accumulated strain is the time integral of the strain rate", 40),
                             ("accumulated-rotation", "accumulated rotation is the time integral of the angular velocity", 40),
                             ("constants", "constants do not depend on how they are asked for", 20),
                             ("reaches-the-solve", "imposed quantities come back from the solve unchanged", 60)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    me = os.path.abspath(__file__)
    n = 20 if th else 3
    fs = [dict(f="oscillatory_shear", axis=a, transpose=t, opposite=o, rep=r) for r in range(n) for a in (1, 2) for t in (False, True) for o in (False, True)]
    fs += [dict(f="constant_shear", rep=r) for r in range(3 * n)]
    par.run_cases(chk, me, "function", fs, loader={})
    pv = [dict(number=k, ns=ns, nd=nd, form=f, rep=r) for r in range(n) for k, ns, nd, f in (
        (1, 1, 0, "fte"), (1, 5, 2, "fte"), (1, 4, 1, "fts"), (2, 8, 0, "fte"), (2, 2, 1, "fte"), (3, 2, 2, "fte"), (3, 0, 3, "fts"), (4, 4, 2, "fte"), (4, 0, 2, "fts"),
        (5, 4, 0, "ufte"), (5, 5, 2, "ufte"), (5, 1, 0, "ufte"), (6, 99, 0, "ufte"), (6, 99, 2, "ufte"), (7, 3, 2, "fte"), (7, 1, 0, "fte"), (7, 0, 2, "fts"))]
    par.run_cases(chk, me, "provided", pv, loader={}, salt=1)
    sv = [dict(number=k, ns=ns, nd=nd, form=f, rep=r) for r in range(n) for k, ns, nd, f in (
        (1, 5, 2, "fte"), (1, 3, 0, "fts"), (3, 2, 2, "fte"), (3, 0, 3, "fts"), (4, 4, 2, "fte"), (5, 4, 0, "ufte"), (5, 5, 2, "ufte"), (7, 3, 2, "fte"))] + [dict(number=6, ns=99, nd=0, form="ufte", rep=0)] * (1 if th else 0)
    par.run_cases(chk, me, "solved", sv, loader={}, salt=2)


if __name__ == "__main__":
    common.main(body, common.Check("P17", rule="a state is one input (or shear function), time and particle set"))
