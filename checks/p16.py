"""P16 interaction forces obey their force laws and Newton's third law."""
import os
import numpy as np
from lib import common, gen, par, runs
from lib import solver as S

RANGE = 2.2


def beads(pd):
    """All spheres and beads: radius, centre, (kind, particle, end)."""
    out = [(a, np.asarray(x, float), ("s", i, 0)) for i, (a, x) in enumerate(zip(pd[0], pd[1]))]
    out += [(a, np.asarray(y) - 0.5 * np.asarray(d), ("b", i, 0)) for i, (a, y, d) in enumerate(zip(pd[3], pd[4], pd[5]))]
    out += [(a, np.asarray(y) + 0.5 * np.asarray(d), ("b", i, 1)) for i, (a, y, d) in enumerate(zip(pd[3], pd[4], pd[5]))]
    return out


def law(pd, strength=50.0, tau=20.0, rng=None):
    """Independent pair sum. Returns forces on spheres, total and difference on dumbbells, scaled separations of interacting pairs, smallest distance to the range limit."""
    B = beads(pd)
    F = [np.zeros(3) for _ in B]
    used, margin = [], np.inf
    for i in range(len(B)):
        for j in range(i):
            r = B[i][1] - B[j][1]
            dist = np.sqrt(r @ r)
            s = 2 * dist / (B[i][0] + B[j][0])
            margin = min(margin, abs(s - RANGE))
            if dist == 0 or s >= RANGE:
                continue
            f = strength * 2 * B[i][0] * B[j][0] / (B[i][0] + B[j][0]) * min(1.0, np.exp(-tau * (s - 2)))
            F[i] = F[i] + f * r / dist
            F[j] = F[j] - f * r / dist
            used.append((float(s), B[i][2][0] + B[j][2][0], f))
    ns, nd = len(pd[0]), len(pd[3])
    Fs, F1, F2 = np.array(F[:ns]).reshape(-1, 3), np.array(F[ns:ns + nd]).reshape(-1, 3), np.array(F[ns + nd:]).reshape(-1, 3)
    return Fs, F1 + F2, F2 - F1, used, margin


def crowd(rng, ns, nd, sizes, spread, overlap):
    """Particles thrown into a small region: pairs overlapping, just inside and just outside the range, far apart."""
    sph, dmb = [], []
    def near():
        B = beads(S.posdata(sph, dmb))
        b = B[rng.integers(len(B))]
        return b[0], b[1]
    for k in range(ns):
        a = float(rng.choice(sizes))
        if k and rng.random() < 0.7:
            b, x = near()
            x = x + gen.unit(rng) * 0.5 * (a + b) * rng.choice([2.0005, 2.02, 2.1, 2.19, 2.1999, 2.2001, 2.25, 2.5] + ([1.99, 1.6, 0.7] if overlap else [2.05]))
        else:
            x = rng.uniform(-spread, spread, 3)
        sph.append((a, x))
    for k in range(nd):
        a = float(rng.choice(sizes))
        d = gen.unit(rng) * a * rng.choice([2.05, 2.1, 2.199, 2.201, 3.0, 6.0] + ([1.5] if overlap else []))
        if (sph or dmb) and rng.random() < 0.7:
            b, x = near()
            x = x + gen.unit(rng) * 0.5 * (a + b) * rng.choice([2.0005, 2.02, 2.1, 2.19, 2.21] + ([1.9] if overlap else [])) + 0.5 * d * rng.choice([1, -1])
        else:
            x = rng.uniform(-spread, spread, 3)
        dmb.append((a, x, d))
    return S.posdata(sph, dmb)


def judge(rec, pd, Fa, Fb, DFb, st, rp, strength=50.0, tau=20.0, base=None):
    Fs, Ft, Fd, used, margin = law(pd, strength, tau)
    if margin < 1e-9:
        return
    if base is not None:
        Fs, Ft, Fd = Fs + base[0], Ft + base[1], Fd + base[2]
    sc = max(1e-300, max([u[2] for u in used], default=strength * 1e-9)) * 1.0
    kinds = sorted(set(u[1] for u in used))
    mult = 1 + len(used)
    for got, want, name in ((Fa, Fs, "spheres"), (Fb, Ft, "dumbbells (total)"), (DFb, Fd, "dumbbells (internal)")):
        if np.size(want):
            got = np.asarray(got, float)
            e = np.max(np.abs(got - want)) if got.shape == want.shape else np.inf
            top = sc + (0 if base is None else 1 + np.max(np.abs(want)))
            rec.mon("law" if used else "out-of-range", bool(e <= 1e-9 * top * mult), dict(st, on=name, pairs=len(used)),
                    "forces on %s differ from the force law by %.3g (largest pair force %.3g; interacting pairs %s)" % (name, e, sc, used[:6]), rp, err=e / top)
    for s, k, f in used:
        rec.count("pairs_%s%s" % (k, "_overlapping" if s < 2 else "_touching" if s < 2.01 else ""))
    if base is None:
        tot = np.sum(np.asarray(Fa, float).reshape(-1, 3), 0) + np.sum(np.asarray(Fb, float).reshape(-1, 3), 0)
        e = np.max(np.abs(tot))
        rec.mon("total-zero", bool(e <= 1e-9 * sc * mult + 1e-300), dict(st, pairs=len(used)), "the total interaction force is %s" % tot, rp, err=e)
        # torque-free as a set: central pair forces exert no total moment
        F1, F2 = (np.asarray(Fb, float) - np.asarray(DFb, float)) / 2, (np.asarray(Fb, float) + np.asarray(DFb, float)) / 2
        m = np.zeros(3)
        reach = 1.0
        for B, f in zip(beads(pd), list(np.asarray(Fa, float).reshape(-1, 3)) + list(F1.reshape(-1, 3)) + list(F2.reshape(-1, 3))):
            m += np.cross(B[1], f)
            reach = max(reach, np.max(np.abs(B[1])))
        rec.mon("central", bool(np.max(np.abs(m)) <= 1e-9 * sc * mult * reach), dict(st, pairs=len(used)), "the pair forces have a total moment %s" % m, rp)


def solved(rec, rng, c):
    """Loading of the provided repulsion input as seen in a solve."""
    pd = crowd(rng, c["ns"], c["nd"], c["sizes"], c["spread"], c["overlap"])
    st = dict(case=c, conf=gen.describe(pd))
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], input=4)
    try:
        o = S.solve(pd, None, number=4, form="fte" if c["ns"] else "fts", minf_only=True, drag=True, frameno=int(rng.integers(0, 50)))
    except S.RepoError as e:
        rec.mon("completes", False, st, "the provided repulsion input fails: %s" % e, rp)
        return
    rec.mon("completes", True, st)
    judge(rec, pd, o["Fa"], o["Fb"], o["DFb"], st, rp)


def direct(rec, rng, c):
    """The force function itself with other strengths, ranges, forces already present, and wall spheres left alone."""
    try:
        f = S.helper("repulsion_forces")
    except ImportError:
        rec.count("no_repulsion_function")
        return
    ns, nd = c["ns"], c["nd"]
    pd = crowd(rng, ns, nd, c["sizes"], c["spread"], c["overlap"])
    strength, tau = float(rng.choice([1e-3, 1.0, 50.0, 1e4])), float(rng.choice([0.5, 5.0, 20.0, 200.0]))
    base = [rng.normal(size=(ns, 3)) * strength, rng.normal(size=(nd, 3)) * strength, rng.normal(size=(nd, 3)) * strength]
    lid = int(rng.integers(0, ns // 2 + 1)) if c.get("lid") else 0
    st = dict(case=c, conf=gen.describe(pd), strength=strength, tau=tau, lid=lid)
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], strength=strength, tau=tau, lid=lid, base=[b.tolist() for b in base])
    Fa, Fb, DFb = f(strength, tau, ns, nd, pd[1].copy(), pd[4].copy(), pd[5].copy(), pd[0].copy(), pd[3].copy(), lid, base[0].tolist(), base[1].tolist(), base[2].tolist())
    Fa = np.asarray(Fa, float).reshape(ns, 3)
    if lid:
        rec.mon("walls-left-alone", np.array_equal(Fa[:2 * lid], base[0][:2 * lid]), st, "forces of wall spheres were changed", rp)
        Fs = law(pd, strength, tau)[0]
        Fa[:2 * lid] += Fs[:2 * lid]
    judge(rec, pd, Fa, np.asarray(Fb, float).reshape(nd, 3), np.asarray(DFb, float).reshape(nd, 3), st, rp, strength, tau, base)


def spring(rec, rng, c):
    nd, ns = c["nd"], c["ns"]
    sph = [(1.0, rng.uniform(-20, 20, 3)) for _ in range(ns)]
    dmb = [(0.1, rng.uniform(-20, 20, 3), gen.unit(rng) * float(rng.choice([0.3, 1.0, 1.9, 2.0, 2.000001, 2.1, 3.5, 8.0]))) for _ in range(nd)]
    pd = S.posdata(sph, dmb)
    st = dict(case=c, lengths=[float(np.linalg.norm(d[2])) for d in dmb], at=[d[1].round(3).tolist() for d in dmb])
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], input=3)
    try:
        o = S.solve(pd, None, number=3, form="fte" if ns else "fts", minf_only=True, drag=True, frameno=int(rng.integers(0, 200)))
    except S.RepoError as e:
        rec.mon("completes", False, st, "the provided spring input fails: %s" % e, rp)
        return
    rec.mon("completes", True, st)
    for i in range(nd):
        d = pd[5][i]
        L = np.linalg.norm(d)
        F2 = (o["Fb"][i] + o["DFb"][i]) / 2
        F1 = (o["Fb"][i] - o["DFb"][i]) / 2
        s2 = dict(length=float(L), dir=d.round(4).tolist())
        want = -0.5 * (L - 2.0) * d / L
        e = max(np.max(np.abs(F2 - want)), np.max(np.abs(F1 + want)))
        rec.mon("spring-law", bool(e <= 1e-9 * (1 + L)), s2, "spring of length %.6g pulls its outer bead with %s, expected %s" % (L, F2, want), rp, err=e)
        side = F2 @ d / L
        rec.mon("spring-sense", bool(side <= 1e-9 if L > 2 else side >= -1e-9), s2, "a spring of length %.6g %s its ends" % (L, "pushes out" if side > 0 else "pulls in"), rp)
        rec.mon("spring-balanced", bool(np.max(np.abs(o["Fb"][i])) <= 1e-12), s2, "a spring exerts a total force %s" % o["Fb"][i], rp)


def program(rec, rng, c):
    """Forces saved by a program run with the provided inputs, at the saved positions."""
    if c["number"] == 4:
        pd = crowd(rng, c["ns"], c["nd"], (1.0,), 2.5, False)
        run = runs.Run(pd, number=4, dt=0.001, frames=4, form="fte" if c["ns"] else "fts", settings=dict(use_Minfinity_only=True))
    else:
        pd = runs.particles(rng, c["ns"], c["nd"], gap=2.5)
        run = runs.Run(pd, number=3, dt=0.1, frames=4, form="fte" if c["ns"] else "fts")
    st, rp = dict(case=c, **run.describe()), run.replay()
    try:
        run.go()
        if not rec.mon("completes", run.failure() is None, st, run.failure(), rp):
            return
        d = run.data()
        ns = c["ns"]
        for k in range(min(4, len(d["Fb"]))):
            p = (pd[0], d["centres"][k][:ns], pd[2], pd[3], d["centres"][k][ns:], np.asarray(d["deltax"][k]).reshape(-1, 3))
            if c["number"] == 4:
                judge(rec, p, np.asarray(d["Fa"][k], float).reshape(-1, 3), np.asarray(d["Fb"][k], float).reshape(-1, 3), np.asarray(d["DFb"][k], float).reshape(-1, 3), dict(st, frame=k), rp)
            else:
                L = np.linalg.norm(p[5], axis=1)[:, None]
                want = -(L - 2) * p[5] / L
                rec.close("spring-law", np.asarray(d["DFb"][k], float), want, 1e-9, 1e-9, state=dict(st, frame=k), detail="internal forces saved for frame %d" % k, replay=rp)
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("completes", "the provided inputs give a loading", 50),
                             ("law", "force on every sphere and dumbbell (total and internal) is the sum of exponential pair repulsions, capped when overlapping, along the line of centres", 150),
                             ("out-of-range", "no force when no pair is within range", 5),
                             ("total-zero", "all interaction forces add up to zero", 60),
                             ("central", "pair forces are central: no total moment", 60),
                             ("walls-left-alone", "forces on the declared wall spheres are not changed", 5),
                             ("spring-law", "internal force is the spring constant times the extension from the natural length, along the dumbbell", 40),
                             ("spring-sense", "pulls in when longer than natural, pushes out when shorter", 40),
                             ("spring-balanced", "springs exert no total force", 40)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    n = 12 if th else 1
    me = os.path.abspath(__file__)
    sets = ((1.0,), (1.0, 0.1), (0.1, 10.0), (10.0,), (0.01, 1.0))
    crowds = [dict(ns=ns, nd=nd, sizes=s, overlap=o, spread=sp, rep=r) for r in range(n) for ns, nd in ((2, 0), (5, 0), (3, 2), (0, 3), (1, 1), (8, 4)) for s in sets for o, sp in ((False, 2.0), (True, 1.5), (False, 60.0))]
    par.run_cases(chk, me, "solved", crowds, loader={})
    par.run_cases(chk, me, "direct", [dict(c, lid=bool(k % 3 == 0)) for k, c in enumerate(crowds)], loader={}, salt=1)
    if chk.extra.get("no_repulsion_function"):
        chk.skip("walls-left-alone", "no separate force function to call")
    par.run_cases(chk, me, "spring", [dict(ns=ns, nd=nd, rep=r) for r in range(6 * n) for ns, nd in ((0, 3), (2, 5), (1, 1))], loader={}, salt=2)
    par.run_cases(chk, me, "program", [dict(number=k, ns=ns, nd=nd, rep=r) for r in range(2 * n) for k in (3, 4) for ns, nd in ((3, 0), (2, 2), (0, 3)) if nd or k == 4], loader={}, salt=3)


if __name__ == "__main__":
    common.main(body, common.Check("P16", rule="a state is one configuration (or run and frame) and the particles acted on"))
