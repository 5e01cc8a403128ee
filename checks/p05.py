"""P05 periodic long-range hydrodynamics: observed response against an independent lattice sum."""
import os
import numpy as np
from lib import common, gen, oracle, par
from lib import solver as S


def shear(kind, rng):
    """Accumulated (Ot, Et) of the box and the corresponding box vectors modifier B = diag(L) + offsets (row = box vector)."""
    if kind == "none":
        return np.zeros(3), np.zeros((3, 3)), None
    g = float(rng.uniform(-1.4, 1.4)) if kind != "big" else float(rng.uniform(3, 9))
    if kind == "xy":
        return np.array([0, 0, -g / 2]), np.array([[0, g / 2, 0], [g / 2, 0, 0], [0, 0, 0]]), (1, 0, g)
    if kind == "zx":
        return np.array([0, -g / 2, 0]), np.array([[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]]), (0, 2, g)
    return np.array([0, g / 2, 0]), np.array([[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]]), (2, 0, g)


def setup(rng, c):
    sizes, beads = {"equal": ((1.0,), (1.0,)), "mixed": ((1.0, 0.1), (0.1,)), "big": ((2.5,), (0.25,))}[c["set"]]
    top = max(sizes)
    if c["shape"] == "cubic":
        L = np.full(3, rng.uniform(7, 12)) * top
    else:
        L = rng.uniform(8, 11, size=3) * top
    off = rng.choice([0, 1]) * rng.uniform(-20, 20, size=3)
    Ot, Et, mod = shear(c["shear"], rng)
    B = np.diag(L)
    if mod:
        r, col, g = mod
        B[r, col] += g * L[r]
    mu = float(rng.choice([1.0, 0.4, 3.0]))
    base = dict(mu=mu, box_bl=off - L / 2, box_tr=off + L / 2, Ot=Ot, Et=Et)
    image = oracle.nearest_image(B)
    pd = gen.config(rng, c["ns"], c["nd"], sizes, beads, gap=2.02, image=image, box=(off - L / 2, off + L / 2), length=(0.6 * top, 2.5 * top))
    # shifting by whole box vectors must not matter to the reference; keep direct separations away from overlap clamp
    return pd, base, B, L


def red(B):
    """Same lattice, less slanted basis (for a fast reference)."""
    B = B.copy()
    for r in range(3):
        for q in range(3):
            if r != q and B[q, q] != 0:
                k = np.round(B[r, q] / B[q, q])
                B[r] -= k * B[q]
    return B


def tol(how_far, c):
    if how_far >= 3:
        return 1e-4
    if c["shear"] == "none" and c["shape"] == "cubic":
        return 5e-3
    return 5e-2


def case(rec, rng, c):
    ns, nd = c["ns"], c["nd"]
    pd, base, B, L = setup(rng, c)
    lat = oracle.Lattice(red(B))
    want = oracle.grand_mobility(pd[0], pd[1], pd[3], pd[4], pd[5], base["mu"], lattice=lat)
    st = dict(case=c, conf=gen.describe(pd), L=np.round(L, 5).tolist(), B=np.round(B, 5).tolist(), mu=base["mu"])
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], spec=base, how_far=c["how_far"])
    try:
        M = S.mobility(pd, base, minf_only=True)
    except S.RepoError as e:
        rec.mon("lattice-sum", False, st, "solve failed: %s" % e, rp)
        return
    sc = 1 / np.sqrt(np.diag(want))
    D = np.abs(M - want) * sc[:, None] * sc[None]
    at = np.unravel_index(np.argmax(D), D.shape)
    t = tol(c["how_far"], c)
    name = "lattice-sum" if c["how_far"] >= 3 else "lattice-sum-default"
    rec.mon(name, D.max() < t, st, "mobility entry %s: observed %.9g, lattice sum %.9g (normalised difference %.3g > %.1g)" % (at, M[at], want[at], D.max(), t), rp, err=D.max())
    # the same particles seen through another choice of cell: each moved by some lattice vector
    R = red(B)
    o = pd[1 if ns else 4][0] + rng.uniform(-0.5, 0.5, size=3) @ R

    def rewrap(x):
        return x - np.round((x - o) @ np.linalg.inv(R)) @ R if len(x) else x
    pd2 = (pd[0], rewrap(pd[1]), pd[2], pd[3], rewrap(pd[4]), pd[5])
    rec.count("particles_moved_by_lattice_vectors", int(sum(np.abs(pd2[i] - pd[i]).max(axis=-1).sum() > 1e-9 for i in (1, 4) if len(pd[i]))))
    n = 11 * ns + 6 * nd
    f = rng.normal(size=n) * sc
    try:
        u1 = S.grand_velocity(S.solve(pd, S.spec_from_force_vector(f, ns, nd, base), form="fts"))
        u2 = S.grand_velocity(S.solve(pd2, S.spec_from_force_vector(f, ns, nd, base), form="fts"))
    except S.RepoError as e:
        rec.mon("lattice-shift", False, st, "solve failed: %s" % e, rp)
        return
    d = np.max(np.abs(u1 - u2) * sc) / np.max(np.abs(u1) * sc)
    t = 4 * t * n ** 0.5
    rec.mon("lattice-shift", d < t, st, "response changed by %.3g when particles moved by lattice vectors" % d, rp, err=d)


def apart(rec, rng, c):
    """Interactions between beads switched off."""
    pd, base, B, L = setup(rng, c)
    lat = oracle.Lattice(red(B))
    st = dict(case=c, conf=gen.describe(pd), L=np.round(L, 5).tolist(), B=np.round(B, 5).tolist(), mu=base["mu"])
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], spec=base, how_far=c["how_far"], bead_bead=False)
    try:
        M = S.mobility(pd, base, minf_only=True)
    except S.RepoError as e:
        rec.mon("lattice-sum-no-bead-bead", False, st, "solve failed: %s" % e, rp)
        return

    def error(keep):
        want = oracle.grand_mobility(pd[0], pd[1], pd[3], pd[4], pd[5], base["mu"], lattice=lat, bead_bead=keep)
        sc = 1 / np.sqrt(np.diag(want))
        return float(np.max(np.abs(M - want) * sc[:, None] * sc[None]))
    t = tol(c["how_far"], c)
    d, own = error(False), error("own")
    rec.mon("lattice-sum-no-bead-bead", d < t, st, "mobility without bead-bead interactions differs from the lattice sum by %.3g (with each dumbbell's own two beads interacting: %.3g)" % (d, own), rp,
            key="periodic-own-beads-interact" if own < t else None, err=min(d, own))


def growth(rec, rng, c):
    ns, nd = c["ns"], c["nd"]
    pd = gen.config(rng, ns, nd, (1.0,), (0.1,), gap=2.05)
    mu = 1.0
    f = rng.normal(size=11 * ns + 6 * nd)
    st = dict(case=c, conf=gen.describe(pd))
    kw = dict(minf_only=c["minf"])
    try:
        u0 = S.grand_velocity(S.solve(pd, S.spec_from_force_vector(f, ns, nd, dict(mu=mu)), form="fts", **kw))
        dev = []
        for L in (150.0, 600.0):
            b = dict(mu=mu, box_bl=[-L / 2] * 3, box_tr=[L / 2] * 3)
            u = S.grand_velocity(S.solve(pd, S.spec_from_force_vector(f, ns, nd, b), form="fts", **kw))
            dev.append(np.max(np.abs(u - u0)))
    except S.RepoError as e:
        rec.mon("large-box-limit", False, st, "solve failed: %s" % e)
        return
    # leading finite-size correction is at most ~2.84 sum|F| / (6 pi mu L)
    cap = [3 * 2.84 * (np.abs(f[:3 * ns]).sum() + np.abs(f[11 * ns:]).sum()) / (6 * np.pi * mu * L) for L in (150.0, 600.0)]
    rec.mon("large-box-limit", dev[0] < cap[0] and dev[1] < cap[1] and dev[1] < 0.4 * dev[0], st,
            "difference from unbounded response %s for boxes 150, 600 (caps %s)" % (dev, cap), dict(conf=gen.describe(pd)), err=dev[1])


def body(chk):
    chk.monitor("lattice-sum", "observed mobility = independent lattice sum with 3 box repeats, 1e-4 normalised (any near-cubic box, any shear)", 5)
    chk.monitor("lattice-sum-default", "the same with the default 2 repeats, tolerance by box shape", 5)
    chk.monitor("lattice-shift", "response unchanged when particles are moved by lattice vectors", 5)
    chk.monitor("large-box-limit", "response tends to the unbounded one like 1/L", 2)
    chk.monitor("lattice-sum-no-bead-bead", "the same with the interactions between beads switched off", 3)
    th = common.THOROUGH
    me = os.path.abspath(__file__)
    combos = [("equal", "cubic", "none"), ("mixed", "cubic", "none"), ("equal", "rect", "xz"), ("mixed", "rect", "xy"), ("mixed", "rect", "none"), ("big", "rect", "big"), ("equal", "rect", "zx")]
    c3 = [dict(set=a, shape=b, shear=s, ns=ns, nd=nd, how_far=3) for _ in range(6 if th else 1) for a, b, s in combos for ns, nd in ((2, 0), (1, 1), (0, 1))]
    c2 = [dict(set=a, shape=b, shear=s, ns=ns, nd=nd, how_far=2) for _ in range(6 if th else 1) for a, b, s in combos for ns, nd in ((2, 0), (1, 1), (0, 1))]
    if th:
        c3 += [dict(set="mixed", shape="rect", shear=s, ns=3, nd=1, how_far=3) for s in ("none", "xz", "xy")]
    par.run_cases(chk, me, "case", c3, loader=dict(overrides=dict(how_far_to_reproduce_gridpoints=3)))
    par.run_cases(chk, me, "case", c2, loader={}, salt=1)
    par.run_cases(chk, me, "growth", [dict(ns=ns, nd=nd, minf=bool(i % 2)) for i in range(6 if th else 2) for ns, nd in ((2, 0), (1, 1))], loader={}, salt=2)
    off = [dict(set=a, shape=b, shear=s, ns=ns, nd=nd, how_far=3) for _ in range(4 if th else 1) for a, b, s in (combos if th else combos[1:4]) for ns, nd in ((1, 2), (0, 2))]
    par.run_cases(chk, me, "apart", off, loader=dict(overrides=dict(how_far_to_reproduce_gridpoints=3, bead_bead_interactions=False)), salt=3)
    chk.assumptions.append("near-cubic boxes (sides within a factor 1.5): with elongated boxes the stated number of repeats truncates at the percent level")


if __name__ == "__main__":
    common.main(body, common.Check("P05", rule="a case is one configuration in one periodic box (sides, shear, offset); distinct = different configuration or box"))
