"""P04 short-range correction: observed (full - long-range) resistance against the sum of tabulated pair corrections."""
import os
import numpy as np
from lib import common, gen, oracle, par
from lib import solver as S

SETS = {"equal": ((1.0,), (1.0,)), "small-beads": ((1.0,), (0.1,)), "ratio10": ((1.0, 0.1), (0.1, 1.0)), "big": ((2.5, 0.25), (0.25, 2.5)),
        "tiny": ((1.0, 0.1, 0.01), (0.01, 0.1)), "huge": ((100.0, 10.0), (10.0,))}
_t = {}


def table():
    if "t" not in _t:
        _t["t"] = oracle.Table()
    return _t["t"]


def setup(rng, c):
    sizes, beads = SETS[c["set"]]
    gap = float(rng.choice([2.0005, 2.006, 2.03, 2.1]))
    if c["set"] in ("tiny", "huge"):
        gap = 2.06
    base = dict(mu=float(rng.choice([1.0, 0.3, 4.0])))
    image, g = None, 0.0
    if c["periodic"]:
        top = max(max(sizes), max(beads)) if c["set"] in ("big", "huge") else 1.0
        L = rng.uniform(8.2, 11, size=3) * top
        g = float(rng.choice([0.0, rng.uniform(-2, 2), rng.choice([0.95, -0.6])]))
        off = rng.choice([0, 1]) * rng.uniform(-3, 3, size=3) * top
        base.update(box_bl=off - L / 2, box_tr=off + L / 2, Ot=[0, g / 2, 0], Et=[[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]])
        B = np.diag(L)
        B[2, 0] = g * L[2]
        image = oracle.nearest_image(B)
        pd = gen.config(rng, c["ns"], c["nd"], sizes, beads, gap=gap, image=image, box=(off - L / 2, off + L / 2), length=(0.6 * top, 2.5 * top))
    else:
        pd = gen.config(rng, c["ns"], c["nd"], sizes, beads, gap=gap)
    return pd, base, image, g


def case(rec, rng, c):
    ns, nd = c["ns"], c["nd"]
    pd, base, image, g = setup(rng, c)
    cutoff = float(rng.choice([2, 2, 1.5, 1.2, 2.5]))
    R2, npairs, margin = oracle.lubrication(table(), pd[0], pd[1], pd[3], pd[4], pd[5], cutoff, base["mu"], images=image, bead_bead=c.get("bead_bead", True))
    if margin < 1e-6:
        return
    st = dict(case=c, conf=gen.describe(pd), mu=base["mu"], cutoff=cutoff, shear=g, pairs=npairs)
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], spec=base, cutoff=cutoff)
    rec.count("pairs_within_cutoff", npairs)
    rec.count("pairs_total", (ns + 2 * nd) * (ns + 2 * nd - 1) // 2)
    n = 11 * ns + 6 * nd
    mon = c["mon"]
    try:
        if c["big"]:
            # loading chosen from known motion: f = R u must be reproduced
            f = rng.normal(size=n)
            o = S.solve(pd, S.spec_from_force_vector(f, ns, nd, base), form="fts", cutoff=cutoff)
            Minv = np.linalg.inv(oracle.grand_mobility(pd[0], pd[1], pd[3], pd[4], pd[5], base["mu"], bead_bead=c.get("bead_bead", True))) if image is None else np.asarray(o["Minv"])
            R = Minv + R2
            u = S.grand_velocity(o)
            sc = 1 / np.sqrt(np.diag(R))
            res = np.abs(R @ u - f) * sc
            lim = np.max(np.abs(R) @ np.abs(u) * sc)
            d = float(np.max(res) / lim)
            rec.mon(mon, d < 1e-8, st, "force balance with the reference resistance violated by %.3g (normalised)" % d, rp, err=d)
            return
        Mf = S.mobility(pd, base, cutoff=cutoff)
        Mi = S.mobility(pd, base, cutoff=cutoff, minf_only=True)
    except S.RepoError as e:
        rec.mon(mon, False, st, "solve failed: %s" % e, rp)
        return
    Rf, Ri = np.linalg.inv(Mf), np.linalg.inv(Mi)
    sc = 1 / np.sqrt(np.abs(np.diag(Rf)))
    D = np.abs(Rf - Ri - R2) * sc[:, None] * sc[None]
    d = float(D.max())
    at = np.unravel_index(np.argmax(D), D.shape)
    rec.mon(mon, d < 1e-7, st, "short-range part entry %s: observed %.9g, pair sum %.9g" % (at, (Rf - Ri)[at], R2[at]), rp, err=d)
    if npairs == 0:
        rec.mon("outside-cutoff-nothing", np.max(np.abs(Rf - Ri) * sc[:, None] * sc[None]) < 1e-9, st, "no pair within cutoff but resistance changed", rp)


def drag(pd, mu):
    a, b = np.asarray(pd[0]), np.asarray(pd[3])
    return mu * np.diag(np.concatenate([np.repeat(6 * np.pi * a, 3), np.repeat(8 * np.pi * a ** 3, 3), np.repeat(20 / 3 * np.pi * a ** 3, 5), np.repeat(12 * np.pi * b, 6)]))


def judge_given(rec, rng, pd, base, cutoff, image, st, rp, mon):
    """Solve on top of a given long-range matrix: force balance with that matrix plus the pair sum."""
    ns, nd = len(pd[0]), len(pd[3])
    R2, npairs, margin = oracle.lubrication(table(), pd[0], pd[1], pd[3], pd[4], pd[5], cutoff, base["mu"], images=image)
    if margin < 1e-6:
        return
    D = drag(pd, base["mu"])
    f = rng.normal(size=len(D))
    try:
        o = S.solve(pd, S.spec_from_force_vector(f, ns, nd, base), form="fts", cutoff=cutoff, Minv=D.copy(), regen=False)
    except S.RepoError as e:
        rec.mon(mon, False, st, "solve failed: %s" % e, rp)
        return
    R = D + R2
    u = S.grand_velocity(o)
    sc = 1 / np.sqrt(np.diag(R))
    d = float(np.max(np.abs(R @ u - f) * sc) / np.max(np.abs(R) @ np.abs(u) * sc))
    rec.count("pairs_within_cutoff", npairs)
    rec.mon(mon, d < 1e-8, dict(st, pairs=npairs), "force balance with the given long-range matrix plus the sum over %d pairs violated by %.3g (normalised)" % (npairs, d), rp, err=d)


def sheared(rng, L, plane, slant):
    """Settings and lattice of a box whose edge plane[1] is slanted along plane[0] by slant times its length."""
    G = np.zeros((3, 3))
    G[plane] = slant * L[plane[0]] / L[plane[1]]
    W = (G - G.T) / 2
    B = np.diag(L) + L[:, None] * G.T
    return dict(Ot=[W[2, 1], W[0, 2], W[1, 0]], Et=((G + G.T) / 2).tolist()), B


def images(rec, rng, c):
    """Pairs near the cutoff whose nearest image is not the one of the box coordinates, in strongly slanted boxes."""
    cutoff = c["cutoff"]
    L = rng.uniform(1.02, 1.1, 3) * 4 * cutoff
    shear, B = sheared(rng, L, c["plane"], c["slant"])
    base = dict(mu=1.0, box_bl=-L / 2, box_tr=L / 2, **shear)
    d = np.zeros(3)
    ang = c["angle"] + rng.uniform(-0.2, 0.2)
    d[c["plane"][0]], d[c["plane"][1]] = np.cos(ang), np.sin(ang)
    d += 0.1 * rng.normal(size=3)
    d *= 2 * cutoff * rng.uniform(0.85, 0.99) / np.linalg.norm(d)
    k = rng.integers(-2, 3, 3)
    x = rng.uniform(-L / 2, L / 2)
    y = x + d + k @ B
    if c["kind"] == "ss":
        pd = S.posdata([(1.0, x), (1.0, y)])
    else:
        e = gen.unit(rng) * 2.2
        pd = S.posdata([(1.0, x)], [(1.0, y + (0.5 if rng.random() < 0.5 else -0.5) * e, e)])
    st = dict(c, d=d, k=k)
    judge_given(rec, rng, pd, base, cutoff, oracle.nearest_image(B), st, dict(c, posdata=[np.asarray(p).tolist() for p in pd], spec=common.jsonable(base)), "pair-sum-images")


def crowd(rec, rng, c):
    sizes, beads = c["sizes"]
    top = max(sizes + beads)
    base = dict(mu=float(rng.choice([1.0, 2.5])))
    image = None
    L = np.full(3, (4 * np.pi / 3 * top ** 3 * (c["ns"] + 2 * c["nd"]) / 0.12) ** (1 / 3)) * rng.uniform(0.95, 1.1, 3)
    L = np.maximum(L, 8.2 * top)
    if c["periodic"]:
        shear, B = sheared(rng, L, (0, 2), float(rng.uniform(0, 1)))
        base.update(box_bl=-L / 2, box_tr=L / 2, **shear)
        image = oracle.nearest_image(B)
    pd = gen.config(rng, c["ns"], c["nd"], sizes, beads, gap=2.02, image=image, box=(-L / 2, L / 2), length=(0.6 * top, 2.5 * top))
    judge_given(rec, rng, pd, base, 2.0, image, dict(c, L=L), dict(c, posdata=[np.asarray(p).tolist() for p in pd], spec=common.jsonable(base)), "pair-sum-crowd")


def boundary(rec, rng, c):
    """One pair just inside / just outside the cutoff (both kinds of domain)."""
    a1, a2 = c["a"]
    eps = c["eps"]
    cutoff = c["cutoff"]
    d = gen.unit(rng) if not c["axis"] else np.eye(3)[rng.integers(3)]
    r = (a1 + a2) * cutoff * (1 + eps)
    base = dict(mu=1.0)
    image = None
    x = rng.normal(size=3)
    if c["periodic"]:
        L = np.full(3, 2.3 * r + 2)
        base.update(box_bl=-L / 2, box_tr=L / 2)
        image = oracle.nearest_image(np.diag(L))
    k = c["kind"]
    if k == "ss":
        pd = S.posdata([(a1, x), (a2, x + d * r)], [])
    else:
        far = x + d * r + d * 40 * max(a1, a2) * 0 + np.cross(d, gen.unit(rng)) * 2.5 * a2
        b1 = x + d * r
        pd = S.posdata([(a1, x)], [(a2, 0.5 * (b1 + far), far - b1)])
    R2, npairs, margin = oracle.lubrication(table(), pd[0], pd[1], pd[3], pd[4], pd[5], cutoff, 1.0, images=image)
    if margin < 1e-7:
        return
    st = dict(c=c, d=d.tolist())
    try:
        Mf, Mi = S.mobility(pd, base, cutoff=cutoff), S.mobility(pd, base, cutoff=cutoff, minf_only=True)
    except S.RepoError as e:
        rec.mon("cutoff-boundary", False, st, "solve failed: %s" % e, c)
        return
    Rf, Ri = np.linalg.inv(Mf), np.linalg.inv(Mi)
    sc = 1 / np.sqrt(np.abs(np.diag(Rf)))
    D = np.abs(Rf - Ri - R2) * sc[:, None] * sc[None]
    size = np.max(np.abs(oracle.pair_resistance(table(), d * r, a1, a2)[0, 0][:3, :3])) * sc[0] ** 2
    rec.mon("cutoff-boundary", D.max() < max(1e-9, 1e-3 * size), st, "pair at %.9f of the cutoff (%s) treated wrongly: difference %.3g, pair correction %.3g" % (
        1 + eps, "inside" if eps < 0 else "outside", D.max(), size), c, err=D.max())


def body(chk):
    chk.monitor("pair-sum", "full minus long-range resistance = sum of tabulated pair corrections, unbounded, 1e-7 normalised", 20)
    chk.monitor("pair-sum-many", "the same for larger systems through the force balance of a random loading", 8)
    chk.monitor("pair-sum-periodic", "the same in periodic (also sheared) boxes with nearest images", 4)
    chk.monitor("outside-cutoff-nothing", "no pair within the cutoff: no correction at all", 1)
    chk.monitor("cutoff-boundary", "pairs just inside/outside the cutoff are corrected/not corrected", 20)
    chk.monitor("pair-sum-images", "the same for pairs whose nearest image lies across the slanted side of a sheared box", 15)
    chk.monitor("pair-sum-crowd", "the same for dozens of particles", 4)
    chk.monitor("pair-sum-no-bead-bead", "the same with the interactions between beads switched off: only pairs with a sphere count", 8)
    th = common.THOROUGH
    me = os.path.abspath(__file__)
    cases = [dict(set=s, ns=ns, nd=nd, big=False, periodic=False, mon="pair-sum") for _ in range(30 if th else 4) for s in SETS
             for ns, nd in ((2, 0), (3, 0), (1, 1), (2, 1), (0, 2), (0, 1))]
    cases += [dict(set=s, ns=ns, nd=nd, big=True, periodic=False, mon="pair-sum-many") for _ in range(8 if th else 2) for s in SETS for ns, nd in ((8, 0), (5, 4), (0, 7))]
    cases += [dict(set=s, ns=ns, nd=nd, big=True, periodic=True, mon="pair-sum-periodic") for _ in range(12 if th else 2) for s in ("equal", "ratio10", "big", "huge")
              for ns, nd in ((2, 0), (3, 0), (1, 1), (2, 1), (0, 2))]
    order = np.random.default_rng(common.SEED).permutation(len(cases))
    par.run_cases(chk, me, "case", [cases[i] for i in order], loader={})
    b = [dict(a=a, eps=eps, cutoff=cu, axis=ax, periodic=p, kind=k) for a in ((1, 1), (1, 0.1), (2.5, 2.5), (10.0, 1.0)) for eps in (-1e-5, 1e-5)
         for cu in ((2.0, 1.5) if th else (2.0,)) for ax in (0, 1) for p in (0, 1) for k in ("ss", "sb") if not (p and k == "sb" and not th)]
    par.run_cases(chk, me, "boundary", b, loader={}, salt=1)
    im = [dict(cutoff=2.0, plane=pl, slant=s, angle=a, kind=k, rep=r) for r in range(6 if th else 1) for pl in ((0, 2), (0, 1), (2, 1)) for s in (0.35, 0.75, 0.95)
          for a in (np.pi / 4, 3 * np.pi / 4, 5 * np.pi / 4, 7 * np.pi / 4) for k in ("ss", "sb")]
    par.run_cases(chk, me, "images", im, loader={}, salt=2)
    cr = [dict(ns=ns, nd=nd, periodic=p, sizes=s, rep=r) for r in range(6 if th else 1) for p in (False, True) for ns, nd in ((25, 0), (14, 8), (0, 16)) for s in (((1.0,), (1.0,)), ((1.0, 0.1), (0.1,)))]
    par.run_cases(chk, me, "crowd", cr, loader={}, salt=3)
    off = [dict(set=s, ns=ns, nd=nd, big=big, periodic=p, mon="pair-sum-no-bead-bead", bead_bead=False) for _ in range(8 if th else 1) for s in ("equal", "small-beads", "ratio10", "tiny")
           for ns, nd, big, p in ((1, 1, False, False), (0, 2, False, False), (2, 2, False, False), (4, 4, True, False), (1, 2, True, True)) if not (p and s not in ("equal", "ratio10"))]
    par.run_cases(chk, me, "case", off, loader=dict(overrides=dict(bead_bead_interactions=False)), salt=4)
    chk.assumptions += ["table of pair corrections = the recorded copy in data/ (that the shipped table is this one is P22)",
                        "configurations with a pair within 1e-6 of the cutoff are not judged"]


if __name__ == "__main__":
    common.main(body, common.Check("P04", rule="a case is one configuration with cutoff, viscosity and box; distinct = different configuration"))
