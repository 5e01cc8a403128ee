"""P01 reciprocity and positive dissipation: monitor work exchanged between loadings of one configuration."""
import os
import numpy as np
from lib import common, gen, par
from lib import solver as S

SETS = {"equal": ((1.0,), (1.0,)), "small-beads": ((1.0,), (0.1,)), "ratio10": ((1.0, 0.1), (0.1, 1.0)), "big": ((2.5, 0.25), (0.25,)),
        "tiny-beads": ((1.0, 0.1), (0.01, 0.1))}


def config(rng, c):
    sizes, beads = SETS[c["set"]]
    gap = float(rng.choice([2.0005, 2.006, 2.03, 2.1]))
    if c["set"] == "tiny-beads":
        gap = 2.06                       # pairs with ratio 0.01 closer than this: see the keyed monitor below
    box = None
    base = dict(mu=float(rng.choice([1.0, 0.3, 4.0])))
    if c["periodic"]:
        L = np.array([rng.uniform(9, 11), rng.uniform(9, 11), rng.uniform(9, 11)])
        if max(sizes) > 1:
            L *= 2.5
        g = rng.choice([0, rng.uniform(-1.5, 1.5)])
        base.update(box_bl=-L / 2, box_tr=L / 2, Ot=[0, g / 2, 0], Et=[[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]])
        B = np.diag(L)
        B[2, 0] = g * L[2]
        from lib import oracle
        image = oracle.nearest_image(B)
        pd = gen.config(rng, c["ns"], c["nd"], sizes, beads, gap=gap, image=image, box=(-L / 2, L / 2))
        return pd, base, g
    return gen.config(rng, c["ns"], c["nd"], sizes, beads, gap=gap), base, 0


def case(rec, rng, c):
    pd, base, g = config(rng, c)
    ns, nd = c["ns"], c["nd"]
    kw = dict(cutoff=float(rng.choice([2, 2, 1.5, 3])), minf_only=c["minf"])
    st = dict(case=c, conf=gen.describe(pd), mu=base["mu"], kw=kw, shear=g)
    rp = dict(case=c, posdata=[np.asarray(p).tolist() for p in pd], spec=base, solve=kw)
    try:
        if c["periodic"]:
            n = 11 * ns + 6 * nd
            f1, f2 = rng.normal(size=(2, n))
            o1 = S.solve(pd, S.spec_from_force_vector(f1, ns, nd, base), form="fts", **kw)
            o2 = S.solve(pd, S.spec_from_force_vector(f2, ns, nd, base), form="fts", Minv=o1["Minv"], regen=False, **kw)
            u1, u2 = S.grand_velocity(o1), S.grand_velocity(o2)
            w = [f1 @ u2, f2 @ u1, f1 @ u1, f2 @ u2]
            rec.mon("work-positive", w[2] > 0 and w[3] > 0, st, "work of random loadings %g %g" % (w[2], w[3]), rp)
            d = abs(w[0] - w[1]) / np.sqrt(abs(w[2] * w[3]))
            rec.mon("reciprocity-periodic", d < 1e-9, st, "work exchange differs: %.12g vs %.12g" % (w[0], w[1]), rp, err=d)
            M = S.mobility(pd, base, **kw)
            name = "reciprocity-periodic"
        else:
            M = S.mobility(pd, base, **kw)
            name = "reciprocity"
    except S.RepoError as e:
        rec.mon("solve-succeeds", False, st, "solve failed: %s" % e, rp)
        return
    if not np.all(np.isfinite(M)):
        rec.mon("solve-succeeds", False, st, "non-finite response", rp)
        return
    rec.mon("solve-succeeds", True, st)
    dg = np.diag(M)
    if not rec.mon("work-positive", np.all(dg > 0), st, "negative work of a unit loading: min %g" % dg.min(), rp):
        return
    sc = 1 / np.sqrt(dg)
    N = M * sc[:, None] * sc[None, :]
    d = np.max(np.abs(N - N.T))
    rec.mon(name, d < 1e-9, st, "normalised mobility asymmetric by %.3g at %s" % (d, np.unravel_index(np.argmax(np.abs(N - N.T)), N.shape)), rp, err=d)
    ev, vec = np.linalg.eigh((N + N.T) / 2)
    # worst loading: verified by actually applying it
    f = vec[:, 0] * sc
    o = S.solve(pd, S.spec_from_force_vector(f, ns, nd, base), form="fts", **kw)
    work = f @ S.grand_velocity(o)
    rec.mon("worst-work-positive", work > 0, st, "least dissipative loading does work %g (normalised eigenvalue %g)" % (work, ev[0]), rp, err=-ev[0])


def near_ratio(rec, rng, c):
    """Two spheres of ratio 0.01 close to contact: positivity (keyed separately)."""
    s = c["s"]
    a2 = c["ratio"]
    pd = S.posdata([(1.0, np.zeros(3)), (a2, gen.unit(rng) * s * (1 + a2) / 2)], [])
    M = S.mobility(pd, dict(mu=1.0))
    dg = np.diag(M)
    if np.all(dg > 0):
        sc = 1 / np.sqrt(dg)
        ev = np.linalg.eigvalsh((M + M.T) / 2 * sc[:, None] * sc[None])[0]
    else:
        ev = dg.min()
    key = "nearfield-ratio-0.01" if abs(np.log10(a2)) > 1.5 and 2.0 <= s < 2.06 else None
    rec.mon("pair-work-positive", ev > 0, dict(s=s, ratio=a2), "two spheres ratio %g at s'=%g: least normalised work %g" % (a2, s, ev),
            dict(s=s, ratio=a2), key=key, err=-ev)


def body(chk):
    chk.monitor("solve-succeeds", "an FTS solve of a valid configuration returns finite values", 10)
    chk.monitor("reciprocity", "|M - M^T| of the observed response (unbounded), normalised by the diagonal, < 1e-9", 10)
    chk.monitor("reciprocity-periodic", "f1.u2 = f2.u1 in periodic boxes", 3)
    chk.monitor("work-positive", "random and unit loadings do positive work", 10)
    chk.monitor("worst-work-positive", "the least dissipative loading, found from the observed response and applied, does positive work", 10)
    chk.monitor("pair-work-positive", "the same for two spheres, sweeping ratio and separation", 20)
    th = common.THOROUGH
    cases = []
    k = 0
    for rep in range(60 if th else 10):
        for name in SETS:
            for ns, nd in ((2, 0), (3, 0), (1, 1), (2, 1), (0, 2), (1, 2), (4, 1)):
                k += 1
                cases.append(dict(set=name, ns=ns, nd=nd, periodic=False, minf=(k % 7 == 0)))
    for rep in range(12 if th else 1):
        for name in ("equal", "small-beads", "ratio10", "big"):
            for ns, nd in ((2, 0), (1, 1), (0, 1)):
                cases.append(dict(set=name, ns=ns, nd=nd, periodic=True, minf=bool(rep % 3 == 2)))
    order = np.random.default_rng(common.SEED).permutation(len(cases))
    par.run_cases(chk, os.path.abspath(__file__), "case", [cases[i] for i in order], loader={})
    pairs = [dict(s=float(s), ratio=r) for r in (1, 0.1, 10, 0.01, 100)
             for s in list(np.round(chk.rng.uniform(2.0001, 2.2, 8 if th else 3), 6)) + [2.0005, 2.006, 2.015, 2.03, 2.1, 2.5, 3.3, 3.9]]
    par.run_cases(chk, os.path.abspath(__file__), "near_ratio", pairs, loader={}, salt=1)
    chk.assumptions.append("loadings are applied through the FTS form; the equivalence of forms is P06")


if __name__ == "__main__":
    common.main(body, common.Check("P01", "exploration",
                rule="a case is one particle configuration (sizes, positions, box, cutoff, viscosity); distinct = different configuration",
                budget_s=None))
