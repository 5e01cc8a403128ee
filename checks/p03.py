"""P03 long-range hydrodynamics in unbounded fluid: observed response against an independent multipole (Faxen) reference."""
import os
import numpy as np
from lib import common, gen, oracle, par
from lib import solver as S

SETS = {"equal": ((1.0,), (1.0,)), "small-beads": ((1.0,), (0.1,)), "mixed": ((1.0, 0.1, 0.01), (0.1, 0.01)), "free": (None, None)}


def describe_spec(pd, base, kw):
    return dict(posdata=[np.asarray(p).tolist() for p in pd], spec=base, solve=kw)


def normalised_difference(M, want):
    sc = 1 / np.sqrt(np.diag(want))
    D = np.abs(M - want) * sc[:, None] * sc[None, :]
    return float(D.max()), np.unravel_index(np.argmax(D), D.shape)


def label(k, ns, nd):
    for name, n in (("U", 3 * ns), ("Omega", 3 * ns), ("E", 5 * ns), ("Ub", 3 * nd), ("HalfDUb", 3 * nd)):
        if k < n:
            return "%s[%d]" % (name, k)
        k -= n


def case(rec, rng, c):
    ns, nd = c["ns"], c["nd"]
    sizes, beads = SETS[c["set"]]
    if sizes is None:      # long-range part has no table: any radii
        sizes, beads = tuple(rng.uniform(0.05, 3, 3)), tuple(rng.uniform(0.05, 1.5, 2))
    gap = float(rng.choice([2.0015, 2.01, 2.2]))
    pd = gen.config(rng, ns, nd, sizes, beads, gap=gap)
    off = rng.choice([0, 0, 1, 300]) * rng.normal(size=3)
    pd = (pd[0], pd[1] + off, pd[2], pd[3], pd[4] + off, pd[5])
    base = dict(mu=float(rng.choice([1.0, 0.2, 7.5])))
    kw = dict(minf_only=True)
    st = dict(case=c, conf=gen.describe(pd), mu=base["mu"])
    rp = describe_spec(pd, base, kw)
    want = oracle.grand_mobility(pd[0], pd[1], pd[3], pd[4], pd[5], base["mu"], bead_bead=c.get("bead_bead", True))
    try:
        if c["big"]:
            n = len(want)
            f = rng.normal(size=n) / np.sqrt(np.diag(want))
            o = S.solve(pd, S.spec_from_force_vector(f, ns, nd, base), form="fts", **kw)
            u = S.grand_velocity(o)
            d = np.max(np.abs(u - want @ f) / np.sqrt(np.diag(want)))
            rec.mon(c["mon"], d < 1e-7 * np.sqrt(n), st, "velocities differ from the multipole mobility by %.3g (normalised)" % d, rp, err=d)
            return
        M = S.mobility(pd, base, **kw)
    except S.RepoError as e:
        rec.mon(c["mon"], False, st, "solve failed: %s" % e, rp)
        return
    d, at = normalised_difference(M, want)
    rec.mon(c["mon"], d < 1e-8, st, "mobility %s <- %s differs by %.3g (normalised): observed %.10g, reference %.10g" % (
        label(at[0], ns, nd), label(at[1], ns, nd), d, M[at], want[at]), rp, err=d)


def isolated(rec, rng, c):
    a = float(rng.choice([1, 0.1, 0.01, rng.uniform(0.05, 4)]))
    mu = float(rng.choice([1.0, rng.uniform(0.1, 5)]))
    pd = S.posdata([(a, rng.normal(size=3) * 10)], [])
    F, T, E = rng.normal(size=3), rng.normal(size=3), S.random_strain(rng)
    st = dict(a=a, mu=mu, full=c["full"], F=F.tolist())
    try:
        o = S.solve(pd, dict(Fa=[F], Ta=[T], Ea=[E], mu=mu), form="fte", minf_only=not c["full"])
    except S.RepoError as e:
        rec.mon("isolated-sphere", False, st, "solve failed: %s" % e, dict(a=a, mu=mu))
        return
    got = np.concatenate([o["Ua"][0] * 6 * np.pi * mu * a - F, o["Oa"][0] * 8 * np.pi * mu * a ** 3 - T, (o["Sa"][0] / (20 / 3 * np.pi * mu * a ** 3) - E).ravel()])
    rec.mon("isolated-sphere", np.max(np.abs(got)) < 1e-9, st, "Stokes law residuals %s" % got, dict(a=a, mu=mu, F=F, T=T, E=E), err=np.max(np.abs(got)))


def drag(rec, rng, c):
    ns, nd = c["ns"], c["nd"]
    pd = gen.config(rng, ns, nd, (1.0, 0.1), (0.1, 1.0), gap=2.01)
    mu = float(rng.choice([1.0, rng.uniform(0.1, 5)]))
    base = dict(mu=mu)
    if c["periodic"]:
        base.update(box_bl=[-10, -10, -10], box_tr=[10, 10, 10])
    st = dict(case=c, conf=gen.describe(pd), mu=mu)
    try:
        M = S.mobility(pd, base, minf_only=True, drag=True)
    except S.RepoError as e:
        rec.mon("drag-only", False, st, "solve failed: %s" % e, describe_spec(pd, base, {}))
        return
    a, b = pd[0], pd[3]
    want = np.diag(np.concatenate([np.repeat(1 / (6 * np.pi * mu * a), 3), np.repeat(1 / (8 * np.pi * mu * a ** 3), 3), np.repeat(3 / (20 * np.pi * mu * a ** 3), 5),
                                   np.repeat(1 / (12 * np.pi * mu * b), 6)[:0], np.repeat(1 / (12 * np.pi * mu * b), 3), np.repeat(1 / (12 * np.pi * mu * b), 3)]))
    d, at = normalised_difference(M, want)
    rec.mon("drag-only", d < 1e-9, st, "drag-only mobility %s <- %s: observed %.8g, Stokes law %.8g" % (label(at[0], ns, nd), label(at[1], ns, nd), M[at], want[at]),
            describe_spec(pd, base, dict(drag=True)), err=d)


def body(chk):
    chk.monitor("multipole", "full observed mobility (short-range off) = multipole reference, entry by entry, 1e-8 normalised", 20)
    chk.monitor("multipole-many", "velocities of larger systems under random loadings = reference", 5)
    chk.monitor("multipole-no-bead-bead", "with bead-bead interactions off, the reference without bead-bead pairs", 3)
    chk.monitor("isolated-sphere", "F=6 pi mu a U, T=8 pi mu a^3 Omega, S=20/3 pi mu a^3 E, short-range part on or off", 10)
    chk.monitor("drag-only", "drag-only option leaves the isolated-particle laws, unbounded and periodic", 5)
    th = common.THOROUGH
    me = os.path.abspath(__file__)
    cases = [dict(set=s, ns=ns, nd=nd, big=False, mon="multipole") for _ in range(40 if th else 6) for s in SETS
             for ns, nd in ((2, 0), (3, 0), (1, 1), (2, 2), (0, 2), (0, 1), (4, 1))]
    cases += [dict(set=s, ns=ns, nd=nd, big=True, mon="multipole-many") for _ in range(10 if th else 2) for s in SETS
              for ns, nd in ((9, 0), (6, 4), (0, 8), (15, 5))]
    par.run_cases(chk, me, "case", cases, loader={})
    par.run_cases(chk, me, "isolated", [dict(full=bool(i % 2)) for i in range(200 if th else 30)], loader={}, salt=1)
    par.run_cases(chk, me, "drag", [dict(ns=ns, nd=nd, periodic=bool(i % 2)) for i in range(20 if th else 4) for ns, nd in ((2, 0), (2, 1), (1, 2), (0, 2))],
                  loader={}, salt=2)
    nobb = [dict(set=s, ns=ns, nd=nd, big=False, mon="multipole-no-bead-bead", bead_bead=False) for _ in range(10 if th else 2) for s in SETS for ns, nd in ((2, 1), (1, 2), (0, 2))]
    par.run_cases(chk, me, "case", nobb, loader=dict(overrides=dict(bead_bead_interactions=False)), salt=3)
    chk.assumptions.append("scaled separations of at least 2.001 (the long-range matrix is evaluated at 2.001 for closer pairs)")


if __name__ == "__main__":
    common.main(body, common.Check("P03", rule="a case is one particle configuration with radii, viscosity and loading; distinct = different configuration"))
