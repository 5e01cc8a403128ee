"""P02 two-sphere response against the exact two-sphere Stokes solution (independent collocation of Lamb's solution)."""
import os
import numpy as np
from lib import common, gen, oracle, par, twosphere
from lib import solver as S

KNOTS = np.loadtxt(os.path.join(common.DATA, "values_of_s_dash.txt"))


def exact(s, lam, d, a1, mu):
    return twosphere.grand_resistance(d * s * (a1 + lam * a1) / 2, a1, lam * a1, mu)


def budget(s, lam, R, d, a1, mu):
    """Allowed normalised difference: accuracy of the tabulated values plus what linear interpolation between table entries costs."""
    small = min(lam, 1 / lam)
    sc = 1 / np.sqrt(np.diag(R))
    if s >= 4:          # beyond the cutoff only the long-range multipoles remain
        return 0.6 * (2.0 / s) ** 5 + 1e-7, sc
    near = {1: 0.02, 0.1: 0.15}
    tab = (2e-4 if small == 1 else 1.5e-3) * (1 if s >= 2.1 else 5)
    k = int(np.searchsorted(KNOTS, s))
    lo, hi = KNOTS[max(k - 1, 0)], KNOTS[k]
    if s < 2.025 - 1e-9:
        tab = near.get(small, 1.0)
    chord = 0
    if hi - s > 1e-9 and s - lo > 1e-9:
        t = (s - lo) / (hi - lo)
        A, B = exact(lo, lam, d, a1, mu)[0], exact(hi, lam, d, a1, mu)[0]
        chord = np.max(np.abs((1 - t) * A + t * B - R) * sc[:, None] * sc[None])
        if lo < 2.025 - 1e-9:
            tab = near.get(small, 1.0)
    return tab + 1.3 * chord, sc


def case(rec, rng, c):
    lam, s = c["lam"], c["s"]
    d = gen.unit(rng)
    if rng.random() < 0.15:
        d = np.eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
    a1 = float(rng.choice([1.0, 0.1, 2.5])) if lam in (1, 0.1, 10) else 1.0
    a2 = a1 * lam
    mu = float(rng.choice([1.0, 0.3, 4.0]))
    x1 = rng.normal(size=3) * float(rng.choice([0, 1, 30]))
    pd = S.posdata([(a1, x1), (a2, x1 + d * s * (a1 + a2) / 2)], [])
    st = dict(lam=lam, s=s, d=np.round(d, 6).tolist(), a1=a1, mu=mu)
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], mu=mu)
    R, resid = exact(s, lam, d, a1, mu)
    tol, sc = budget(s, lam, R, d, a1, mu)
    # sphere order: FTS grand order F1 F2 T1 T2 S1 S2 is the reference order
    try:
        M = S.mobility(pd, dict(mu=mu))
        got = np.linalg.inv(M)
    except (S.RepoError, np.linalg.LinAlgError) as e:
        rec.mon(c["mon"], False, st, "solve failed: %s" % e, rp)
        return
    D = np.abs(got - R) * sc[:, None] * sc[None]
    at = np.unravel_index(np.argmax(D), D.shape)
    names = [q + "%d" % (i + 1) for q, n in (("F", 3), ("T", 3), ("S", 5)) for i in range(2) for _ in range(n)]
    rec.mon(c["mon"], D.max() <= tol, st, "s'=%.6g ratio %g: resistance %s/%s is %.6g, exact %.6g (normalised difference %.3g, allowed %.3g)" % (
        s, lam, names[at[0]], names[at[1]], got[at], R[at], D.max(), tol), dict(rp, difference=D.max(), allowed=tol), err=D.max() / tol)
    # the same through a mixed problem: forces, torques and strain given
    F, T, E = rng.normal(size=(2, 3)), rng.normal(size=(2, 3)), np.array([S.random_strain(rng) for _ in range(2)])
    F *= 6 * np.pi * mu * np.array([[a1], [a2]])
    T *= 8 * np.pi * mu * np.array([[a1], [a2]]) ** 3
    try:
        o = S.solve(pd, dict(mu=mu, Fa=F, Ta=T, Ea=E), form="fte")
    except S.RepoError as e:
        rec.mon("mixed-loading", False, st, "solve failed: %s" % e, rp)
        return
    e = np.concatenate([S.condense(m) for m in E])
    u = np.linalg.solve(R[:12, :12], np.concatenate([F.ravel(), T.ravel()]) - R[:12, 12:] @ e)
    Sx = R[12:, :12] @ u + R[12:, 12:] @ e
    gu = np.concatenate([o["Ua"].ravel(), o["Oa"].ravel()])
    gS = np.concatenate([S.condense(m) for m in o["Sa"]])
    # an error of relative size tol in R moves the (normalised) solution by at most this
    w = np.concatenate([u, e]) / sc
    cond = 1 / np.linalg.eigvalsh(R[:12, :12] * sc[:12, None] * sc[None, :12])[0]
    amp = tol * np.abs(w).sum()
    du = np.max(np.abs(gu - u) / sc[:12]) / (amp * cond)
    dS = np.max(np.abs(gS - Sx) * sc[12:]) / (amp * (1 + cond * 12))
    rec.mon("mixed-loading", du <= 1 and dS <= 1, st, "s'=%.6g ratio %g: motion/stresslet under given force, torque and strain off by %.3g / %.3g times the allowance" % (s, lam, du, dS), rp, err=max(du, dS))


def far(rec, rng, c):
    """Approach to isolated spheres."""
    lam, mu = c["lam"], 1.0
    d = gen.unit(rng)
    st = dict(lam=lam, d=np.round(d, 6).tolist())
    E = np.array([S.random_strain(rng) for _ in range(2)])
    a = np.array([1.0, lam])
    u, w = rng.normal(size=(2, 3)), rng.normal(size=(2, 3))
    F, T = 6 * np.pi * a[:, None] * u, 8 * np.pi * a[:, None] ** 3 * w
    tot = np.abs(u).sum() + np.abs(w).sum() + np.abs(E).sum()
    for r in (50, 500, 5000):
        pd = S.posdata([(1.0, [0, 0, 0]), (lam, d * r)], [])
        try:
            o = S.solve(pd, dict(Fa=F, Ta=T, Ea=E), form="fte")
        except S.RepoError as e:
            rec.mon("isolated-limit", False, st, "solve failed: %s" % e, st)
            return
        dev = np.array([np.abs(o["Ua"] - u).max(), np.abs(o["Oa"] - w).max(), np.abs(o["Sa"] / (20 / 3 * np.pi * (a ** 3)[:, None, None]) - E).max()])
        cap = tot * np.array([1.5 / r + 5 / r ** 2, 5 / r ** 2, 5 / r ** 2])
        rec.mon("isolated-limit", np.all(dev <= cap), dict(st, r=r), "at separation %g the difference from isolated spheres is %s (allowed %s)" % (r, dev, cap), st, err=np.max(dev / cap))


def body(chk):
    chk.monitor("table-entry", "at tabulated separations the response equals the exact solution to the table's accuracy", 20)
    chk.monitor("between-entries", "between tabulated separations the difference is at most what linear interpolation of the exact solution costs", 10)
    chk.monitor("beyond-cutoff", "beyond the cutoff the difference is that of the truncated multipoles, falling like (2/s')^5", 6)
    chk.monitor("mixed-loading", "motion and stresslets under given force, torque and strain agree with the exact solution", 30)
    chk.monitor("isolated-limit", "difference from isolated spheres falls off with separation", 6)
    th = common.THOROUGH
    rng = chk.rng
    mid = [2.025, 2.05, 2.1, 2.2, 2.3, 2.5, 2.8, 3.1, 3.5, 3.9]
    cases = []
    for _ in range(6 if th else 1):
        for lam in (1, 0.1, 10):
            cases += [dict(mon="table-entry", lam=lam, s=float(s)) for s in [2.005, 2.01, 2.02] + mid]
            if th:
                cases += [dict(mon="table-entry", lam=lam, s=float(s)) for s in KNOTS if 2.1 < s < 3.95]
        for lam in (0.01, 100):
            cases += [dict(mon="table-entry", lam=lam, s=float(s)) for s in (mid[2:] if not th else mid[2:] + [2.15])]
        for lam in (1, 0.1, 10, 0.01, 100):
            lo = 2.1 if lam in (0.01, 100) else 2.005
            cases += [dict(mon="between-entries", lam=lam, s=float(s)) for s in list(2 + np.exp(rng.uniform(np.log(lo - 2), np.log(1.99), 4))) + list(rng.uniform(2.3, 3.99, 3))]
            cases += [dict(mon="beyond-cutoff", lam=lam, s=float(s)) for s in (4.001, rng.uniform(4.01, 8), rng.uniform(8, 60))]
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "case", cases, loader={})
    par.run_cases(chk, me, "far", [dict(lam=lam) for lam in (1, 0.1, 0.01) for _ in range(4 if th else 1)], loader={}, salt=1)
    chk.assumptions.append("scaled gaps from 0.005 (0.1 for ratio 0.01); closer pairs are judged on the generators (P21) and by dissipation (P01)")


if __name__ == "__main__":
    common.main(body, common.Check("P02", rule="a case is one pair of spheres (ratio, separation, orientation, size, viscosity); distinct = different pair"))
