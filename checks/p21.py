"""P21 generation of resistance scalars: near-field formulas and mid-field procedure against the exact two-sphere solution."""
import os
import shutil
import subprocess
import sys
import numpy as np
from lib import common, lamb, par, twosphere

NAMES = twosphere.NAMES
# allowed |2 err(xi) - err(2 xi)| relative to the scalar, at xi = 0.005 (0.01 for ratios below 0.4): several times what the formulas deliver for 0.2 <= ratio <= 1
LIMIT = dict(XA=3e-5, YA=4e-4, YB=1.5e-3, XC=8e-3, YC=2.5e-3, XG=3e-4, YG=2e-3, YH=8e-3, XM=8e-4, YM=6e-3, ZM=8e-3)
# allowed |err(xi)| / xi relative to the scalar, same range
SLOPE = dict(XA=0.15, YA=1.5, YB=3.0, XC=8.0, YC=4.0, XG=0.6, YG=4.0, YH=15.0, XM=0.8, YM=6.0, ZM=8.0)


def scale(e, n, g, lam):
    sm = min(lam, 1 / lam)
    return abs(e[n, g]) + 0.1 * sm ** twosphere.POWERS[NAMES[n][1]] * abs(e[n, 1 - g])


def near(rec, rng, c):
    sys.path.insert(0, common.FRS)
    import functions_nearfield as fn
    name, n = c["name"], NAMES.index(c["name"])
    fs = [getattr(fn, name[0] + g + name[1]) for g in ("11", "12")]

    def value(g, xi, lam):
        try:
            return float(fs[g](xi, lam))
        except Exception as e:
            rec.mon("near-defined", False, dict(name=name, g=g, xi=xi, lam=lam), "%s%s at xi=%g, ratio %g: %r" % (name, ("11", "12")[g], xi, lam, e), dict(name=name, xi=xi, lam=lam))
            return None

    for lam in c["lams"]:
        for g in range(2):
            for xi in c["xis"]:
                v = value(g, xi, lam)
                if v is not None:
                    rec.mon("near-defined", np.isfinite(v), dict(name=name, g=g, xi=xi, lam=lam), "%s%s at xi=%g, ratio %g is %r" % (name, ("11", "12")[g], xi, lam, v), dict(name=name, xi=xi, lam=lam))
        # 12 equals 21 (reciprocity), and 21 is the 12 of the pair with the spheres exchanged
        if name[1] in "ACM":
            p = twosphere.POWERS[name[1]]
            for xi in c["xis"]:
                a, b = value(1, xi, lam), value(1, xi, 1 / lam)
                if a is None or b is None:
                    continue
                tol = 1e-6 * (abs(a) + min(1, lam ** p))
                rec.mon("near-exchange", abs(a - b * lam ** p) <= tol, dict(name=name, xi=xi, lam=lam), "%s12 at xi=%g: ratio %g gives %.10g, ratio %g gives %.10g" % (name, xi, lam, a, 1 / lam, b * lam ** p),
                        dict(name=name, xi=xi, lam=lam), err=abs(a - b * lam ** p) / tol)
    for lam, ex in c["exact"]:
        sm = min(lam, 1 / lam)
        worse = 1 if sm >= 0.19 else (0.19 / sm) ** 1.5 * 2
        for g in range(2):
            err, dif, scs = {}, {}, {}
            for xi, (e, resid) in ex.items():
                e = np.array(e)
                v = value(g, xi, lam)
                if v is None:
                    break
                s = scale(e, n, g, lam)
                err[xi], dif[xi], scs[xi] = (v - e[n, g]) / s, v - e[n, g], s
                cap = SLOPE[name] * worse * xi + 20 * resid
                rec.mon("near-accuracy", abs(err[xi]) <= cap, dict(name=name, g=g, xi=xi, lam=round(lam, 6)), "%s%s at s'=%g, ratio %g: formula %.8g, exact %.8g" % (name, ("11", "12")[g], 2 + xi, lam, v, e[n, g]),
                        dict(name=name, xi=xi, lam=lam), err=abs(err[xi]) / cap)
            x = sorted(err)
            for a, b in zip(x, x[1:]):
                if abs(b - 2 * a) < 1e-12:
                    lim = abs(2 * dif[a] - dif[b]) / scs[a]
                    cap = LIMIT[name] * worse + 50 * ex[a][1]
                    rec.mon("near-limit", lim <= cap, dict(name=name, g=g, xi=a, lam=round(lam, 6)), "%s%s, ratio %g: the difference from the exact value does not vanish as the gap closes (%.3g at xi=%g, %.3g at %g)" % (
                        name, ("11", "12")[g], lam, dif[a], a, dif[b], b), dict(name=name, xi=a, lam=lam), err=lim / cap)


def reference(c):
    return c[0], [(xi, twosphere.dimensionless(2 + xi, c[0], 20 if min(c[0], 1 / c[0]) < 0.5 else 14)) for xi in c[1]]


def exact_mobility(s, lam, effort):
    """Dimensionless mobility scalars of the mid-field step's mobility file, from the exact solution."""
    d = s * (1 + lam) / 2
    v = {case: lamb.exact(d, 1.0, lam, case, effort=effort)[0] for case in ("F11", "F12", "F21", "F22", "T11", "T12", "T21", "T22", "E11", "E13", "E14", "E21", "E23", "E24")}
    i = lamb.LABELS.index
    six, four, eight, m = 6 * np.pi, 4 * np.pi, 8 * np.pi, 20 * np.pi / 3
    out = np.zeros((11, 2))
    for g in range(2):
        k = str(g + 1)
        out[:, g] = [v["F%s1" % k][i("Ux")] * six, v["F%s2" % k][i("Uy")] * six, -v["F%s2" % k][i("Oz")] * four, v["T%s1" % k][i("Ox")] * eight, v["T%s2" % k][i("Oy")] * eight,
                     1.5 * v["F%s1" % k][i("Sxx")] / 2, v["F%s2" % k][i("Sxy")] / 2, -v["T%s2" % k][i("Sxz")],
                     v["E%s1" % k][i("Sxx")] / m, v["E%s4" % k][i("Sxy")] / m, v["E%s3" % k][i("Syz")] / m]
    return out


def mid(rec, rng, c):
    """The real mid-field step, in a copy of the folder with other lists of separations and ratios."""
    d = os.path.join(c["dir"], "mid-%d" % c["n"], "find_resistance_scalars")
    shutil.copytree(common.FRS, d, ignore=shutil.ignore_patterns("*.npy", "scalars*.txt", "__pycache__"))
    shutil.copy(c["exe"], os.path.join(d, "helen_fortran", "lamb.exe"))
    ss, ls = np.array(c["s"]), np.array(c["lam"])
    np.savetxt(os.path.join(d, "values_of_s_dash_midfield.txt"), ss)
    np.savetxt(os.path.join(d, "values_of_lambda.txt"), ls)
    r = subprocess.run([common.PY, "generate_scalars_midfield.py"], cwd=d, capture_output=True, text=True)
    st = dict(s=c["s"], lam=c["lam"])
    f = os.path.join(d, "scalars_general_resistance_midfield.npy")
    if not rec.mon("mid-runs", r.returncode == 0 and os.path.exists(f), st, "the mid-field step ended with %s: %s" % (r.returncode, r.stderr[-800:]), st):
        return
    T = np.load(f)
    lams = np.sort(np.concatenate([ls, [1 / x for x in ls if 1 / x not in ls]]))
    if not rec.mon("mid-shape", T.shape == (11, 2, len(ss), len(lams)), st, "table of shape %s for %d separations, ratios %s" % (T.shape, len(ss), lams), st):
        return
    text = {}
    try:
        rows = [np.array([float(t) for t in line.split()]) for line in open(os.path.join(d, "scalars_general_mobility_midfield.txt")).read().splitlines()[2:]]
        text = {(round(w[0], 6), float("%.6g" % w[1]), int(w[2])): w[3:] for w in rows}
    except (OSError, ValueError, IndexError) as e:
        rec.mon("mid-runs", False, st, "mobility file unreadable: %r" % e, st)
    for j, lam in enumerate(lams):
        sm = min(lam, 1 / lam)
        for i, s in enumerate(ss):
            eff = 20 if sm < 0.2 else 14
            e, resid = twosphere.dimensionless(float(s), float(lam), eff)
            mob = exact_mobility(float(s), float(lam), eff)
            tol = ([t for lo, t in ((7, 1e-8), (4, 1e-6), (3, 5e-5), (2.5, 3e-4), (2.2, 4e-3)) if s >= lo] + [1e-2])[0] * (1 if sm >= 0.1 else 3) + 100 * resid
            for g in range(2):
                for n in range(11):
                    sc = scale(e, n, g, lam) if s < 3.9 else max(scale(e, n, g, lam), 1e-3 * sm ** 3)
                    err = abs(T[n, g, i, j] - e[n, g]) / sc
                    rec.mon("mid-exact", err <= tol, dict(name=NAMES[n], g=g, s=s, lam=lam), "%s%s at s'=%g, ratio %g: %.9g, exact %.9g" % (NAMES[n], ("11", "12")[g], s, lam, T[n, g, i, j], e[n, g]), st, err=err / tol)
                w = text.get((round(float(s), 6), float("%.6g" % lam), g))
                if w is None:
                    rec.mon("mid-mobility", False, dict(s=s, lam=lam, g=g), "no line for s'=%g, ratio %g, gamma %d in the mobility file" % (s, lam, g), st)
                    continue
                sc = np.abs(mob[:, g]) + 0.1 * np.array([sm ** (3 if x[1] in "GM" else 0) for x in NAMES]) * np.abs(mob[:, 1 - g])
                err = np.abs(w - mob[:, g]) / np.maximum(sc, 1e-4 * sm ** 3)
                k = int(np.argmax(err))
                rec.mon("mid-mobility", err.max() <= tol + 1e-7, dict(s=s, lam=lam, g=g), "mobility %s%s at s'=%g, ratio %g: %.9g, exact %.9g" % (NAMES[k].lower(), ("11", "12")[g], s, lam, w[k], mob[k, g]), st, err=err.max() / (tol + 1e-7))
            if s >= 40:
                lim = np.array([1.0 if x[1] in "ACM" else 0.0 for x in NAMES])
                dev = max(np.abs(T[:, 0, i, j] - lim).max(), np.abs(T[:, 1, i, j]).max() / lam)
                rec.mon("isolated", dev <= 5.0 / s, dict(s=s, lam=lam), "at s'=%g, ratio %g the scalars differ from those of isolated spheres by %.3g" % (s, lam, dev), st, err=dev * s / 5)
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)


def body(chk):
    chk.monitor("near-defined", "every near-field formula gives a finite number", 500)
    chk.monitor("near-exchange", "12 scalars of A, C, M are the same pair seen from either sphere", 100)
    chk.monitor("near-accuracy", "near-field formulas differ from the exact scalars by at most a multiple of the gap", 150)
    chk.monitor("near-limit", "that difference vanishes as the gap closes (extrapolated from two gaps)", 60)
    chk.monitor("mid-runs", "the mid-field step completes", 4)
    chk.monitor("mid-shape", "one entry per requested separation, ratio and reciprocal", 4)
    chk.monitor("mid-exact", "mid-field resistance scalars equal the exact ones within the solver's truncation", 300)
    chk.monitor("mid-mobility", "mid-field mobility scalars equal the exact ones", 30)
    chk.monitor("isolated", "scalars tend to those of isolated spheres", 2)
    th = common.THOROUGH
    rng = chk.rng
    me = os.path.abspath(__file__)
    base = [1.0, 0.5, float(np.round(rng.uniform(0.55, 0.95), 4)), float(np.round(rng.uniform(0.25, 0.45), 4)), 0.1]
    if th:
        base += [float(x) for x in np.round(rng.uniform(0.1, 1, 8), 4)] + [0.2, 0.07]
    lams = [x for l in base for x in ([l] if l == 1 else [l, 1 / l])]
    refs = [(l, [0.005, 0.01, 0.02] if min(l, 1 / l) >= 0.4 else [0.01, 0.02]) for l in lams]
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(6) as ex:
        exact = [(l, {xi: (e.tolist(), r) for xi, (e, r) in v}) for l, v in ex.map(reference, refs)]
    all_l = sorted(set(lams + [0.01, 100.0, 0.02, 50.0, 0.05, float(10 ** rng.uniform(-2, 0))]))
    xis = [1e-6, 1e-4, 1e-3, 0.004, float(np.round(10 ** rng.uniform(-5, -2), 8))]
    # the slowest families first
    order = ["ZM", "YM", "YC", "YB", "YA", "YG", "YH", "XA", "XG", "XM", "XC"]
    jobs = [dict(kind="near", name=n, lams=all_l, xis=xis, exact=exact) for n in order]
    exe = lamb.build(chk.scratch, ["plain"])["plain"]
    # a ratio whose reciprocal does not invert exactly
    awkward = next(x for x in np.round(rng.uniform(0.2, 0.9, 1000), 3) if 1 / (1 / x) != x)
    mids = [([3.0, 2.6], [1.0]), ([2.5, 50.0], [0.1, 0.5]), ([4.5], [0.01, 0.1, 1.0]), ([2.3, 100.0], [float(awkward)]),
            (sorted(float(x) for x in np.round(rng.uniform(2.2, 6, 2), 4)), [float(np.round(rng.uniform(0.05, 0.2), 3)), 1.0]), ([8.0, 2.9], [1.0, 0.25])]
    if th:
        mids += [(sorted(float(x) for x in np.round(rng.uniform(2.12, 6, 4), 4)), [float(np.round(10 ** rng.uniform(-1.5, 0), 3)), float(np.round(rng.uniform(0.1, 1), 3))]) for _ in range(24)] + [([2.06], [1.0, 0.5])]
    jobs += [dict(kind="mid", n=i, s=s, lam=l, dir=chk.scratch, exe=exe) for i, (s, l) in enumerate(mids)]
    par.run_cases(chk, me, "dispatch", jobs, workers=8)


def dispatch(rec, rng, c):
    (near if c["kind"] == "near" else mid)(rec, rng, c)


if __name__ == "__main__":
    common.main(body, common.Check("P21", rule="a case is one scalar at one gap and size ratio; distinct = different scalar, gap or ratio", budget_s=None if common.THOROUGH else 700))
