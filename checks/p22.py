"""P22 the scalar pipeline: documented steps run on other lists in copies of the folders, the shipped tables, and what the simulation looks up."""
import json
import os
import shutil
import subprocess
import sys
import numpy as np
from lib import common, lamb, oracle, par, twosphere
from lib import solver as S

NAMES = twosphere.NAMES
STEPS = [("mid", "generate_scalars_midfield.py"), ("near", "generate_scalars_nearfield.py"), ("combine", "combine_scalars.py"), ("subtract", "subtract_R2Binfinity_from_scalars.py"),
         ("subtract-drag", "subtract_R2Binfinitydrag_from_scalars.py")]
SHIP = ["scalars_general_resistance.npy", "scalars_general_resistance.txt", "scalars_general_resistance_d.npy", "scalars_general_resistance_d.txt", "values_of_lambda.txt", "values_of_s_dash.txt"]

# Runs a step with the (slow) near-field formulas replaced by cheap stand-ins whose values tell scalar, gap and ratio apart.
RUNNER = r'''
import re, runpy, sys, types
sys.path.insert(0, ".")
sys.path.insert(0, %(lib)r)
from checks.p22 import stand_in
class M(types.ModuleType):
    def __getattr__(self, name):
        m = re.match(r"^([XYZ])(11|12)([A-Z])$", name)
        if not m:
            raise AttributeError(name)
        f = lambda xi, lam: stand_in(m.group(1) + m.group(3), int(m.group(2) == "12"), xi, lam)
        f.__name__ = name
        return f
sys.modules["functions_nearfield"] = M("functions_nearfield")
runpy.run_path(sys.argv[1], run_name="__main__")
'''


def hashed(*k):
    import zlib
    return zlib.crc32(repr(k).encode()) / 2 ** 31 - 1


def stand_in(name, g, xi, lam):
    """Arbitrary but physically possible scalar: symmetric under exchange of the spheres where it must be."""
    p = twosphere.POWERS[name[1]]
    if g == 0:
        return (1.0 if name[1] in "ACM" else 0.0) + 0.1 * hashed(name, 0, round(xi, 9), float("%.9g" % lam))
    if name[1] in "ACM":
        return 0.1 * lam ** (p / 2) * hashed(name, 1, round(xi, 9), float("%.6g" % min(lam, 1 / lam)))
    return 0.1 * min(1.0, lam) * hashed(name, 1, round(xi, 9), float("%.9g" % lam))


class Tab(oracle.Table):
    def __init__(self, s, lam, raw):
        self.s, self.lam, self.raw = np.array(s, float), np.array(lam, float), np.array(raw, float)


def long_range(s, lam, drag=False):
    """Resistance (blocks [p][q] of 11 x 11) of the two-sphere long-range mobility as the simulation takes it (gaps below 2.001 count as 2.001)."""
    d = max(s, 2.001) * (1 + lam) / 2
    M = np.zeros((2, 2, 11, 11))
    for i, a in enumerate((1.0, lam)):
        M[i, i] = oracle.self_block(a, 1.0)
    if not drag:
        M[0, 1] = oracle.pair_unbounded(np.array([-d, 0, 0]), 1.0, lam, 1.0)
        M[1, 0] = M[0, 1].T
    R = np.linalg.inv(M.transpose(0, 2, 1, 3).reshape(22, 22))
    return R.reshape(2, 11, 2, 11).transpose(0, 2, 1, 3)


def reciprocals(ls):
    ls = list(ls)
    return np.sort(np.array(ls + [1 / x for x in ls if not np.any(np.isclose(1 / x, ls, rtol=1e-12))]))


def check_subtracted(rec, mon, s, lams, full, sub, st, drag=False):
    """Full minus subtracted table must be the long-range resistance, pair by pair.  (A pair needs the entries of a ratio and its reciprocal.)"""
    F, D = Tab(s, lams, full), Tab(s, lams, sub)
    for lam in lams:
        for k in s:
            x = np.array([k * (1 + lam) / 2, 0, 0])
            got = oracle.pair_resistance(F, x, 1.0, lam) - oracle.pair_resistance(D, x, 1.0, lam)
            want = long_range(k, lam, drag)
            dg = np.sqrt(np.array([[np.diag(want[i, i])] for i in range(2)]).reshape(2, 11))
            err = np.abs(got - want) / dg[:, None, :, None] / dg[None, :, None, :]
            at = np.unravel_index(np.argmax(err), err.shape)
            rec.mon(mon, err.max() <= 1e-7, dict(st, s=float(k), lam=float(lam)), "s'=%g, ratio %g: full minus subtracted is %.9g, the long-range part %.9g (block %s)" % (k, lam, got[at], want[at], at), dict(st, s=float(k), lam=float(lam)), err=err.max() / 1e-7)


def read_human(path):
    lines = open(path).read().splitlines()
    head = [i for i, l in enumerate(lines) if "generated" in l]
    names = lines[1].split() if len(lines) > 1 else []
    rows = [[float(t) for t in l.split()] for l in lines[2:] if l.strip()] if len(head) == 1 else []
    return head, names, np.array(rows)


def check_human(rec, path, raw, s, lams, st, mon="human", key=None, fold=""):
    try:
        head, names, rows = read_human(path)
    except (OSError, ValueError) as e:
        rec.mon(mon, False, st, "%s unreadable: %r" % (os.path.basename(path), e), st, key=key)
        return
    want = {(float("%.8e" % k), float("%.8e" % l), g): raw[:, g, i, j] for i, k in enumerate(s) for j, l in enumerate(lams) for g in range(2)}
    got = {(r[0], r[1], int(r[2])): r[3:] for r in rows} if rows.ndim == 2 else {}
    bad = ""
    if key and not (len(head) == 1 and got and len(got) == len(rows) and {k[1] for k in got} == {1.0} and set(got) == {k for k in want if k[1] == 1} and all(np.allclose(got[k], want[k], rtol=1e-7, atol=1e-12) for k in got)):
        key = None          # some other defect of the file than the recorded one
    if len(head) != 1 or [n.upper() for n in names[3:]] != NAMES:
        bad = "%d tables, columns %s" % (len(head), names)
    elif set(got) != set(want) or len(got) != len(rows):
        bad = "lines for %d of %d entries (%d lines)" % (len(set(got) & set(want)), len(want), len(rows))
    else:
        for k in want:
            if np.any(np.abs(got[k] - want[k]) > 1e-7 * np.abs(want[k]) + 1e-12):
                bad = "line %s holds %s, the binary table %s" % (k, got[k].tolist(), want[k].tolist())
                break
    rec.mon(mon, not bad, dict(st, file=os.path.basename(path)), "%s: %s" % (os.path.basename(path), bad), st, key=key)


def tree(c, name):
    d = os.path.join(c["dir"], name)
    ign = shutil.ignore_patterns("__pycache__", "output", "*.npz")
    shutil.copytree(common.FRS, os.path.join(d, "find_resistance_scalars"), ignore=ign)
    shutil.copytree(common.SD, os.path.join(d, "stokesian_dynamics"), ignore=ign)
    shutil.copy(c["exe"], os.path.join(d, "find_resistance_scalars", "helen_fortran", "lamb.exe"))
    return d, os.path.join(d, "find_resistance_scalars"), os.path.join(d, "stokesian_dynamics")


def step(frs, script, fake=True):
    cmd = [common.PY, script]
    if fake:
        cmd = [common.PY, "-c", RUNNER % dict(lib=common.VERIF), script]
    return subprocess.run(cmd, cwd=frs, capture_output=True, text=True)


def pipeline(rec, rng, c):
    d, frs, sd = tree(c, "pipe-%d" % c["n"])
    near, mid, ls = np.array(c["near"]), np.array(c["mid"]), np.array(c["lam"])
    st = dict(near=c["near"], mid=c["mid"], lam=c["lam"])
    for f, v in (("values_of_s_dash_nearfield.txt", near), ("values_of_s_dash_midfield.txt", mid), ("values_of_lambda.txt", ls)):
        np.savetxt(os.path.join(frs, f), v, fmt="%.10g")
    for _ in range(2 if c["again"] else 1):
        for name, script in STEPS:
            if _ == 1 and name == "mid":
                continue
            r = step(frs, script, fake=name == "near")
            if not rec.mon("steps", r.returncode == 0, dict(st, step=name, again=_), "%s ended with %s: %s" % (script, r.returncode, r.stderr[-800:]), st):
                return
    try:
        lams = reciprocals(ls)
        s = np.loadtxt(os.path.join(frs, "values_of_s_dash.txt"), ndmin=1)
        full, sub, drag, mtab = [np.load(os.path.join(frs, f)) for f in ("scalars_general_resistance.npy", "scalars_general_resistance_d.npy", "scalars_general_resistance_d_drag.npy", "scalars_general_resistance_midfield.npy")]
    except (OSError, ValueError) as e:
        rec.mon("contents", False, st, "outputs missing: %r" % e, st)
        return
    want_s = np.sort(np.concatenate([near, mid]))
    ok = len(s) == len(want_s) and np.allclose(s, want_s, rtol=0, atol=2e-8)
    rec.mon("separations", ok, st, "values_of_s_dash.txt holds %s, requested %s" % (s, want_s), st)
    shapes = [t.shape for t in (full, sub, drag)]
    if not rec.mon("contents", ok and all(x == (11, 2, len(want_s), len(lams)) for x in shapes), st, "tables of shape %s for %d separations and ratios %s" % (shapes, len(want_s), lams), st) or not ok:
        return
    for i, k in enumerate(want_s):
        m = np.where(np.isclose(mid, k, rtol=0, atol=1e-9))[0]
        for j, lam in enumerate(lams):
            if len(m):
                e, resid = twosphere.dimensionless(float(k), float(lam), 14)
                tol = 2e-2 * (np.abs(e) + 0.01 * min(lam, 1 / lam) ** 3)
                what = "exact"
            else:
                e = np.array([[stand_in(n, g, k - 2, lam) for g in range(2)] for n in NAMES])
                tol = 1e-9 * np.abs(e) + 1e-12
                what = "generated"
            D = np.abs(full[:, :, i, j] - e) - tol
            n, g = np.unravel_index(np.argmax(D), D.shape)
            rec.mon("entries", D.max() <= 0, dict(s=float(k), lam=float(lam), what=what), "s'=%g, ratio %g: %s%s is %.9g, %s value %.9g" % (k, lam, NAMES[n], ("11", "12")[g], full[n, g, i, j], what, e[n, g]), st)
    for i, k in enumerate(mid):
        at = int(np.argmin(np.abs(want_s - k)))
        rec.mon("carried-over", np.array_equal(full[:, :, at], mtab[:, :, i]), dict(st, s=float(k)), "the combined table's entries at s'=%g are not the mid-field ones" % k, st)
    check_subtracted(rec, "subtracted", s, lams, full, sub, st)
    check_subtracted(rec, "subtracted-drag", s, lams, full, drag, st, drag=True)
    check_human(rec, os.path.join(frs, "scalars_general_resistance.txt"), full, want_s, lams, st)
    check_human(rec, os.path.join(frs, "scalars_general_resistance_d.txt"), sub, want_s, lams, st)
    check_human(rec, os.path.join(frs, "scalars_general_resistance_d_drag.txt"), drag, want_s, lams, st)
    check_human(rec, os.path.join(frs, "scalars_general_resistance_midfield.txt"), mtab, mid, lams, st)
    check_human(rec, os.path.join(frs, "scalars_general_resistance_nearfield.txt"), np.load(os.path.join(frs, "scalars_general_resistance_nearfield.npy")), near, lams, st)
    # the last documented step, then what the simulation makes of it.  It looks every particle up against itself, so needs ratio 1 in the list.
    if not np.any(np.isclose(lams, 1)):
        shutil.rmtree(d, ignore_errors=True)
        return
    for f in SHIP + ["scalars_general_resistance_d_drag.npy"]:
        shutil.copy(os.path.join(frs, f), os.path.join(sd, "resistance_scalars", f))
    for mode in ("plain", "drag"):
        pairs = []
        for _ in range(c["lookups"]):
            lam = float(rng.choice(lams))
            ks = want_s[want_s < 3.99]
            i = int(rng.integers(len(ks)))
            k = float(ks[i]) if rng.random() < 0.6 or i + 1 >= len(ks) else float(ks[i] + (ks[i + 1] - ks[i]) * rng.uniform(0.2, 0.8))
            u = rng.normal(size=3)
            pairs.append(dict(lam=lam, s=k, d=(u / np.linalg.norm(u)).tolist(), a=float(rng.choice([1.0, 0.4, 3.0])), mu=float(rng.choice([1.0, 2.0]))))
        f = os.path.join(d, "pairs-%s.json" % mode)
        json.dump(dict(mode=mode, pairs=pairs), open(f, "w"))
        r = subprocess.run([common.PY, os.path.abspath(__file__), "--lookup", f], env=dict(os.environ, VERIF_SD=sd), capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("lookup worker: %s" % r.stderr[-1500:])
        res = json.load(open(f + ".out"))
        F, T = Tab(s, lams, full), Tab(s, lams, sub if mode == "plain" else drag)
        for p, got in zip(pairs, res):
            stp = dict(p, mode=mode)
            if isinstance(got, str):
                rec.mon("lookup", False, stp, "a pair with ratio %g at s'=%g could not be solved with the new tables: %s" % (p["lam"], p["s"], got), dict(st, pair=p))
                continue
            knot = np.any(np.isclose(p["s"], s, rtol=0, atol=1e-12))
            x = np.array([p["s"] * (1 + p["lam"]) / 2, 0, 0])
            R = oracle.pair_resistance(F, x, 1.0, p["lam"]) if knot else oracle.pair_resistance(T, x, 1.0, p["lam"]) + long_range(p["s"], p["lam"], mode == "drag")
            # in the lab frame, for radius a and viscosity mu: compare invariants through the same rotation used by the worker
            got = np.array(got)
            dg = np.sqrt(np.concatenate([np.diag(R[i, i]) for i in range(2)]))
            want = R.transpose(0, 2, 1, 3).reshape(22, 22)
            err = np.abs(got - want) / np.abs(dg[:, None] * dg[None])
            at = np.unravel_index(np.argmax(err), err.shape)
            rec.mon("lookup", err.max() <= 1e-6, stp, "ratio %g, s'=%g (%s): resistance entry %s is %.9g, from the tables %.9g" % (p["lam"], p["s"], mode, at, got[at], want[at]), dict(st, pair=p), err=err.max() / 1e-6)
    shutil.rmtree(d, ignore_errors=True)


def lookup_worker(path):
    c = json.load(open(path))
    drag = c["mode"] == "drag"
    S.load(overrides=dict(use_drag_Minfinity=drag, use_drag_R2Binfinity=drag))
    out = []
    for p in c["pairs"]:
        d, a, lam, mu = np.array(p["d"]), p["a"], p["lam"], p["mu"]
        pd = S.posdata([(a, [0.3, -1, 2]), (a * lam, np.array([0.3, -1, 2]) + d * p["s"] * a * (1 + lam) / 2)], [])
        try:
            R = np.linalg.inv(S.mobility(pd, dict(mu=mu), drag=drag))
        except (S.RepoError, np.linalg.LinAlgError) as e:
            out.append(str(e)[:300])
            continue
        # to unit radius, unit viscosity and the pair along x
        t = np.array([1.0, 0, 0])
        v = t - d
        Q = np.eye(3) - 2 * np.outer(v, v) / (v @ v) if v @ v > 1e-20 else np.eye(3)
        Q = Q @ np.diag([1.0, 1, 1])
        if np.linalg.det(Q) < 0:        # keep it a rotation: reflect once more in a plane containing the x axis
            Q = np.diag([1.0, 1, -1]) @ Q
        Q5 = np.einsum("sij,ia,jb,tab->st", oracle.BAS, Q, Q, oracle.BAS)
        W = np.zeros((22, 22))
        for i in range(2):
            W[11 * i:11 * i + 3, 3 * i:3 * i + 3] = Q
            W[11 * i + 3:11 * i + 6, 6 + 3 * i:9 + 3 * i] = Q / a
            W[11 * i + 6:11 * i + 11, 12 + 5 * i:17 + 5 * i] = Q5 / a
        out.append((W @ R @ W.T / (a * mu)).tolist())
    json.dump(out, open(path + ".out", "w"))


def shipped(rec, rng, c):
    """Tables in the simulation's folder: consistent with themselves and with what the last steps make of the shipped near- and mid-field tables."""
    here = os.path.join(common.SD, "resistance_scalars")
    d, frs, sd = tree(c, "shipped")
    st = dict(table="shipped")
    s, ls = np.loadtxt(os.path.join(here, "values_of_s_dash.txt"), ndmin=1), np.loadtxt(os.path.join(here, "values_of_lambda.txt"), ndmin=1)
    lams = reciprocals(ls)
    full, sub = np.load(os.path.join(here, "scalars_general_resistance.npy")), np.load(os.path.join(here, "scalars_general_resistance_d.npy"))
    rec.mon("separations", np.all(np.diff(s) > 0), st, "shipped separations are not increasing: %s" % s, st)
    if not rec.mon("contents", full.shape == sub.shape == (11, 2, len(s), len(lams)), st, "shipped tables of shape %s, %s" % (full.shape, sub.shape), st):
        return
    check_subtracted(rec, "subtracted", s, lams, full, sub, st)
    check_human(rec, os.path.join(here, "scalars_general_resistance.txt"), full, s, lams, dict(st, folder="simulation"))
    check_human(rec, os.path.join(here, "scalars_general_resistance_d.txt"), sub, s, lams, dict(st, folder="simulation"))
    near, mid = np.loadtxt(os.path.join(frs, "values_of_s_dash_nearfield.txt"), ndmin=1), np.loadtxt(os.path.join(frs, "values_of_s_dash_midfield.txt"), ndmin=1)
    ntab, mtab = np.load(os.path.join(frs, "scalars_general_resistance_nearfield.npy")), np.load(os.path.join(frs, "scalars_general_resistance_midfield.npy"))
    check_human(rec, os.path.join(frs, "scalars_general_resistance_midfield.txt"), mtab, mid, lams, dict(st, folder="generation"))
    check_human(rec, os.path.join(frs, "scalars_general_resistance_nearfield.txt"), ntab, near, lams, dict(st, folder="generation"), key="nearfield-text-one-ratio")
    for name, script in STEPS[2:4]:
        r = step(frs, script, fake=False)
        if not rec.mon("steps", r.returncode == 0, dict(st, step=name), "%s ended with %s: %s" % (script, r.returncode, r.stderr[-800:]), st):
            return
    for f, t in (("scalars_general_resistance.npy", full), ("scalars_general_resistance_d.npy", sub)):
        got = np.load(os.path.join(frs, f))
        ok = got.shape == t.shape and np.allclose(got, t, rtol=1e-7, atol=1e-9)
        rec.mon("shipped", ok, dict(st, file=f), "%s made from the shipped near- and mid-field tables is not the simulation's" % f, st)
    rec.mon("shipped", np.allclose(np.loadtxt(os.path.join(frs, "values_of_s_dash.txt")), s, atol=1e-8), dict(st, file="values_of_s_dash.txt"), "list of separations made by the steps is not the simulation's", st)
    # against the exact solution
    for i, k in enumerate(s):
        for j, lam in enumerate(lams):
            sm = min(lam, 1 / lam)
            if k < 2.15 or (sm < 0.05 and k < 2.45):
                continue
            e, resid = twosphere.dimensionless(float(k), float(lam), 20 if sm < 0.2 else 14)
            tol = 3e-3 if k < 2.5 or sm < 0.1 else 3e-4
            D = np.abs(full[:, :, i, j] - e) / (np.abs(e) + 1e-2 * sm ** 3)
            n, g = np.unravel_index(np.argmax(D), D.shape)
            rec.mon("shipped-exact", D.max() <= tol, dict(st, s=float(k), lam=float(lam)), "shipped %s%s at s'=%g, ratio %g is %.9g, exact %.9g" % (NAMES[n], ("11", "12")[g], k, lam, full[n, g, i, j], e[n, g]), dict(st, s=float(k), lam=float(lam)), err=D.max() / tol)
    shutil.rmtree(d, ignore_errors=True)


def shipped_near(rec, rng, c):
    """Shipped near-field entries against the formulas of the current tree."""
    sys.path.insert(0, common.FRS)
    import functions_nearfield as fn
    name = c["name"]
    n = NAMES.index(name)
    here = os.path.join(common.SD, "resistance_scalars")
    s = np.loadtxt(os.path.join(here, "values_of_s_dash.txt"), ndmin=1)
    lams = reciprocals(np.loadtxt(os.path.join(here, "values_of_lambda.txt"), ndmin=1))
    near = np.loadtxt(os.path.join(common.FRS, "values_of_s_dash_nearfield.txt"), ndmin=1)
    full = np.load(os.path.join(here, "scalars_general_resistance.npy"))
    for k in near:
        i = int(np.argmin(np.abs(s - k)))
        for j, lam in enumerate(lams):
            for g in range(2):
                want = float(getattr(fn, name[0] + ("11", "12")[g] + name[1])(float(k) - 2, float(lam)))
                got = full[n, g, i, j]
                rec.mon("shipped-near", abs(got - want) <= 1e-7 * abs(want) + 1e-10, dict(name=name, g=g, s=float(k), lam=float(lam)), "shipped %s%s at s'=%g, ratio %g is %.10g, the formula gives %.10g" % (
                    name, ("11", "12")[g], k, lam, got, want), dict(name=name, s=float(k), lam=float(lam)))


def shipped_mid(rec, rng, c):
    """Shipped mid-field entries against a fresh run of the mid-field step."""
    d, frs, sd = tree(c, "fresh-%d" % c["n"])
    mtab = np.load(os.path.join(frs, "scalars_general_resistance_midfield.npy"))
    mid = np.loadtxt(os.path.join(frs, "values_of_s_dash_midfield.txt"), ndmin=1)
    ls = np.loadtxt(os.path.join(frs, "values_of_lambda.txt"), ndmin=1)
    lams = reciprocals(ls)
    use = np.array(c["s"])
    np.savetxt(os.path.join(frs, "values_of_s_dash_midfield.txt"), use)
    st = dict(s=c["s"])
    r = step(frs, STEPS[0][1], fake=False)
    if not rec.mon("steps", r.returncode == 0, dict(st, step="mid"), "mid-field step ended with %s: %s" % (r.returncode, r.stderr[-800:]), st):
        return
    new = np.load(os.path.join(frs, "scalars_general_resistance_midfield.npy"))
    for i, k in enumerate(use):
        at = int(np.argmin(np.abs(mid - k)))
        for j, lam in enumerate(lams):
            a, b = new[:, :, i, j], mtab[:, :, at, j]
            err = np.abs(a - b) / (np.abs(b) + 1e-3 * min(lam, 1 / lam) ** 3)
            n, g = np.unravel_index(np.argmax(err), err.shape)
            rec.mon("shipped-mid", err.max() <= 1e-5, dict(s=float(k), lam=float(lam)), "%s%s at s'=%g, ratio %g: the step now gives %.10g, shipped is %.10g" % (NAMES[n], ("11", "12")[g], k, lam, a[n, g], b[n, g]), st, err=err.max() / 1e-5)
    shutil.rmtree(d, ignore_errors=True)


def dispatch(rec, rng, c):
    globals()[c["kind"]](rec, rng, c)


def body(chk):
    chk.monitor("steps", "every documented step completes", 20)
    chk.monitor("separations", "the combined list holds every requested separation, sorted", 4)
    chk.monitor("contents", "one entry per separation, ratio and reciprocal", 4)
    chk.monitor("entries", "each entry is the generator's value for its separation and ratio", 40)
    chk.monitor("carried-over", "combined entries are the mid-field step's", 8)
    chk.monitor("subtracted", "full minus subtracted table is the two-sphere long-range resistance", 60)
    chk.monitor("subtracted-drag", "full minus drag-subtracted table is the self-resistance", 30)
    chk.monitor("human", "text tables equal binary ones, once, under the right headings", 12)
    chk.monitor("lookup", "a pair solved with the new tables has the resistance the tables hold", 20)
    chk.monitor("shipped", "the simulation's tables are those the last steps make", 3)
    chk.monitor("shipped-exact", "shipped mid-field entries equal the exact solution", 50)
    chk.monitor("shipped-near", "shipped near-field entries equal the formulas", 500)
    chk.monitor("shipped-mid", "shipped mid-field entries equal a fresh run of the step", 15)
    th = common.THOROUGH
    rng = chk.rng
    exe = lamb.build(chk.scratch, ["plain"])["plain"]
    base = dict(dir=chk.scratch, exe=exe)
    jobs = []
    if th:
        jobs += [dict(base, kind="shipped_near", name="ZM")]
    jobs += [dict(base, kind="shipped_near", name=n) for n in ("YM", "YC", "YB", "YA", "YG", "YH", "XA", "XG", "XM", "XC")]
    jobs += [dict(base, kind="shipped")]
    sh = [float(x) for x in np.loadtxt(os.path.join(common.FRS, "values_of_s_dash_midfield.txt"), ndmin=1) if x > 2.35]
    pick = sh if th else [float(x) for x in rng.permutation(sh)[:6]]
    jobs += [dict(base, kind="shipped_mid", n=i, s=pick[2 * i:2 * i + 2]) for i in range((len(pick) + 1) // 2)]
    r4 = lambda lo, hi, k: [float(x) for x in np.round(rng.uniform(lo, hi, k), 4)]
    lists = [([2.001, 2.01], [2.5, 3.0], [1.0]),
             ([2.02, 2.0005, 2.6], [3.5, 2.4, 2.8], [0.5, 1.0]),                 # unsorted, interleaving
             ([2.0001, 2.005, 2.01], [2.5, 4.5], [1.0, 0.1, 0.25]),
             (r4(2.001, 2.03, 3), r4(2.3, 3.9, 2) + [4.2], [1.0, float(np.round(rng.uniform(0.15, 0.95), 3))]),
             ([2.01], [3.0], [0.2])]
    if th:
        lists += [(r4(2.001, 2.5, int(rng.integers(1, 5))), r4(2.2, 5, int(rng.integers(1, 5))), [float(x) for x in np.round(rng.uniform(0.1, 1, int(rng.integers(1, 4))), 3)] + [1.0] * (i % 4 > 0)) for i in range(15)]
    jobs += [dict(base, kind="pipeline", n=i, near=a, mid=b, lam=l, again=i % 2 == 0, lookups=12 if th else 5) for i, (a, b, l) in enumerate(lists)]
    par.run_cases(chk, os.path.abspath(__file__), "dispatch", jobs, workers=8)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--lookup"]:
        lookup_worker(sys.argv[2])
    else:
        common.main(body, common.Check("P22", rule="a case is one table entry, pair or step of one run of the pipeline; distinct = different list, entry or pair", budget_s=None if common.THOROUGH else 600))
