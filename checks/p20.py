"""P20 compiled and interpreted code agree; the compiled code stays inside its arrays.

The same cases are computed by three sets of processes: interpreted (all compilation disabled), compiled, and compiled with
array bounds checks.  Fresh memory is filled with a different byte pattern in each (MALLOC_PERTURB_), so that a value read
before it was written shows up as a difference.
"""
import os
import pickle
import shutil
import subprocess
import sys
import time

import numpy as np

from lib import common, drive, gen, loads, oracle, runs
from lib import solver as S

OUTS = ("Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HDUb", "Minv", "wall")
MODES = dict(interpreted=dict(NUMBA_DISABLE_JIT="1", MALLOC_PERTURB_="90"), compiled=dict(MALLOC_PERTURB_="165"),
             checked=dict(NUMBA_BOUNDSCHECK="1", MALLOC_PERTURB_="60"))
FARS = (1, 2)


# ------------------------------------------------------------------------------------------------ cases (computed in the workers)
def knots():
    with open(os.path.join(common.DATA, "values_of_s_dash.txt")) as f:
        return [float(v) for v in f.read().split()]


def layout(pd, how):
    """The same particles in arrays of another element type or memory layout."""
    if how == "integer":
        return tuple(np.asarray(a).astype(int) if k in (0, 1) and np.array_equal(a, np.round(a)) else a for k, a in enumerate(pd))
    if how == "fortran":
        return tuple(np.asfortranarray(a) for a in pd)
    if how == "strided":
        return tuple(np.repeat(a, 2, axis=0)[::2] for a in pd)
    if how == "readonly":
        out = tuple(a.copy() for a in pd)
        for a in out:
            a.flags.writeable = False
        return out
    return pd


def loading(rng, form, ns, nd, base):
    s = dict(base)
    E = [S.random_strain(rng) for _ in range(ns)]
    v = lambda n: [rng.normal(size=3) for _ in range(n)]
    k, m = int(rng.integers(0, ns + 1)), int(rng.integers(0, nd + 1))
    s["Fa"], s["Ta"], s["Fb"], s["DFb"] = v(ns), v(ns), v(nd), v(nd)
    s["Sa" if form == "fts" else "Ea"] = E
    if form in ("ufte", "ufteu"):
        s["Ua"] = v(k) + [None] * (ns - k)
        s["Fa"] = [None] * k + s["Fa"][k:]
    if form in ("ufteu", "duf"):
        s["Ub"], s["HDUb"] = v(m) + [None] * (nd - m), v(m) + [None] * (nd - m)
        s["Fb"], s["DFb"] = [None] * m + s["Fb"][m:], [None] * m + s["DFb"][m:]
    if form == "duf":
        for q in ("Fa", "Ta", "Ea"):
            s.pop(q)
    s["Uinf"], s["Oinf"], s["centre"] = rng.normal(size=3), rng.normal(size=3), rng.normal(size=3)
    return s


SIZES = [((1.0,), (1.0,)), ((1.0,), (0.1,)), ((1.0, 0.1), (0.1,)), ((10.0, 1.0), (1.0,)), ((1.0, 0.1, 10.0), (1.0,)), ((1.0, 0.01), (0.01,))]


def solve_case(rng, c):
    ns, nd = c["ns"], c["nd"]
    base = dict(mu=float(rng.choice([1.0, 0.4, 3.0])))
    sizes, beads = SIZES[int(rng.integers(2 if c["periodic"] else len(SIZES)))]
    image = box = None
    if c["periodic"]:
        L = rng.uniform(8, 10, 3)
        B = np.diag(L)
        base.update(box_bl=-L / 2, box_tr=L / 2)
        if rng.random() < 0.5:
            g = float(rng.uniform(-0.8, 0.8))
            base.update(Ot=np.array([0, g / 2, 0]), Et=np.array([[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]]))
            B[2, 0] += g * L[2]
        image, box = oracle.nearest_image(B), (-L / 2, L / 2)
    if c["place"] == "pair":
        # scaled separations on and around the tabulated ones, at the ends of the table, at the cut-off and far away
        k = knots()
        s = float(rng.choice([rng.choice(k), rng.choice(k) + rng.choice([-1, 1]) * 1e-9, k[0], k[-1], 4.0, 3.9999999, 2.0201, 2.02, 2.0003, 60.0, 300.0]))
        a = [float(rng.choice(sizes)) for _ in range(2)]
        x = [np.zeros(3), max(s, 2.0001) * (a[0] + a[1]) / 2 * gen.unit(rng)]
        if nd:
            pd = S.posdata([], [(a[0], x[1] / 2, x[1])])
            ns = 0
        else:
            pd = S.posdata(list(zip(a, x)))
            ns = 2
        nd = len(pd[3])
    elif c["layout"] == "integer":
        pts = [np.array(p, float) for p in np.ndindex(3, 3, 3)]
        p = [3.0 * (pts[i] - 1) for i in rng.permutation(27)[:ns + nd]]
        pd = S.posdata([(1.0, x) for x in p[:ns]], [(0.1, x, 2 * rng.uniform(0.3, 0.8) * gen.unit(rng)) for x in p[ns:]])
    else:
        pd = gen.config(rng, ns, nd, sizes, beads, gap=2.003 if rng.random() < 0.4 else 2.06, image=image, box=box)
    forms = ["fts", "duf"] if ns == 0 else ["fts", "fte", "ufte"] + (["ufteu"] if nd else [])
    form = c.get("form") or forms[int(rng.integers(len(forms)))]
    spec = loading(rng, form, ns, nd, base)
    kw = dict(form=form, minf_only=bool(rng.random() < 0.25), drag=bool(rng.random() < 0.15), cutoff=float(rng.choice([2, 1.5, 3])),
              frameno=int(rng.integers(0, 5)), timestep=0.1, extract=bool(form == "ufte" and nd and rng.random() < 0.7))
    o = S.solve(layout(pd, c["layout"]), spec, **kw)
    res = {k: np.asarray(o[k], float) for k in OUTS}
    if rng.random() < 0.4:  # the stored matrix used again by another solve
        kw["extract"] = False
        o = S.solve(layout(pd, c["layout"]), loading(rng, form, ns, nd, base), Minv=o["Minv"], regen=False, **kw)
        res.update({"again-" + k: np.asarray(o[k], float) for k in OUTS})
    a, X = gen.beads(pd)
    return res, dict(form=form, conf=gen.describe(pd), kw=kw, periodic=c["periodic"], layout=c["layout"])


def run_case(rng, c, jit):
    if c.get("setup"):
        r = runs.Run(None, setup=c["setup"], number=c["input"], form=c["form"], dt=0.05, frames=c["frames"], settings=c.get("settings"))
    else:
        per = c["periodic"]
        r = runs.random_run(rng, c["ns"], c["nd"], c["scheme"], c["form"], periodic=per, frames=c["frames"], every=c["every"], sizes=(1.0,) if per else (1.0, 0.1), beads=(0.1,),
                            flat=c.get("flat", False), settings=dict(how_far_to_reproduce_gridpoints=1))
    r.jit = jit
    try:
        r.go(np_seed=c["seed"] % 1000, timeout=1200)
        if r.failure():
            return dict(error=r.failure()), r.describe()
        d = r.data()
        return {k: np.asarray(v, float) for k, v in d.items() if np.asarray(v).dtype.kind in "fi"}, r.describe()
    finally:
        r.clean()


def worker(mode, far, casefile, out):
    import numba
    with open(casefile, "rb") as f:
        cases = pickle.load(f)
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    jit = mode != "interpreted"
    S.load(jit=jit, overrides=dict(how_far_to_reproduce_gridpoints=far))
    end = time.time() + float(os.environ["P20_SECONDS"])
    n = 0
    with open(out, "wb") as f:
        for i, c in cases:
            if time.time() > end:
                break
            rng = np.random.default_rng([c["seed"], i])
            try:
                if c["kind"] == "solve":
                    res, st = solve_case(rng, c)
                else:
                    res, st = run_case(rng, c, jit)
            except S.RepoError as e:
                res, st = dict(error=str(e)[:1500]), dict(case=c)
            pickle.dump((i, res, st), f)
            n += 1
        disp = [v for m in list(sys.modules.values()) if str(getattr(m, "__file__", "") or "").startswith(S.load()["sd"]) for v in list(vars(m).values())
                if isinstance(v, numba.core.dispatcher.Dispatcher)]
        disp = {id(d): d for d in disp}.values()
        pickle.dump(("end", n, dict(functions=len(disp), used=sum(1 for d in disp if d.signatures), signatures=sum(len(d.signatures) for d in disp),
                                    idle=sorted(d.__name__ for d in disp if not d.signatures))), f)
    sys.stdout = real


# ------------------------------------------------------------------------------------------------ parent
def read(path):
    """Results written so far and the closing record."""
    out, end = {}, None
    try:
        with open(path, "rb") as f:
            while True:
                i, a, b = pickle.load(f)
                if i == "end":
                    end = (a, b)
                else:
                    out[i] = (a, b)
    except (EOFError, OSError, pickle.UnpicklingError):
        pass
    return out, end


def make_cases(rng, th):
    sols, runs_, far2 = [], [], []
    seed = lambda: int(rng.integers(1 << 30))
    n = 5 if th else 1
    for rep in range(n):
        for ns, nd in ((1, 0), (2, 0), (3, 0), (6, 0), (12, 0), (0, 1), (0, 2), (0, 4), (1, 1), (2, 1), (1, 2), (3, 3), (2, 6)):
            for how in ("plain", "integer", "fortran", "strided", "readonly", "plain"):
                if how == "integer" and ns == 0:
                    continue
                sols.append(dict(kind="solve", ns=ns, nd=nd, periodic=False, layout=how, place="any", seed=seed()))
            for form in ["fts", "duf"] if ns == 0 else ["fts", "fte", "ufte"] + (["ufteu"] if nd else []):
                sols.append(dict(kind="solve", ns=ns, nd=nd, periodic=False, layout="plain", place="any", form=form, seed=seed()))
        for _ in range(40):
            sols.append(dict(kind="solve", ns=2, nd=0, periodic=False, layout="plain", place="pair", seed=seed()))
        for _ in range(10):
            sols.append(dict(kind="solve", ns=0, nd=1, periodic=False, layout="plain", place="pair", seed=seed()))
        for ns, nd in ((1, 0), (2, 0), (4, 0), (0, 1), (0, 2), (1, 1), (2, 2), (3, 1)):
            for how in ("plain", "integer", "plain"):
                if how == "integer" and ns == 0:
                    continue
                sols.append(dict(kind="solve", ns=ns, nd=nd, periodic=True, layout=how, place="any", seed=seed()))
        for scheme, form, ns, nd, per, every in (("euler", "fte", 2, 1, False, 1), ("ab2", "fte", 3, 0, False, 2), ("rk4", "fte", 2, 1, False, 1), ("rk4", "fte", 2, 0, False, 3),
                                                 ("euler", "fts", 0, 2, False, 1), ("ab2", "ufte", 2, 2, False, 1), ("euler", "ufteu", 2, 2, False, 1), ("rk4", "duf", 0, 2, False, 1),
                                                 ("euler", "fte", 2, 0, True, 1), ("ab2", "fte", 1, 1, True, 2)):
            runs_.append(dict(kind="run", scheme=scheme, form=form, ns=ns, nd=nd, periodic=per, every=every, frames=3, seed=seed()))
        runs_.append(dict(kind="run", scheme="euler", form="fte", ns=3, nd=0, periodic=False, every=1, frames=3, flat=True, seed=seed()))
    for s, i, form, st in ((1, 1, "fte", {}), (2, 1, "fte", dict(timestepping_scheme="ab2")), (4, 4, "fte", {}), (4, 3, "fte", dict(timestepping_scheme="rk4")), (4, 1, "fts", {}),
                           (4, 7, "fte", {}), (4, 4, "fte", dict(bead_bead_interactions=False))):
        runs_.append(dict(kind="run", setup=s, input=i, form=form, frames=2, settings=st, seed=seed()))
    if th:
        for s, i, form, st in ((3, 2, "fte", {}), (5, 5, "ufte", {}), (7, 6, "ufte", {})):
            runs_.append(dict(kind="run", setup=s, input=i, form=form, frames=2, settings=st, seed=seed()))
    for ns, nd in ((1, 0), (2, 0), (1, 1), (0, 2)) * (4 if th else 1):
        far2.append(dict(kind="solve", ns=ns, nd=nd, periodic=True, layout="plain", place="any", seed=seed()))
    return sols, runs_, far2


def body(chk):
    th = common.THOROUGH
    chk.monitor("same-outcome", "a solve or run that completes interpreted also completes compiled", 100)
    chk.monitor("same-result", "every quantity a solve returns is the same interpreted and compiled, up to rounding", 1000)
    chk.monitor("same-run", "every array a run saves is the same interpreted and compiled, up to rounding", 60)
    chk.monitor("in-range", "no compiled code indexes outside an array (bounds checks on)", 100)
    chk.monitor("really-compiled", "the compiled processes executed compiled code", 2)
    sols, runs_, far2 = make_cases(chk.rng, th)
    allc = list(enumerate(sols + runs_ + far2))
    groups = {1: allc[:len(sols) + len(runs_)], 2: allc[len(sols) + len(runs_):]}
    jobs = []
    secs = chk.time_left() - 60
    for mode, env in MODES.items():
        for far in FARS:
            split = (5 if far == 1 else 1) if mode == "interpreted" else 1
            nb = os.path.join(chk.scratch, "nb-%s-%d" % (mode, far))
            for k in range(split):
                part = groups[far][k::split]
                cf, out = (os.path.join(chk.scratch, "%s-%d-%d.%s" % (mode, far, k, e)) for e in ("in", "out"))
                with open(cf, "wb") as f:
                    pickle.dump(part, f)
                e = dict(os.environ, NUMBA_CACHE_DIR=nb, P20_SECONDS=str(secs), PYTHONPATH=common.VERIF, **env)
                jobs.append((mode, far, out, subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", mode, str(far), cf, out], env=e, stderr=open(out + ".err", "w"))))
    res = {m: {} for m in MODES}
    crashed = {}
    for mode, far, out, p in jobs:
        try:
            p.wait(max(1, chk.time_left() + 100))
        except subprocess.TimeoutExpired:
            p.kill()
            chk.notes.append("%s worker ran out of time" % mode)
        got, end = read(out)
        res[mode].update(got)
        if end is None:
            err = open(out + ".err").read()[-1500:]
            crashed.setdefault(mode, []).append((far, p.returncode, len(got), err))
            chk.notes.append("%s worker ended with %s after %d cases: %s" % (mode, p.returncode, len(got), err))
        elif mode != "interpreted" and far == 1:
            n, info = end
            chk.mon("really-compiled", info["used"] > 0 and info["signatures"] > 0, dict(mode=mode), "no function was compiled", sample=info)
            chk.extra["compiled_%s" % mode] = info
        elif mode == "interpreted" and far == 1:
            chk.extra["compiled_interpreted"] = max(chk.extra.get("compiled_interpreted", 0), end[1]["used"])
    ref = res["interpreted"]
    for mode, cr in crashed.items():
        for far, rc, n, err in cr:
            if mode != "interpreted" and rc is not None and rc < 0 and rc not in (-9, -15):
                chk.mon("in-range", False, dict(mode=mode, far=far), "the %s process was ended by signal %d after %d cases: %s" % (mode, -rc, n, err), dict(mode=mode, after=n))
    bad = 0
    for i, c in allc:
        if i not in ref:
            continue
        a, st = ref[i]
        rp = dict(case=c, index=i, state=st)
        for mode in ("compiled", "checked"):
            if i not in res[mode]:
                continue
            b, _ = res[mode][i]
            err = b.get("error", "")
            if mode == "checked":
                chk.mon("in-range", "IndexError" not in err and "out of bounds" not in err, dict(mode=mode, case=c), "compiled code with bounds checks: %s" % err, rp)
            if "error" in a:
                bad += 1
                if "error" not in b and "run" != c["kind"]:
                    chk.mon("same-outcome", False, dict(mode=mode, case=c), "fails interpreted (%s) but not %s" % (a["error"], mode), rp)
                continue
            chk.mon("same-outcome", not err, dict(mode=mode, case=c), "completes interpreted but %s: %s" % (mode, err), rp)
            if err:
                continue
            name = "same-result" if c["kind"] == "solve" else "same-run"
            if set(a) != set(b):
                chk.mon(name, False, dict(mode=mode, case=c), "different quantities: %s" % sorted(set(a) ^ set(b)), rp)
                continue
            for k in a:
                x, y = a[k], b[k]
                if x.shape != y.shape:
                    chk.mon(name, False, dict(mode=mode, case=c, k=k), "%s has shape %s interpreted and %s %s" % (k, x.shape, y.shape, mode), rp)
                    continue
                if not x.size:
                    continue
                fx, fy = np.isfinite(x), np.isfinite(y)
                if not np.array_equal(fx, fy):
                    chk.mon(name, False, dict(mode=mode, case=c, k=k), "%s: %d values are not finite interpreted, %d %s" % (k, (~fx).sum(), (~fy).sum(), mode), rp)
                    continue
                sc = max(np.max(np.abs(x[fx]), initial=0.0), 1e-3 if c["kind"] == "run" else 0.0)
                e = np.max(np.abs(x[fx] - y[fx]), initial=0.0)
                tol = 1e-7 if c["kind"] == "solve" else 1e-6
                chk.mon(name, bool(e <= tol * sc), dict(mode=mode, case=c, k=k), "%s differs by %.3g (of %.3g) between interpreted and %s" % (k, e, sc, mode), rp, err=e / sc if sc else 0.0)
    chk.extra.update(cases=len(allc), interpreted_done=len(ref), compiled_done=len(res["compiled"]), checked_done=len(res["checked"]), failing_in_both=bad)
    if bad > 0.1 * max(len(ref), 1):
        chk.notes.append("%d comparisons were not possible because the interpreted code failed" % bad)
    chk.extra["failures_interpreted"] = sorted({v[0]["error"][:200] for v in ref.values() if "error" in v[0]})[:10]


if __name__ == "__main__":
    if sys.argv[1:2] == ["--worker"]:
        worker(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5])
    else:
        common.main(body, common.Check("P20", budget_s=None if common.THOROUGH else 650, rule="a state is one case (particles, loading, options, memory layout) and one quantity"))
