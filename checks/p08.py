"""P08 a solve depends only on its arguments and leaves them untouched."""
import copy
import os
import numpy as np
from lib import common, gen, oracle, par
from lib import solver as S

OUTS = ("Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HDUb", "Uinf", "Oinf", "centre", "Ot", "Et", "wall")


def snap(x):
    """Structure-preserving copy used to compare before and after."""
    return copy.deepcopy(x)


def same(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        return x.shape == y.shape and x.dtype == y.dtype and bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f"))
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
    return type(x) is type(y) and x == y


def loading(rng, form, pd, base):
    ns, nd = len(pd[0]), len(pd[3])
    s = dict(base)
    E = [S.random_strain(rng) for _ in range(ns)]
    v = lambda n: [rng.normal(size=3) for _ in range(n)]
    k = int(rng.integers(0, ns + 1))
    m = int(rng.integers(0, nd + 1))
    s["Fa"], s["Ta"], s["Fb"], s["DFb"] = v(ns), v(ns), v(nd), v(nd)
    if form == "fts":
        s["Sa"] = E
    else:
        s["Ea"] = E
    if form in ("ufte", "ufteu"):
        s["Ua"] = v(k) + [None] * (ns - k)
        s["Fa"] = [None] * k + s["Fa"][k:]
    if form in ("ufteu", "duf"):
        s["Ub"], s["HDUb"] = v(m) + [None] * (nd - m), v(m) + [None] * (nd - m)
        s["Fb"], s["DFb"] = [None] * m + s["Fb"][m:], [None] * m + s["DFb"][m:]
    if form == "duf":
        for q in ("Fa", "Ta", "Ea"):
            s.pop(q)
    s["Uinf"], s["Oinf"], s["centre"] = rng.normal(size=3), rng.normal(size=3), rng.normal(size=3)
    return s


def problem(rng, c):
    ns, nd = c["ns"], c["nd"]
    mu = float(rng.choice([1.0, 0.4, 3.0]))
    base = dict(mu=mu)
    sizes, beads = [((1.0,), (1.0,)), ((1.0, 0.1), (0.1,)), ((10.0, 1.0), (1.0,))][int(rng.integers(3 if not c["periodic"] else 2))]
    image = box = None
    if c["periodic"]:
        L = rng.uniform(8, 10, 3)
        base.update(box_bl=-L / 2, box_tr=L / 2)
        if rng.random() < 0.5:
            g = float(rng.uniform(-0.8, 0.8))
            base.update(Ot=np.array([0, g / 2, 0]), Et=np.array([[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]]))
            B = np.diag(L)
            B[2, 0] += g * L[2]
        else:
            B = np.diag(L)
        image, box = oracle.nearest_image(B), (-L / 2, L / 2)
    pd = gen.config(rng, ns, nd, sizes, beads, gap=2.06, image=image, box=box)
    forms = ["fts", "duf"] if ns == 0 else ["fts", "fte", "ufte"] + (["ufteu"] if nd else [])
    form = forms[int(rng.integers(len(forms)))]
    spec = loading(rng, form, pd, base)
    kw = dict(form=form, minf_only=bool(rng.random() < 0.3), drag=bool(rng.random() < 0.15), cutoff=float(rng.choice([2, 1.5, 3])),
              frameno=int(rng.integers(0, 5)), timestep=0.1, extract=bool(form == "ufte" and nd and rng.random() < 0.5))
    return pd, spec, kw


def call(pd, spec, kw, Minv, regen, printout=0):
    """One raw solve keeping hold of every argument object handed over."""
    m = S.load()
    ns, nd = len(pd[0]), len(pd[3])
    n = S.register(spec)
    lv = [np.full((ns, 3), 0.7), np.full((nd, 3), -0.3), np.full((nd, 3), 0.2), np.full((ns, 3), 0.1)]
    lvv = [float(i) for i in range(11 * ns + 6 * nd)]
    args = dict(pd=pd, Minv=Minv, lv=lv, lvv=lvv, spec=spec)
    before = snap(args)
    try:
        res = m["ts"].generate_output_FTSUOE(pd, kw["frameno"], kw["timestep"], n, Minv, regen, kw["form"], kw["cutoff"], printout, kw["drag"], kw["minf_only"],
                                             kw["extract"], lv, lvv)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        raise S.RepoError(e) from e
    finally:
        S.REG.pop(n, None)
    changed = [k for k in args if not same(args[k] if k != "spec" else canon(spec), before[k] if k != "spec" else canon(before["spec"]))]
    out = dict(zip(S.OUT, res))
    return out, changed


def canon(spec):
    return [[k, [None if r is None else np.asarray(r, float) for r in v] if isinstance(v, list) else v] for k, v in sorted(spec.items())]


def arr(x):
    try:
        return np.asarray(x, float)
    except (ValueError, TypeError) as e:
        raise S.Malformed(e) from e


def differs(a, b, tol=0.0):
    for k in OUTS + ("Minv",):
        x, y = arr(a[k]), arr(b[k])
        if x.shape != y.shape:
            return "%s has shape %s then %s" % (k, x.shape, y.shape)
        if x.size and not np.max(np.abs(x - y)) <= tol * max(np.max(np.abs(x)), 1e-300):
            return "%s differs by %.3g" % (k, np.max(np.abs(x - y)))
    return None


def case(rec, rng, c):
    pd, spec, kw = problem(rng, c)
    st = dict(case=c, conf=gen.describe(pd), kw=kw)
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], spec={k: v for k, v in spec.items()}, kw=kw)
    try:
        o1, ch = call(pd, spec, kw, np.array([0]), True)
        rec.mon("arguments-untouched", not ch, st, "the solve changed its arguments: %s" % ch, rp)
        keep = snap(o1)
        # something else in between
        for _ in range(2):
            pd2, spec2, kw2 = problem(rng, dict(c, periodic=bool(rng.random() < 0.15)))
            call(pd2, spec2, kw2, np.array([0]), True)
        d = differs(keep, o1)
        rec.mon("answers-not-shared", d is None, st, "an answer already handed out changed during a later solve: %s" % d, rp)
        o2, ch = call(pd, spec, kw, np.array([0]), True)
        d = differs(o1, o2, 1e-12)
        rec.mon("repeatable", d is None, st, "the same solve gave another answer after other solves: %s" % d, rp)
        # irrelevant stored matrix when refreshing
        n = arr(o1["Minv"]).shape[0]
        junk = rng.normal(size=(n, n))
        o3, ch = call(pd, spec, kw, junk, True)
        d = differs(o1, o3, 1e-12)
        rec.mon("refresh-ignores-stored", d is None, st, "a refreshing solve depends on the stored matrix handed to it: %s" % d, rp)
        rec.mon("arguments-untouched", not ch, dict(st, junk=1), "the refreshing solve changed its arguments: %s" % ch, rp)
        # reuse of the stored matrix: same positions
        Minv = snap(o1["Minv"])
        o4, ch = call(pd, spec, kw, Minv, False)
        d = differs(o1, o4, 1e-12)
        rec.mon("reuse-same", d is None, st, "reusing the matrix just made gives another answer: %s" % d, rp)
        rec.mon("arguments-untouched", not ch, dict(st, reuse=1), "the reusing solve changed its arguments: %s" % ch, rp)
        rec.mon("stored-handed-back", same(arr(o4["Minv"]), arr(o1["Minv"])), st, "the stored matrix is not handed back unchanged", rp)
        # reuse of a distinguishable stored matrix: the response is that matrix plus the current short-range part
        if not kw["drag"] and kw["form"] == "fts":
            n = arr(o1["Minv"]).shape[0]
            ns, nd = len(pd[0]), len(pd[3])
            al = float(rng.uniform(0.5, 0.9))
            D = arr(o1["Minv"]) * al + np.diag(np.abs(np.diag(arr(o1["Minv"]))) * rng.uniform(0.2, 0.5, n))
            D = (D + D.T) / 2
            o5, ch = call(pd, spec, kw, D, False)
            rec.mon("stored-handed-back", same(arr(o5["Minv"]), D), dict(st, mod=1), "the stored matrix is not handed back unchanged", rp)
            # R(D) u5 = f and R(M) u1 = f with R(X) = X + R2B  =>  D u5 + (R2B) u5 = f; R2B obtained from minf_only difference
            f = np.concatenate([arr(spec["Fa"]).ravel(), arr(spec["Ta"]).ravel(), np.array([S.condense(e) for e in spec["Sa"]]).ravel(), arr(spec["Fb"]).ravel(), arr(spec["DFb"]).ravel()])
            v5 = vel(o5, ns, nd)
            base = {k: spec[k] for k in ("mu", "box_bl", "box_tr", "Ot", "Et") if k in spec}
            if kw["minf_only"]:
                R2 = np.zeros((n, n))
            else:
                full = S.mobility(pd, base, cutoff=kw["cutoff"], frameno=kw["frameno"])
                R2 = np.linalg.inv(full) - arr(o1["Minv"])
            res = (D + R2) @ v5 - f
            e = np.max(np.abs(res) / (np.abs(D + R2) @ np.abs(v5) + np.abs(f)))
            rec.mon("reuse-exactly-that-matrix", e < 1e-8, st, "with a given stored matrix the answer is not the one of that matrix plus the short-range part (residual %.3g)" % e, rp, err=e)
        # diagnostics printing must not influence the answer
        o6, ch = call(pd, spec, kw, np.array([0]), True, printout=1)
        d = differs(o1, o6, 1e-12)
        rec.mon("printout-no-effect", d is None, st, "printing diagnostics changes the answer: %s" % d, rp)
    except S.RepoError as e:
        rec.mon("repeatable", False, st, "solve failed: %s" % e, rp)
        return


def vel(o, ns, nd):
    E = arr(o["Ea"]).reshape(ns, 3, 3) if ns else np.zeros((0, 3, 3))
    return np.concatenate([arr(o["Ua"]).ravel(), arr(o["Oa"]).ravel(), np.array([S.condense(e) for e in E]).ravel(), arr(o["Ub"]).ravel(), arr(o["HDUb"]).ravel()])


def provided(rec, rng, c):
    """The provided inputs (not injected): repeatable and non-mutating, also through the input function itself."""
    m = S.load()
    from functools import partial
    n = c["input"]
    ns, nd = c["ns"], c["nd"]
    pd = gen.config(rng, ns, nd, (1.0,), (0.1,), gap=2.03, box=((-4, -4, -4), (4, 4, 4)))
    for fr in (0, 3):
        st = dict(c, fr=fr, conf=gen.describe(pd))
        before = snap(pd)
        z = np.zeros((ns, 3))
        lv = [z, np.zeros((nd, 3)), np.zeros((nd, 3)), z.copy()]
        lv0 = snap(lv)
        run = partial(m["ts"].generate_output_FTSUOE, pd, fr, 0.1, n, np.array([0]), True, c["form"], 2, 0, False, False, False)
        try:
            a = dict(zip(S.OUT, run(lv, [0] * (11 * ns + 6 * nd))))
            b = dict(zip(S.OUT, run(lv, [0] * (11 * ns + 6 * nd))))
        except BaseException as e:
            rec.mon("repeatable", False, st, "solve failed: %s: %s" % (type(e).__name__, e), st)
            return
        rec.mon("arguments-untouched", same(pd, before) and same(lv, lv0), st, "the solve changed its arguments", st)
        d = differs(a, b, 1e-12)
        rec.mon("repeatable", d is None, st, "the same solve gave another answer: %s" % d, st)


def body(chk):
    for name, rule, need in (("arguments-untouched", "positions, sizes, orientations, previous velocities, stored matrix and loading handed to a solve are bit-identical afterwards", 30),
                             ("repeatable", "the same solve repeated after unrelated solves gives the same answer (1e-12)", 10),
                             ("answers-not-shared", "answers already handed out do not change later", 10),
                             ("refresh-ignores-stored", "a refreshing solve does not depend on the stored matrix", 10),
                             ("reuse-same", "reusing the matrix just made gives the same answer", 10),
                             ("stored-handed-back", "a reused stored matrix is handed back bit-identical", 10),
                             ("reuse-exactly-that-matrix", "with an arbitrary stored matrix D the answer solves (D + short-range part) v = f", 5),
                             ("printout-no-effect", "diagnostic printing does not change the answer", 10)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    cases = [dict(ns=ns, nd=nd, periodic=p) for p, reps in ((False, 60 if th else 10), (True, 8 if th else 2)) for _ in range(reps)
             for ns, nd in (((1, 0), (2, 0), (4, 0), (2, 1), (2, 3), (0, 2)) if not p else ((2, 0), (2, 1), (0, 2)))]
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "case", cases, loader={})
    prov = [dict(input=i, ns=ns, nd=nd, form=f) for _ in range(3 if th else 1) for i, ns, nd, f in
            ((1, 3, 0, "fte"), (1, 2, 2, "fte"), (3, 2, 2, "fte"), (4, 4, 0, "fte"), (4, 3, 2, "fte"), (7, 3, 1, "fte"), (2, 2, 0, "fte"), (5, 4, 0, "ufte"))]
    par.run_cases(chk, me, "provided", prov, loader={}, salt=1)


if __name__ == "__main__":
    common.main(body, common.Check("P08", rule="a case is one configuration, loading and solve option set; distinct = different configuration or options"))
