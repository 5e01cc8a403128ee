"""P06 every way of posing the problem describes the same linear relation (round trips through all input forms)."""
import os
import numpy as np
from lib import common, gen, par
from lib import solver as S

KEYS = ("Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HDUb")


def config(rng, c):
    ns, nd = c["ns"], c["nd"]
    base = dict(mu=float(rng.choice([1.0, 0.3, 10.0])))
    sizes, beads = [((1.0,), (1.0,)), ((1.0, 0.1), (0.1,)), ((2.0,), (0.2,)), ((100.0, 10.0), (10.0,))][int(rng.integers(4 if not c["periodic"] else 3))]
    image = box = None
    if c["periodic"]:
        from lib import oracle
        top = max(sizes)
        L = np.full(3, rng.uniform(9, 12)) * top
        base.update(box_bl=-L / 2, box_tr=L / 2)
        image, box = oracle.nearest_image(np.diag(L)), (-L / 2, L / 2)
    pd = gen.config(rng, ns, nd, sizes, beads, gap=2.02, image=image, box=box, length=(0.6 * max(sizes), 2.5 * max(sizes)))
    return pd, base


def case(rec, rng, c):
    ns, nd = c["ns"], c["nd"]
    pd, base = config(rng, c)
    kw = dict(minf_only=bool(rng.random() < 0.25), cutoff=float(rng.choice([2, 1.5])))
    # well-scaled forcing: per-particle Stokes scales
    a, b, mu = pd[0], pd[3], base["mu"]
    sc = np.concatenate([np.repeat(a, 3) * 6 * np.pi * mu, np.repeat(a ** 3, 3) * 8 * np.pi * mu, np.repeat(a ** 3, 5) * 20 / 3 * np.pi * mu,
                         np.repeat(b, 3) * 12 * np.pi * mu, np.repeat(b, 3) * 12 * np.pi * mu])
    f = rng.normal(size=11 * ns + 6 * nd) * sc
    st = dict(case=c, conf=gen.describe(pd), mu=mu, kw=kw)
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], spec=base, kw=kw, force=f)
    try:
        ref = S.solve(pd, S.spec_from_force_vector(f, ns, nd, base), form="fts", **kw)
    except S.RepoError as e:
        rec.mon("round-trip", False, st, "FTS solve failed: %s" % e, rp)
        return
    scale = {}
    for k in KEYS:
        scale[k] = np.max(np.abs(ref[k])) if ref[k].size else 1.0
    given0 = S.spec_from_force_vector(f, ns, nd, base)
    for k in ("Fa", "Ta", "Sa", "Fb", "DFb"):
        w = np.asarray(given0[k], float).reshape(ref[k].shape)
        rec.close("imposed-returned", ref[k], w, 1e-11, 1e-13, state=dict(st, form="fts", q=k), detail="imposed %s in form fts" % k, replay=rp)

    def pose(form, k, m):
        """Impose velocities on the first k spheres and m dumbbells, forces on the others."""
        s = dict(base)
        given = {}
        if form != "duf":
            s["Ta"], given["Ta"] = ref["Ta"], slice(None)
            s["Ea"], given["Ea"] = ref["Ea"], slice(None)
            s["Fa"] = [None] * k + [r for r in ref["Fa"][k:]]
            s["Ua"] = [r for r in ref["Ua"][:k]] + [None] * (ns - k)
            given["Fa"], given["Ua"] = slice(k, None), slice(0, k)
        if form in ("ufteu", "duf"):
            s["Fb"] = [None] * m + list(ref["Fb"][m:])
            s["DFb"] = [None] * m + list(ref["DFb"][m:])
            s["Ub"] = list(ref["Ub"][:m]) + [None] * (nd - m)
            s["HDUb"] = list(ref["HDUb"][:m]) + [None] * (nd - m)
            given["Fb"] = given["DFb"] = slice(m, None)
            given["Ub"] = given["HDUb"] = slice(0, m)
        else:
            s["Fb"], s["DFb"] = ref["Fb"], ref["DFb"]
            given["Fb"] = given["DFb"] = slice(None)
        if form == "fte":
            s.pop("Ua")
            given.pop("Ua")
            given["Fa"] = slice(None)
        return s, given

    forms = []
    if ns:
        forms += [("fte", 0, 0)]
        ks = sorted({0, 1, ns, int(rng.integers(0, ns + 1))})
        forms += [("ufte", k, 0) for k in ks]
        for m in sorted({0, nd, int(rng.integers(0, nd + 1))}):
            forms += [("ufteu", k, m) for k in sorted({0, ns, int(rng.integers(0, ns + 1))})]
    else:
        forms += [("duf", 0, m) for m in sorted({0, 1, nd})]
    for form, k, m in forms:
        s, given = pose(form, k, m)
        stf = dict(st, form=form, k=k, m=m)
        rpf = dict(rp, form=form, fixed_spheres=k, fixed_dumbbells=m)
        try:
            o = S.solve(pd, s, form=form, **kw)
        except S.RepoError as e:
            rec.mon("round-trip", False, stf, "%s with %d fixed spheres and %d fixed dumbbells failed: %s" % (form, k, m, e), rpf)
            continue
        worst = (0, None)
        for q in KEYS:
            if ns == 0 and q in ("Fa", "Ta", "Sa", "Ua", "Oa", "Ea"):
                continue
            if o[q].shape != ref[q].shape:
                worst = (np.inf, "%s has shape %s" % (q, o[q].shape))
                break
            if ref[q].size == 0:
                continue
            d = np.abs(o[q] - ref[q])
            e = d.max() / scale[q]
            if not np.isfinite(e):
                e = np.inf
            if e > worst[0]:
                at = np.unravel_index(np.argmax(d), d.shape)
                worst = (e, "%s[%s] = %.9g, original %.9g" % (q, at, o[q][at], ref[q][at]))
            if q in given:
                g, w = o[q][given[q]], ref[q][given[q]]
                if g.size:
                    rec.mon("imposed-returned", np.max(np.abs(g - w)) <= 1e-11 * scale[q], dict(stf, q=q), "imposed %s not returned as given in form %s" % (q, form), rpf)
        rec.mon("round-trip", worst[0] < 1e-6, stf, "%s (fixed spheres %d, fixed dumbbells %d): %s" % (form, k, m, worst[1]), rpf, err=worst[0])
        rec.count("form_%s" % form)


def body(chk):
    chk.monitor("round-trip", "feeding computed quantities back through form X returns the originals, each in its own particle's slot (1e-6 of that quantity's size)", 30)
    chk.monitor("imposed-returned", "every imposed quantity is returned as given", 60)
    th = common.THOROUGH
    cases = [dict(ns=ns, nd=nd, periodic=p) for p, reps in ((False, 40 if th else 6), (True, 6 if th else 1)) for _ in range(reps)
             for ns, nd in (((1, 0), (2, 0), (3, 0), (5, 0), (2, 1), (1, 3), (3, 2), (0, 1), (0, 3)) if not p else ((2, 0), (2, 1), (1, 2), (0, 2)))]
    par.run_cases(chk, os.path.abspath(__file__), "case", cases, loader={})


if __name__ == "__main__":
    common.main(body, common.Check("P06", rule="a case is one configuration posed in one form with a given split of imposed velocities and forces; distinct = different configuration, form or split"))
