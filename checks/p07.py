"""P07 symmetries of Stokes flow: metamorphic monitors on pairs of related solves."""
import itertools
import os
import numpy as np
from lib import common, gen, oracle, par
from lib import solver as S

KEYS = ("Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HDUb")
LOADS = {"fts": ("Fa", "Ta", "Sa", "Fb", "DFb"), "fte": ("Fa", "Ta", "Ea", "Fb", "DFb")}


def scales(pd, mu):
    a, b = pd[0], pd[3]
    return dict(Fa=6 * np.pi * mu * a, Ta=8 * np.pi * mu * a ** 3, Sa=20 / 3 * np.pi * mu * a ** 3, Ea=np.ones(len(a)), Ua=np.ones(len(a)), Oa=np.ones(len(a)),
                Fb=12 * np.pi * mu * b, DFb=12 * np.pi * mu * b, Ub=np.ones(len(b)), HDUb=np.ones(len(b)))


def load(rng, form, pd, mu):
    ns, nd = len(pd[0]), len(pd[3])
    s, sc = {}, scales(pd, mu)
    for k in LOADS[form]:
        n = nd if k in ("Fb", "DFb") else ns
        s[k] = np.array([S.random_strain(rng) if k in ("Sa", "Ea") else rng.normal(size=3) for _ in range(n)]).reshape((n, 3, 3) if k in ("Sa", "Ea") else (n, 3))
        s[k] = s[k] * sc[k].reshape((-1,) + (1,) * (s[k].ndim - 1))
    return s


def turn(Q, q, v):
    """Transform quantity q by orthogonal Q."""
    v = np.asarray(v, float)
    if v.size == 0:
        return v
    if q in ("Sa", "Ea"):
        return np.einsum("ab,nbc,dc->nad", Q, v, Q)
    if q in ("Ta", "Oa"):
        return np.linalg.det(Q) * v @ Q.T
    return v @ Q.T


LEN = dict(Fa=2, Ta=3, Sa=3, Fb=2, DFb=2, Ua=1, Oa=0, Ea=0, Ub=1, HDUb=1)       # powers of length at fixed rates


def compare(rec, name, got, want, pd, mu, st, rp, tol):
    sc = scales(pd, mu)
    top = {}
    for k in KEYS:
        if want[k].size:
            top[k] = np.abs(want[k]) / sc[k].reshape((-1,) + (1,) * (want[k].ndim - 1))
    ref = max(v.max() for v in top.values())
    worst = (0, "")
    for k in KEYS:
        if len(pd[0]) == 0 and k in ("Fa", "Ta", "Sa", "Ua", "Oa", "Ea"):
            continue
        if got[k].shape != want[k].shape:
            worst = (np.inf, "%s has shape %s, expected %s" % (k, got[k].shape, want[k].shape))
            break
        if not want[k].size:
            continue
        d = np.abs(got[k] - want[k]) / sc[k].reshape((-1,) + (1,) * (want[k].ndim - 1)) / ref
        e = d.max()
        if not e <= worst[0]:
            at = np.unravel_index(np.argmax(d), d.shape)
            worst = (float(e), "%s%s = %.9g, expected %.9g" % (k, list(map(int, at)), got[k][at], want[k][at]))
    rec.mon(name, worst[0] < tol, st, worst[1], rp, err=worst[0])


def case(rec, rng, c):
    ns, nd, per = c["ns"], c["nd"], c["periodic"]
    mu = float(rng.choice([1.0, 0.25, 3.0]))
    base = dict(mu=mu)
    sizes, beads = [((1.0,), (1.0,)), ((1.0, 0.1), (0.1, 1.0)), ((1.0, 10.0), (0.1,))][int(rng.integers(3 if not per else 2))]
    image = box = L = None
    if per:
        L = np.full(3, rng.uniform(8, 11)) if rng.random() < 0.5 else rng.uniform(8, 10, 3)
        base.update(box_bl=-L / 2, box_tr=L / 2)
        image, box = oracle.nearest_image(np.diag(L)), (-L / 2, L / 2)
    pd = gen.config(rng, ns, nd, sizes, beads, gap=2.06 if 10.0 in sizes else 2.01, image=image, box=box)
    form = "fts" if ns == 0 or rng.random() < 0.5 else "fte"
    kw = dict(form=form, minf_only=bool(rng.random() < 0.2))
    ld = load(rng, form, pd, mu)
    st = dict(conf=gen.describe(pd), mu=mu, kw=kw, L=None if L is None else L.tolist())
    rp = dict(posdata=[np.asarray(p).tolist() for p in pd], spec=dict(base, **ld), kw=kw)

    def run(pd_, ld_, base_):
        return S.solve(pd_, dict(base_, **ld_), **kw)

    try:
        o = run(pd, ld, base)
    except S.RepoError as e:
        rec.mon("linearity", False, st, "solve failed: %s" % e, rp)
        return

    def check(name, pd_, ld_, base_, want, mu_=mu, tol=1e-7, extra=None):
        try:
            got = run(pd_, ld_, base_)
        except S.RepoError as e:
            rec.mon(name, False, st, "transformed solve failed: %s" % e, dict(rp, transform=extra))
            return
        compare(rec, name, got, want, pd_, mu_, dict(st, t=extra), dict(rp, transform=extra), tol)

    # linearity: superposition with a second loading
    ld2 = load(rng, form, pd, mu)
    al, be = rng.normal(size=2) * 3
    try:
        o2 = run(pd, ld2, base)
        check("linearity", pd, {k: al * ld[k] + be * ld2[k] for k in ld}, base, {k: al * o[k] + be * o2[k] for k in KEYS}, tol=1e-8, extra=[al, be])
    except S.RepoError as e:
        rec.mon("linearity", False, st, "solve failed: %s" % e, rp)
    z = run(pd, {k: 0 * ld[k] for k in ld}, base)
    m = max([np.abs(z[k]).max() for k in KEYS if z[k].size] + [0])
    rec.mon("zero-loading", m == 0 or m < 1e-13, st, "motion %.3g without any loading" % m, rp)

    # viscosity: same rates, forces proportional to viscosity
    r = float(rng.choice([0.1, 2.0, 17.0]))
    pw = dict(Fa=1, Ta=1, Sa=1, Fb=1, DFb=1, Ua=0, Oa=0, Ea=0, Ub=0, HDUb=0)
    check("viscosity", pd, {k: ld[k] * r ** pw[k] for k in ld}, dict(base, mu=mu * r), {k: o[k] * r ** pw[k] for k in KEYS}, mu * r, tol=1e-8, extra=r)

    # translation (the box moves along)
    t = rng.normal(size=3) * float(rng.choice([1, 50]))
    b2 = dict(base)
    if per:
        b2.update(box_bl=base["box_bl"] + t, box_tr=base["box_tr"] + t)
    check("translation", (pd[0], pd[1] + t, pd[2] + t, pd[3], pd[4] + t, pd[5]), ld, b2, o, tol=1e-6 if np.abs(t).max() > 10 else 1e-7, extra=t.tolist())

    # rotation and reflection (for a box: signed permutations of the axes with the box dimensions permuted)
    for name in ("rotation", "reflection"):
        if per:
            ok = [Q for p in itertools.permutations(range(3)) for sg in itertools.product((1, -1), repeat=3)
                  for Q in [np.eye(3)[list(p)] * np.array(sg)[:, None]] if (np.linalg.det(Q) > 0) == (name == "rotation")]
            Q = ok[int(rng.integers(1, len(ok)))]
            LL = np.abs(Q) @ L
            b2 = dict(base, box_bl=-LL / 2, box_tr=LL / 2)
        else:
            Q = gen.rotation(rng, reflect=(name == "reflection"))
            b2 = base
        check(name, (pd[0], pd[1] @ Q.T, (pd[2].reshape(-1, 3) @ Q.T).reshape(pd[2].shape), pd[3], pd[4] @ Q.T, pd[5] @ Q.T),
              {k: turn(Q, k, ld[k]) for k in ld}, b2, {k: turn(Q, k, o[k]) for k in KEYS}, extra=Q.tolist())

    # rescaling
    r = float(rng.choice([0.1, 0.5, 3.0, 10.0]))
    b2 = dict(base)
    if per:
        b2.update(box_bl=base["box_bl"] * r, box_tr=base["box_tr"] * r)
    check("rescaling", (pd[0] * r, pd[1] * r, pd[2] * r, pd[3] * r, pd[4] * r, pd[5] * r), {k: ld[k] * r ** LEN[k] for k in ld}, b2,
          {k: o[k] * r ** LEN[k] for k in KEYS}, extra=r)

    # with unequal sizes a pair's other order reads the reciprocal-ratio rows, equal only to interpolation accuracy
    same = kw["minf_only"] or len(np.unique(np.round(np.concatenate([pd[0], pd[3]]), 9))) == 1
    # permutation
    if ns + nd > 1:
        ps, pdn = rng.permutation(ns), rng.permutation(nd)
        if ns > 1 and np.all(ps == np.arange(ns)):
            ps = ps[::-1]
        if nd > 1 and np.all(pdn == np.arange(nd)):
            pdn = pdn[::-1]

        def perm(k, v):
            v = np.asarray(v)
            return v[pdn] if k in ("Fb", "DFb", "Ub", "HDUb") else v[ps] if len(v) == ns else v
        if ns > 1 or nd > 1:
            check("permutation", (pd[0][ps], pd[1][ps], pd[2][ps], pd[3][pdn], pd[4][pdn], pd[5][pdn]), {k: perm(k, ld[k]) for k in ld}, base,
                  {k: perm(k, o[k]) for k in KEYS}, tol=1e-7 if same else 1e-3, extra=[ps.tolist(), pdn.tolist()])

    # swapping the two beads of some dumbbells
    if nd:
        w = np.where(rng.random(nd) < 0.6, -1.0, 1.0)
        w[int(rng.integers(nd))] = -1.0

        def sw(k, v):
            return np.asarray(v) * w[:, None] if k in ("DFb", "HDUb") else v
        check("bead-swap", pd[:5] + (pd[5] * w[:, None],), {k: sw(k, ld[k]) for k in ld}, base, {k: sw(k, o[k]) for k in KEYS}, tol=1e-7 if same else 1e-3, extra=w.tolist())


def body(chk):
    for name, rule in (("linearity", "answer to a superposition = superposition of the answers"), ("zero-loading", "no loading gives no motion"),
                       ("viscosity", "rates inversely proportional to viscosity at fixed forces"), ("translation", "translating everything (and the box) changes nothing"),
                       ("rotation", "rotating configuration, loading (and box) rotates the answer"), ("reflection", "the same for reflections (axial vectors flip)"),
                       ("rescaling", "scaling all lengths scales every quantity by its power of length"), ("permutation", "relabelling particles relabels the answer"),
                       ("bead-swap", "exchanging the beads of a dumbbell flips its difference quantities only")):
        chk.monitor(name, rule, 10)
    th = common.THOROUGH
    cases = [dict(ns=ns, nd=nd, periodic=p) for p, reps in ((False, 80 if th else 12), (True, 6 if th else 1)) for _ in range(reps)
             for ns, nd in (((1, 0), (2, 0), (4, 0), (2, 1), (2, 3), (0, 2)) if not p else ((2, 0), (1, 1), (2, 2), (0, 2), (3, 0)))]
    par.run_cases(chk, os.path.abspath(__file__), "case", cases, loader={})


if __name__ == "__main__":
    common.main(body, common.Check("P07", rule="a case is one configuration with one loading and one transformation; distinct = different configuration or transformation"))
