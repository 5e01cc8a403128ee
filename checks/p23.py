"""P23 the two-sphere program: instrumented builds (bounds/FPE traps, ASan+UBSan, NaN-poisoned memory, memcheck) and exact-answer monitors."""
import os
import re
import subprocess
import numpy as np
from lib import common, lamb, par
from lib.oracle import BAS

REPORT = re.compile(r"runtime error|AddressSanitizer|Fortran runtime error|SIGFPE|SIGSEGV|SIGBUS|SIGABRT|Program received signal|UndefinedBehavior", re.I)


def allow(s, r1, r2):
    """Truncation of the solver's series in units of the natural magnitude of each number (generous multiples of what it delivers)."""
    small = min(r1 / r2, r2 / r1)
    for lo, t in ((7, 1e-9), (4, 1e-6), (3, 5e-5), (2.5, 2e-4), (2.2, 4e-3)):
        if s >= lo:
            return t
    return 1e-2 if small >= 0.1 else 5e-2


def geometry(rng, lo=2.2):
    k = float(rng.integers(4))
    s = float(2 + np.exp(rng.uniform(np.log(lo - 2), np.log(2)))) if k < 2.5 else float(rng.choice([rng.uniform(4, 10), rng.uniform(10, 300)]))
    lam = float(rng.choice([1.0, rng.uniform(0.1, 1), 10 ** rng.uniform(-2, -1), 0.1, 0.01]))
    r = round(float(10 ** rng.uniform(-1, 1.2)) if rng.random() < 0.7 else 1.0, 4)
    lam = round(lam, 4)
    if lam < 0.02 and s < 2.4:
        s += 0.3
    a, b = (r, round(r * lam, 6))
    if rng.random() < 0.5:
        a, b = b, a
    s = round(s, 6)
    return s, round(s * (a + b) / 2, 8), a, b


def call(rec, exe, d, a, b, case, st, style="short", mon="finishes", **kw):
    rp = dict(args=[d, a, b, case, style], build=os.path.basename(exe))
    try:
        rc, out, err = lamb.run(exe, d, a, b, case, style, **kw)
    except subprocess.TimeoutExpired:
        rec.mon(mon, False, st, "%s %s %s %s %s did not finish" % (d, a, b, case, style), rp)
        return None
    bad = REPORT.search(err) or rc != 0
    rec.mon(mon, not bad, st, "args %s %s %s %s %s: exit %s, %s" % (d, a, b, case, style, rc, err[-700:]), rp)
    return None if bad else out


def tensor(v):
    return np.array([[v[0], v[2], v[3]], [v[2], v[1], v[4]], [v[3], v[4], -v[0] - v[1]]])


def physics(rec, rng, c):
    s, d, a, b = geometry(rng, c.get("lo", 2.2))
    if "geom" in c:
        s, a, b = c["geom"]
        d = round(s * (a + b) / 2, 8)
    sp = 2 * d / (a + b)
    tol = allow(sp, a, b)
    eff = 20 if min(a / b, b / a) < 0.2 else None
    got, nat, ok = {}, {}, True
    for case in lamb.CASES:
        st = dict(s=s, r1=a, r2=b, case=case)
        out = call(rec, c["exe"]["plain"], d, a, b, case, st)
        v = None if out is None else lamb.parse(out)
        if out is not None:
            rec.mon("well-formed", v is not None and np.all(np.isfinite(v)), st, "printed %r" % out[:400], st)
        if v is None:
            ok = False
            continue
        got[case], nat[case] = v, lamb.natural(a, b, case)
        x, resid = lamb.exact(d, a, b, case, effort=eff)
        err = np.abs(v - x) / nat[case]
        k = int(np.argmax(err))
        lim = tol + 50 * resid
        rec.mon("exact", err.max() <= lim, st, "case %s at s'=%g, radii %g %g: %s of sphere %d is %.10g, exact %.10g" % (case, s, a, b, lamb.LABELS[k % 11], k // 11 + 1, v[k], x[k]),
                dict(st, args=[d, a, b, case, "short"]), err=err.max() / lim)
    if not ok:
        return
    # reciprocity: power of load i in the answer to load j
    names = lamb.CASES
    L = {n: lamb.loads(n) for n in names}
    resp = {}
    for n, v in got.items():
        U = np.concatenate([v[0:3], v[11:14], v[3:6], v[14:17]])
        S5 = np.concatenate([np.einsum("iab,ab->i", BAS, tensor(v[6:11])), np.einsum("iab,ab->i", BAS, tensor(v[17:22]))])
        resp[n] = (U, S5)
    Q = np.array([[L[i][0] @ resp[j][0] - L[i][1] @ resp[j][1] for j in names] for i in names])
    sc = np.sqrt(np.abs(np.diag(Q)))
    D = np.abs(Q - Q.T) / sc[:, None] / sc[None]
    i, j = np.unravel_index(np.argmax(D), D.shape)
    st = dict(s=s, r1=a, r2=b)
    rec.mon("reciprocity", D.max() <= 4 * tol, st, "s'=%g radii %g %g: response of %s to %s %.10g, of %s to %s %.10g" % (s, a, b, names[i], names[j], Q[i, j], names[j], names[i], Q[j, i]), st, err=D.max() / tol / 4)
    # loads on both spheres are the sums of loads on each
    for k in "134":
        e = np.abs(got["E" + k] - got["E1" + k] - got["E2" + k]) / nat["E" + k]
        rec.mon("superposition", e.max() <= 3 * tol, dict(st, k=k), "s'=%g radii %g %g: E%s differs from E1%s + E2%s by %.3g" % (s, a, b, k, k, k, e.max()), st, err=e.max() / tol / 3)
    # turning the pair by 90 degrees about its axis: y -> z, z -> -y
    P = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]])
    for c1, c2 in (("F12", "F13"), ("T22", "T23")):
        v, w = got[c1], got[c2]
        turned = []
        for o in (0, 11):
            q = P @ tensor(v[o + 6:o + 11]) @ P.T
            turned += [P @ v[o:o + 3], P @ v[o + 3:o + 6], [q[0, 0], q[1, 1], q[0, 1], q[0, 2], q[1, 2]]]
        e = np.abs(np.concatenate(turned) - w) / nat[c1]
        rec.mon("axisymmetry", e.max() <= 2 * tol, dict(st, pair=c1), "s'=%g radii %g %g: %s turned about the axis differs from %s by %.3g" % (s, a, b, c1, c2, e.max()), st, err=e.max() / tol / 2)
    # renaming the spheres and reflecting in x
    X = np.diag([-1.0, 1, 1])
    for case in [n for n in rng.permutation(["F11", "F22", "F12", "T11", "T12", "T22", "E11", "E13", "E14", "E1", "E4"])[:4]]:
        other = case[0] + {"1": "2", "2": "1"}[case[1]] + case[2] if len(case) == 3 else case
        if other in ("F13", "F23", "T13"):
            continue
        st2 = dict(st, case=str(case))
        out = call(rec, c["exe"]["plain"], d, b, a, other, dict(st2, other=other))
        w = None if out is None else lamb.parse(out)
        if w is None:
            continue
        sign = {"F11": -1, "T12": -1, "T22": -1, "E14": -1, "E4": -1}.get(str(case), 1)
        back = []
        for o in (11, 0):
            q = X @ tensor(w[o + 6:o + 11]) @ X
            back += [X @ w[o:o + 3], -X @ w[o + 3:o + 6], [q[0, 0], q[1, 1], q[0, 1], q[0, 2], q[1, 2]]]
        e = np.abs(sign * np.concatenate(back) - got[case]) / nat[case]
        rec.mon("exchange", e.max() <= 2 * tol, st2, "s'=%g radii %g %g: %s differs from %s with the spheres renamed by %.3g" % (s, a, b, case, other, e.max()), st2, err=e.max() / tol / 2)
    # all lengths multiplied
    for case in [str(n) for n in rng.permutation(lamb.CASES)[:3]]:
        k = float(rng.choice([2.0, 0.5, 4.0, 0.25, 3.0]))
        st3 = dict(st, case=case, k=k)
        out = call(rec, c["exe"]["plain"], round(d * k, 8), round(a * k, 8), round(b * k, 8), case, st3)
        w = None if out is None else lamb.parse(out)
        if w is None:
            continue
        p = {"F": [-1] * 3 + [-2] * 3 + [1] * 5, "T": [-2] * 3 + [-3] * 3 + [0] * 5, "E": [1] * 3 + [0] * 3 + [3] * 5}[case[0]]
        e = np.abs(w / k ** np.array(p * 2, float) - got[case]) / nat[case]
        rec.mon("scaling", e.max() <= 2 * tol, st3, "s'=%g radii %g %g: %s with all lengths times %g differs by %.3g" % (s, a, b, case, k, e.max()), st3, err=e.max() / tol / 2)


def styles(rec, rng, c):
    s, d, a, b = geometry(rng)
    st = dict(s=s, r1=a, r2=b, case=c["case"])
    o1 = call(rec, c["exe"]["plain"], d, a, b, c["case"], st)
    o2 = call(rec, c["exe"]["plain"], d, a, b, c["case"], dict(st, style="words"), "words")
    if o1 is None or o2 is None:
        return
    v = lamb.parse(o1)
    w, got = words(o2)
    if not rec.mon("well-formed", w is not None, dict(st, style="words"), "printed %r" % o2[:400], dict(st, args=[d, a, b, c["case"], "words"])):
        return
    rec.mon("styles", v is not None and np.all(np.abs(v - w) <= 1e-12 + 1e-12 * np.abs(v))
            and all(abs(sum(got.get((i, k), 0) for k in ("Sxx", "Syy", "Szz"))) <= 1e-10 * (1 + abs(got[i, "Sxx"])) for i in range(2)), st,
            "%s: short style gives %s, words give %s" % (c["case"], v, w), dict(st, args=[d, a, b, c["case"]]))


def words(out):
    try:
        return lamb.parse_words(out)
    except (ValueError, KeyError, IndexError):
        return None, {}


def sanitize(rec, rng, c):
    s, d, a, b = geometry(rng, c.get("lo", 2.2))
    case, kind = c["case"], c["kind"]
    st = dict(s=s, r1=a, r2=b, case=case, build=kind)
    style = c.get("style", "short")
    ref = call(rec, c["exe"]["plain"], d, a, b, case, st, style)
    if kind == "memcheck":
        out = call(rec, c["exe"]["debug"], d, a, b, case, st, style, mon=kind, timeout=600, wrap=["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes"])
    else:
        out = call(rec, c["exe"][kind], d, a, b, case, st, style, mon=kind, timeout=600)
    if ref is None or out is None:
        return
    f = (lambda t: words(t)[0]) if style == "words" else lamb.parse
    v, w = f(ref), f(out)
    rec.mon("same-answer", v is not None and w is not None and np.allclose(v, w, rtol=1e-6, atol=allow(2 * d / (a + b), a, b) * lamb.natural(a, b, case).max(), equal_nan=False), st,
            "args %s %s %s %s: plain build prints %s, %s build %s" % (d, a, b, case, v, kind, w), dict(st, args=[d, a, b, case, style]))


def body(chk):
    chk.monitor("finishes", "the program ends normally for every case", 200)
    chk.monitor("well-formed", "the short style prints 22 finite numbers, the verbose one a readable number under each label", 100)
    chk.monitor("exact", "every number equals the exact two-sphere solution within the program's series truncation", 100)
    chk.monitor("reciprocity", "response of load i to load j equals that of j to i", 6)
    chk.monitor("superposition", "straining both spheres is the sum of straining each", 15)
    chk.monitor("axisymmetry", "turning load and answer about the line of centres", 10)
    chk.monitor("exchange", "renaming the spheres gives the mirrored answer", 10)
    chk.monitor("scaling", "multiplying all lengths scales every number by its power", 10)
    chk.monitor("styles", "the verbose style prints the same numbers under the right labels", 10)
    chk.monitor("checked", "no array access out of bounds and no invalid, divide-by-zero or overflow operation", 15)
    chk.monitor("sanitized", "no report from AddressSanitizer and UndefinedBehaviorSanitizer", 8)
    chk.monitor("poisoned", "ends normally when every global starts as NaN", 15)
    chk.monitor("memcheck", "no memcheck report", 1)
    chk.monitor("same-answer", "instrumented builds print the answer of the plain one, in particular with poisoned memory", 40)
    th = common.THOROUGH
    rng = chk.rng
    exe = lamb.build(chk.scratch, ["plain", "checked", "sanitized", "debug", "poisoned"])
    me = os.path.abspath(__file__)
    cases = [dict(exe=exe) for _ in range(150 if th else 14)]
    cases += [dict(exe=exe, geom=g) for g in ((2.5, 1.0, 1.0), (3.0, 1.0, 0.1), (2.6, 0.5, 1.0), (6.0, 0.2, 0.2))]
    if th:
        cases += [dict(exe=exe, lo=2.07) for _ in range(20)]
    par.run_cases(chk, me, "physics", cases)
    san = []
    names = lamb.CASES
    for _ in range(8 if th else 1):
        san += [dict(exe=exe, kind=k, case=n, style="words" if rng.random() < 0.25 else "short") for k in ("checked", "poisoned") for n in names]
        san += [dict(exe=exe, kind="sanitized", case=n, style="words" if rng.random() < 0.25 else "short") for n in (names if th else [str(x) for x in rng.permutation(names)[:10]])]
        san += [dict(exe=exe, kind="memcheck", case=n) for n in (names if th else [str(x) for x in rng.permutation(names)[:2]])]
    if th:
        san += [dict(exe=exe, kind=k, case=n, lo=2.05) for k in ("checked", "poisoned") for n in names]
    par.run_cases(chk, me, "sanitize", [san[i] for i in rng.permutation(len(san))], salt=1)
    par.run_cases(chk, me, "styles", [dict(exe=exe, case=n) for _ in range(6 if th else 1) for n in names], salt=2)


common.main(body, common.Check("P23", rule="The two-sphere program run in plain and instrumented builds on random pairs of spheres; its numbers against the exact two-sphere solution.")) if __name__ == "__main__" else None
