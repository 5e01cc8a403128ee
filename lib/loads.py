"""Declarative loadings and flows (JSON) shared by the injected inputs of a program run and by the independent integrator."""
import numpy as np


def A(x):
    return np.array(x, float)


def phase(d, t):
    return np.cos(d.get("w", 0.0) * t + d.get("ph", 0.0))


def integral(d, t):
    """Integral of phase from 0 to t."""
    w, ph = d.get("w", 0.0), d.get("ph", 0.0)
    return t * np.cos(ph) if w == 0 else (np.sin(w * t + ph) - np.sin(ph)) / w


def shear_parts(g, plane=(0, 2)):
    """Simple shear u_i = g x_j with (i, j) = plane, by default u_x = g z: (angular velocity, strain rate)."""
    i, j = plane
    k = 3 - i - j
    O, E = np.zeros(3), np.zeros((3, 3))
    O[k] = g / 2 if (k, j, i) in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -g / 2
    E[i, j] = E[j, i] = g / 2
    return O, E


def at(desc, posdata, frameno, timestep):
    """Loading of `desc` as a solver spec for these positions at this frame."""
    t = frameno * timestep
    ns, nd = len(posdata[0]), len(posdata[3])
    s = {}
    fac = 1 + 0.5 * np.sin(desc["tf"]["w"] * t + desc["tf"]["ph"]) if "tf" in desc else 1.0
    for k, cnt in (("Fa", ns), ("Ta", ns), ("Fb", nd), ("DFb", nd), ("Ua", ns), ("Ub", nd), ("HDUb", nd)):
        if desc.get(k) is not None:
            s[k] = [None if r is None else list(fac * A(r)) for r in desc[k]]
    if "trap" in desc:
        k, c = desc["trap"]["k"], A(desc["trap"]["c"])
        for key, pos in (("Fa", posdata[1]), ("Fb", posdata[4])):
            rows = s.get(key) or [[0., 0, 0]] * len(pos)
            s[key] = [None if r is None else list(A(r) - k * (A(p) - c)) for r, p in zip(rows, pos)]
    if "spring" in desc:
        k, n = desc["spring"]["k"], desc["spring"]["n"]
        rows = s.get("DFb") or [[0., 0, 0]] * nd
        s["DFb"] = [None if r is None else list(A(r) - k * (A(d) - n * A(d) / np.linalg.norm(d))) for r, d in zip(rows, posdata[5])]
    if "flow" in desc:
        f = desc["flow"]
        c = phase(f, t)
        if f.get("shear") is not None:
            O, E = shear_parts(f["shear"], f.get("plane", (0, 2)))
            s["Ot"], s["Et"] = O * integral(f, t), E * integral(f, t)
        else:
            O, E = A(f.get("O", [0, 0, 0])), A(f.get("E", np.zeros((3, 3))))
        s["Uinf"], s["Oinf"] = c * A(f.get("U", [0, 0, 0])), c * O
        if ns or np.any(E):      # without spheres or strain the program's own (empty) strain list is left
            s["Ea"] = [c * E for _ in range(max(ns, 1))]
        s["centre"] = A(f.get("centre", [0, 0, 0]))
    if "Ea" in desc:
        s["Ea"] = desc["Ea"]
    if "box" in desc:
        s["box_bl"], s["box_tr"] = A(desc["box"][0]), A(desc["box"][1])
    if "mu" in desc:
        s["mu"] = desc["mu"]
    s["desc"] = desc.get("desc", "")
    return s


def make(desc):
    return lambda posdata, frameno, timestep: at(desc, posdata, frameno, timestep)


def lattice(desc, frameno, timestep):
    """Edge vectors (rows) of the periodic box of `desc` at that frame; None when unbounded."""
    if "box" not in desc:
        return None
    L = A(desc["box"][1]) - A(desc["box"][0])
    B = np.diag(L)
    f = desc.get("flow")
    if f and f.get("shear") is not None:
        i, j = f.get("plane", (0, 2))
        B[j, i] += np.mod(f["shear"] * integral(f, frameno * timestep) * L[j], L[i])
    return B
