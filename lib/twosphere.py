"""Exact two-sphere Stokes resistance by boundary collocation of Lamb's general solution (independent of /repo).

The flow outside two spheres is a superposition of Lamb's singular solutions about both centres; the coefficients are those
matching the surface velocity U + Omega x r + E.r in the least-squares sense.  Azimuthal orders 0, 1, 2 separate.
"""
from functools import lru_cache

import numpy as np

from .oracle import BAS, EPS


def legendre(N, m, c, s):
    """Schmidt-normalised P_n^m and dP/dtheta for n = m..N (rows)."""
    P = np.zeros((N + 1, len(c)))
    P[m] = s ** m if m else 1.0
    for n in range(m + 1, N + 1):
        P[n] = ((2 * n - 1) * c * P[n - 1] - (np.sqrt((n - 1) ** 2 - m * m) * P[n - 2] if n - 2 >= m else 0)) / np.sqrt(n * n - m * m)
    D = np.zeros_like(P)
    for n in range(m, N + 1):
        D[n] = (n * c * P[n] - (np.sqrt(n * n - m * m) * P[n - 1] if n - 1 >= m else 0)) / s
    return P, D


def basis(rho, z, a, N, m, swirl=False):
    """Amplitudes (u_rho, u_phi, u_z) at points of the basis flows about the origin; columns: p_n, phi_n, chi_n (n = max(1,m)..N)."""
    r = np.hypot(rho, z)
    c, s = z / r, rho / r
    P, D = legendre(N, m, c, s)
    n0 = max(1, m)
    ns = np.arange(n0, N + 1)[:, None]
    P, D = P[n0:], D[n0:]
    Q = m * P / s
    q = (a / r) ** (ns + 1)
    gr, gt, gp = -(ns + 1) * q / r * P, q / r * D, -q / r * Q           # gradient of (a/r)^(n+1) P cos(m phi)
    A, B = -(ns - 2) / (2 * ns * (2 * ns - 1.0)) * r * r, (ns + 1) / (ns * (2 * ns - 1.0)) * r
    fields = []
    if not swirl:
        fields.append((A * gr + B * q * P, A * gt, A * gp))
        fields.append((gr * a, gt * a, gp * a))
    if m or swirl:
        fields.append((0 * P, q * Q, -q * D))
    cols = []
    for ur, ut, up in fields:
        cols.append(np.stack([ur * s + ut * c, up, ur * c - ut * s], axis=1))      # (n, 3, pts)
    return np.concatenate(cols), n0


def modes(m, swirl, rho, z):
    """Surface velocities (in the sphere's own coordinates) of the unit motions of azimuthal order m."""
    o, i = np.zeros_like(z), np.ones_like(z)
    if m == 0 and swirl:
        return {"O": np.stack([o, rho, o])}
    if m == 0:
        return {"U": np.stack([o, o, i]), "E": np.stack([-rho, o, 2 * z]) / np.sqrt(6)}
    if m == 1:
        return {"U": np.stack([i, -i, o]), "O": np.stack([z, -z, -rho]), "E": np.stack([z, -z, rho]) / np.sqrt(2)}
    return {"E": np.stack([rho, -rho, o]) / np.sqrt(2)}


@lru_cache(200)
def scalars(s, lam, effort=None):
    """Axial resistance of spheres of radius 1 (at z=0) and lam (at z=d), scaled separation s=2d/(1+lam), viscosity 1."""
    d = s * (1 + lam) / 2
    # orders needed on each sphere: the gap region has angular size sqrt(gap/a) on the small sphere, lam times that on the large one
    xi = max(s - 2, 1e-4) * (1 + lam) / 2 / lam
    base = (effort or 9) / np.sqrt(xi)
    Ns = [int(min(400, 16 + base / max(lam, 0.04) ** 0.75)), int(min(250, 16 + base))]
    a, c = (1.0, lam), (0.0, d)
    quad = []
    for k in range(2):
        x, w = np.polynomial.legendre.leggauss(int(1.6 * Ns[k]) + 20)
        if lam < 0.5 and k == 0:            # concentrate points near the contact (x = 1)
            y, wy = np.polynomial.legendre.leggauss(int(1.6 * Ns[k]) + 20)
            be = 3.0
            t = (y + 1) / 2
            x = 1 - 2 * (1 - t) ** be
            w = wy / 2 * 2 * be * (1 - t) ** (be - 1)
        quad.append((x, w))
    out = {}
    resid = 0
    for m, swirl in ((0, False), (0, True), (1, False), (2, False)):
        rows, W = [], []
        for k in range(2):
            x, w = quad[k]
            rho, z = a[k] * np.sqrt(1 - x * x), a[k] * x + c[k]
            A = []
            for l in range(2):
                b, n0 = basis(rho, z - c[l], a[l], Ns[l], m, swirl)
                A.append(b.reshape(len(b), -1))
            rows.append(np.concatenate(A).T)
            W.append(np.tile(np.sqrt(w), 3))
        A, W = np.concatenate(rows), np.concatenate(W)
        fam = 1 if swirl else 2 if m == 0 else 3
        off = [0, fam * (Ns[0] - n0 + 1), fam * (Ns[0] + Ns[1] - 2 * n0 + 2)]
        K3 = [0, 3 * len(quad[0][0]), A.shape[0]]
        rhs, tags = [], []
        for k in range(2):
            x, w = quad[k]
            rho, z = a[k] * np.sqrt(1 - x * x), a[k] * x
            for name, v in modes(m, swirl, rho, z).items():
                full = np.zeros(A.shape[0])
                full[K3[k]:K3[k + 1]] = v.ravel() * (1.0 if name == "U" else 1 / a[k])
                rhs.append(full)
                tags.append((name, k, 1.0 if name == "U" else a[k]))
        B = np.array(rhs).T
        AW = A * W[:, None]
        sc = 1 / np.linalg.norm(AW, axis=0).clip(1e-300)
        X, *_ = np.linalg.lstsq(AW * sc, B * W[:, None], rcond=1e-13)
        resid = max(resid, np.abs(AW * sc @ X - B * W[:, None]).max())
        X = X * sc[:, None]
        for j, (name, k, unit) in enumerate(tags):
            for l in range(2):
                N = Ns[l]
                nn = N - n0 + 1
                co = X[off[l]:off[l + 1], j] * unit
                p = co[:nn] * a[l] ** (np.arange(n0, N + 1) + 1) if not swirl else None
                if not swirl:
                    if m <= 1:
                        out[m, "F", l, name, k] = 4 * np.pi * p[1 - n0]
                    out[m, "S", l, name, k] = 4 * np.pi / 3 * p[2 - n0] * (np.sqrt(6) / 2, np.sqrt(3) / np.sqrt(2), np.sqrt(2))[m]
                if swirl or m == 1:
                    ch = co[-nn:] * a[l] ** (np.arange(n0, N + 1) + 1)
                    out[m, "T", l, name, k] = 8 * np.pi * ch[1 - n0]
    return out, float(resid)


def _tensors(d):
    """Frames (u, v, d) and the unit loads/motions of each azimuthal order."""
    d = d / np.linalg.norm(d)
    t = np.eye(3)[np.argmin(np.abs(d))]
    u = np.cross(t, d)
    u /= np.linalg.norm(u)
    v = np.cross(d, u)
    return u, v, d


def sym(a, b):
    return (np.outer(a, b) + np.outer(b, a)) / 2


def grand_resistance(x12, a1, a2, mu=1.0, effort=None):
    """(22,22) resistance, order F1 F2 T1 T2 S1 S2 (S condensed); also the collocation residual."""
    r = np.linalg.norm(x12)
    if a2 > a1:
        R, e = grand_resistance(-np.asarray(x12), a2, a1, mu, effort)
        p = np.r_[3:6, 0:3, 9:12, 6:9, 17:22, 12:17]
        return R[np.ix_(p, p)], e
    sc, resid = scalars(round(2 * r / (a1 + a2), 12), round(a2 / a1, 12), effort)
    u, v, d = _tensors(np.asarray(x12, float))
    # unit vectors in the 11-dim space of one sphere (F3 T3 S5)

    def vec(kind, m, b):
        o = np.zeros(11)
        if m == 0:
            w = d
            E = (2 * np.outer(d, d) - np.outer(u, u) - np.outer(v, v)) / np.sqrt(6)
            om = d
        elif m == 1:
            w = (u, v)[b]
            E = np.sqrt(2) * sym(w, d)
            om = (v, -u)[b]
        else:
            E = ((np.outer(u, u) - np.outer(v, v)) / np.sqrt(2), np.sqrt(2) * sym(u, v))[b]
            w = om = None
        if kind in "FU":
            o[0:3] = w
        elif kind in "TO":
            o[3:6] = om
        else:
            o[6:11] = np.einsum("iab,ab->i", BAS, E)
        return o
    R = np.zeros((2, 11, 2, 11))
    pw = {"F": 0, "T": 1, "S": 1, "U": 0, "O": 1, "E": 1}
    for (m, f, l, q, k), val in sc.items():
        for b in range(1 if m == 0 else 2):
            R[l, :, k, :] += mu * a1 ** (1 + pw[f] + pw[q]) * val * np.outer(vec(f, m, b), vec(q, m, b))
    idx = [(l, i) for blk in (range(0, 3), range(3, 6), range(6, 11)) for l in range(2) for i in blk]
    G = np.array([[R[l, i, k, j] for k, j in idx] for l, i in idx])
    return G, resid


NAMES = ["XA", "YA", "YB", "XC", "YC", "XG", "YG", "YH", "XM", "YM", "ZM"]
POWERS = dict(A=1, B=2, C=3, G=2, H=3, M=3)


def dimensionless(s, lam, effort=None):
    """The 11 x 2 dimensionless resistance scalars (_11, _12) of a pair with size ratio lam, Kim & Karrila scaling on sphere 1; and the residual."""
    small = lam if lam <= 1 else 1 / lam
    o, resid = scalars(round(s, 12), round(small, 12), effort)
    i, j, flip = (0, 1, 1) if lam <= 1 else (1, 0, -1)
    unit = dict(A=6 * np.pi, B=4 * np.pi, C=8 * np.pi, G=4 * np.pi, H=8 * np.pi, M=20 * np.pi / 3)
    what = dict(XA=(0, "F", "U", 1), YA=(1, "F", "U", 1), YB=(1, "T", "U", -1), XC=(0, "T", "O", 1), YC=(1, "T", "O", 1), XG=(0, "S", "U", 1.5 ** 0.5),
                YG=(1, "S", "U", 0.5 ** 0.5), YH=(1, "S", "O", 0.5 ** 0.5), XM=(0, "S", "E", 1), YM=(1, "S", "E", 1), ZM=(2, "S", "E", 1))
    out = np.zeros((11, 2))
    for n, name in enumerate(NAMES):
        m, q, v, c = what[name]
        for g, k in enumerate((i, j)):
            x = o[m, q, i, v, k] * c / unit[name[1]]
            out[n, g] = x * (flip if name[1] in "BG" else 1) * (lam ** POWERS[name[1]] if lam > 1 else 1)
    return out, resid
