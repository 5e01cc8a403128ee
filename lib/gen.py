"""Random valid configurations and loadings."""
import numpy as np

from . import solver as S


def unit(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def rotation(rng, reflect=False):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return -q if reflect else q


def min_gap(pd, image=None):
    """Smallest scaled separation 2r/(a1+a2) over all beads, and list of all."""
    a, X = beads(pd)
    m = np.inf
    for i in range(len(a)):
        for j in range(i + 1, len(a)):
            x = X[j] - X[i]
            if image is not None:
                x = image(x)
            m = min(m, 2 * np.linalg.norm(x) / (a[i] + a[j]))
    return m


def beads(pd):
    a = np.concatenate([pd[0], pd[3], pd[3]])
    X = np.concatenate([pd[1], pd[4] - 0.5 * pd[5], pd[4] + 0.5 * pd[5]])
    return a, X


def pair_gaps(pd, image=None):
    a, X = beads(pd)
    out = []
    for i in range(len(a)):
        for j in range(i + 1, len(a)):
            x = X[j] - X[i]
            if image is not None:
                x = image(x)
            out.append(2 * np.linalg.norm(x) / (a[i] + a[j]))
    return np.array(out)


def config(rng, ns, nd, sizes=(1.0,), bead_sizes=None, spread=None, gap=2.01, image=None, box=None, near=True, length=(0.6, 2.5)):
    """ns spheres and nd dumbbells without overlap (scaled gap >= gap).

    near: place new spheres close to an existing one half of the time so that short-range pairs occur.
    box: (lo, hi) region for centres.
    """
    bead_sizes = bead_sizes or sizes
    spread = spread or 2.2 * max(ns + nd, 2) ** (1 / 3) * max(max(sizes), max(bead_sizes)) + 1.5
    for attempt in range(400):
        sph, dmb = [], []
        a, X = [], []

        def clear(r, x):
            for b, y in zip(a, X):
                d = x - y
                if image is not None:
                    d = image(d)
                if 2 * np.linalg.norm(d) < gap * (r + b):
                    return False
            return True

        def place():
            return rng.uniform(box[0], box[1]) if box is not None else rng.uniform(-spread, spread, size=3)

        ok = True
        for k in range(ns):
            r = float(rng.choice(sizes))
            for t in range(60):
                if near and a and rng.random() < 0.6:
                    i = rng.integers(len(a))
                    x = X[i] + unit(rng) * 0.5 * (r + a[i]) * rng.choice([gap * 1.002, 2.03, 2.1, 2.4, 3.0, 3.7, 4.3]) * rng.uniform(1, 1.02)
                    if box is not None and (np.any(x < box[0]) or np.any(x > box[1])):
                        continue
                else:
                    x = place()
                if clear(r, x):
                    a.append(r)
                    X.append(x)
                    sph.append((r, x))
                    break
            else:
                ok = False
        for k in range(nd):
            if not ok:
                break
            r = float(rng.choice(bead_sizes))
            for t in range(60):
                dx = unit(rng) * max(rng.uniform(*length), gap * 1.01 * r)
                if near and a and rng.random() < 0.6:
                    i = rng.integers(len(a))
                    b1 = X[i] + unit(rng) * 0.5 * (r + a[i]) * rng.choice([gap * 1.002, 2.1, 2.6, 3.5, 4.5]) * rng.uniform(1, 1.02)
                    x = b1 + 0.5 * dx
                    if box is not None and (np.any(x < box[0]) or np.any(x > box[1])):
                        continue
                else:
                    x = place()
                b1, b2 = x - 0.5 * dx, x + 0.5 * dx
                if clear(r, b1) and clear(r, b2):
                    a += [r, r]
                    X += [b1, b2]
                    dmb.append((r, x, dx))
                    break
            else:
                ok = False
        if ok:
            return S.posdata(sph, dmb)
    raise RuntimeError("no configuration found")


def force_vector(rng, ns, nd):
    return rng.normal(size=11 * ns + 6 * nd)


def describe(pd):
    return dict(ns=len(pd[0]), nd=len(pd[3]), sizes=np.round(pd[0], 6).tolist(), beads=np.round(pd[3], 6).tolist(), gap=float(min_gap(pd)) if len(pd[0]) + 2 * len(pd[3]) > 1 else None,
                x=np.round(pd[1], 5).tolist(), dx=np.round(pd[4], 5).tolist(), ddx=np.round(pd[5], 5).tolist())
