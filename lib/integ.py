"""Independent integrator: predicts the next saved state of a run from the saved states before it."""
import numpy as np

from . import loads
from . import solver as S


class Flow:
    def __init__(self, o, E):
        self.U, self.O, self.c = (np.asarray(o[k], float) for k in ("Uinf", "Oinf", "centre"))
        self.E = np.asarray(E, float)

    def at(self, x):
        x = np.asarray(x, float) - self.c
        return self.U + np.cross(self.O, x) + x @ self.E.T

    def grad(self, d):
        return np.cross(self.O, d) + np.asarray(d) @ self.E.T


class Problem:
    """One run: sizes, loading (description or provided input number), form and solve options."""

    def __init__(self, sizes, dsizes, load=None, number=None, form="fte", dt=0.1, scheme="euler", every=1, stages=True, start=0, flat=False, kw=None):
        self.sizes, self.dsizes = np.asarray(sizes, float), np.asarray(dsizes, float)
        self.load, self.number, self.form, self.dt, self.scheme = load, number, form, dt, scheme
        self.every, self.stages, self.start, self.flat, self.kw = every, stages, start, flat, kw or {}
        self.cache = {}
        self.memo = {}

    def pd(self, st):
        return (self.sizes, st["x"], st["rot"], self.dsizes, st["y"], st["d"])

    def velocities(self, st, frame, Minv=None, regen=True):
        pd = self.pd(st)
        spec = loads.at(self.load, pd, frame, self.dt) if self.load is not None else None
        o = S.solve(pd, spec, form=self.form, frameno=frame, timestep=self.dt, number=self.number, Minv=Minv, regen=regen, **self.kw)
        if spec is not None:
            E = np.asarray(spec["Ea"][0], float) if spec.get("Ea") is not None and len(spec["Ea"]) else np.zeros((3, 3))
            fl = Flow(dict(Uinf=spec.get("Uinf", np.zeros(3)), Oinf=spec.get("Oinf", np.zeros(3)), centre=spec.get("centre", np.zeros(3))), E)
        else:
            E = np.asarray(o["Ea"][0], float) if len(o["Ea"]) else np.zeros((3, 3))
            fl = Flow(o, E)
        v = dict(u=o["Ua"] + fl.at(st["x"]) if len(st["x"]) else np.zeros((0, 3)), w=o["Oa"] + fl.O if len(st["x"]) else np.zeros((0, 3)),
                 ub=o["Ub"] + fl.at(st["y"]) if len(st["y"]) else np.zeros((0, 3)),
                 du=2 * o["HDUb"] + fl.grad(st["d"]) if len(st["y"]) else np.zeros((0, 3)))
        return v, o, fl

    def refresh_frame(self, n):
        """Latest scheduled refresh at or before frame n."""
        if n < self.start:
            raise ValueError
        r = n - n % self.every
        return max(r, self.start)

    def matrix(self, states, n):
        """Long-range matrix of the scheduled refresh governing frame n (states: frame -> state)."""
        r = self.refresh_frame(n)
        if r not in self.cache:
            v, o, fl = self.velocities(states[r], r)
            self.cache[r] = o["Minv"]
        return self.cache[r]

    def stage(self, states, n, st, frame, first):
        """Velocities at one stage of frame n."""
        if first and n in self.memo and self.memo[n][0] is st:
            v, o, fl = self.memo[n][1]
            return dict(v), o, fl
        r = self.compute(states, n, st, frame, first)
        if first:
            self.memo[n] = (st, (dict(r[0]), r[1], r[2]))
        return r

    def compute(self, states, n, st, frame, first):
        fresh = self.refresh_frame(n) == n and (first or self.stages)
        if fresh:
            v, o, fl = self.velocities(st, frame)
            if first:
                self.cache[n] = o["Minv"]
            return v, o, fl
        return self.velocities(st, frame, Minv=self.matrix(states, n), regen=False)

    def advance(self, st, v, dt):
        new = dict(x=st["x"] + dt * v["u"], y=st["y"] + dt * v["ub"], d=st["d"] + dt * v["du"])
        new["rot"] = rotate(st["rot"] - st["x"][:, None], v["w"], dt) + new["x"][:, None]
        return new

    def predict(self, states, n):
        """Unwrapped state at the start of frame n+1 and what the forces of frame n are, from the saved states up to frame n."""
        st, dt = states[n], self.dt
        if self.scheme in ("euler", "ab2"):
            v, o, fl = self.stage(states, n, st, n, True)
            self.flatten(v)
            F = {k: o[k] for k in ("Fa", "Sa", "Fb", "DFb", "wall")}
            if self.scheme == "ab2" and n > self.start:
                p = self.previous(states, n)
                v = {k: 1.5 * v[k] - 0.5 * p[k] for k in v}
            return self.advance(st, v, dt), F, v
        a = [None] * 4
        F = []
        a[0], o, fl = self.stage(states, n, st, n, True)
        F.append(o)
        s1 = self.advance(st, a[0], dt / 2)
        a[1], o, fl = self.stage(states, n, s1, n + 0.5, False)
        F.append(o)
        s2 = self.advance(st, a[1], dt / 2)
        a[2], o, fl = self.stage(states, n, s2, n + 0.5, False)
        F.append(o)
        s3 = self.advance(st, a[2], dt)
        a[3], o, fl = self.stage(states, n, s3, n + 1, False)
        F.append(o)
        w = (1 / 6, 2 / 6, 2 / 6, 1 / 6)
        v = {k: sum(c * q[k] for c, q in zip(w, a)) for k in a[0]}
        self.flatten(v)
        FF = {k: sum(c * np.asarray(q[k], float) for c, q in zip(w, F)) for k in ("Fa", "Sa", "Fb", "DFb", "wall")}
        return self.advance(st, v, dt), FF, v

    def flatten(self, v):
        if self.flat:
            v["u"] = v["u"].copy()
            v["u"][:, 1] = 0

    def previous(self, states, n):
        """Velocities of frame n-1 for the images now in the box."""
        m = self.memo.get(("previous", n))
        if m is None or m[0] is not states[n]:
            m = self.memo["previous", n] = (states[n], self.earlier(states, n))
        return m[1]

    def earlier(self, states, n):
        q = n - 1
        v, o, fl = self.stage(states, q, states[q], q, True)
        self.flatten(v)
        B = self.lattice(n)
        if B is not None:
            if self.scheme == "ab2" and q > self.start:
                p = self.previous(states, q)
                w = {k: 1.5 * v[k] - 0.5 * p[k] for k in v}
            else:
                w = v
            un = self.advance(states[q], w, self.dt)
            for key, uk in (("x", "u"), ("y", "ub")):
                if len(un[key]):
                    k = np.round((states[n][key] - un[key]) @ np.linalg.inv(B))
                    v[uk] = v[uk] + fl.grad(k @ B)
            self.flatten(v)
        return v

    def lattice(self, frame):
        return loads.lattice(self.load, frame, self.dt) if self.load is not None else PROVIDED_BOX.get(self.number)


PROVIDED_BOX = {2: np.diag([8.0, 8.0, 8.0])}


def rotate(r, w, dt):
    """Rodrigues rotation of the marker pairs r[i, j] about w[i] by |w| dt."""
    out = np.array(r, float)
    for i in range(len(r)):
        s = np.linalg.norm(w[i])
        if s == 0:
            continue
        k = w[i] / s
        th = s * dt
        for j in range(2):
            q = r[i, j]
            out[i, j] = q * np.cos(th) + np.cross(k, q) * np.sin(th) + k * (k @ q) * (1 - np.cos(th))
    return out


def states_of(data, frames, ns):
    """Saved rows of an output file as states keyed by frame number."""
    out = {}
    for row, f in enumerate(frames):
        c = np.asarray(data["centres"][row], float)
        out[f] = dict(x=c[:ns], y=c[ns:], d=np.asarray(data["deltax"][row], float).reshape(-1, 3), rot=np.asarray(data["sphere_rotations"][row], float).reshape(-1, 2, 3))
    return out
