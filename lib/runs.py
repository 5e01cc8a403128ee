"""Random program runs: particles, loading, scheme, options; executed by drive, predicted by integ."""
import os
import shutil
import tempfile

import numpy as np

from . import drive, gen, integ, loads, oracle
from . import solver as S

SETUP, INPUT = -900, 90001
BASE = dict(view_graphics=False)
DTS = [0.1, 0.05, 0.025, 0.2, 0.01, 0.125]


def particles(rng, ns, nd, sizes=(1.0,), beads=(0.1,), box=None, lat=None, gap=2.1, flat=False, spread=None):
    image = oracle.nearest_image(lat) if lat is not None else None
    region = box
    if flat:
        b = spread or 3.0 + 1.2 * (ns + nd)
        region = (np.array([-b, 0.0, -b]), np.array([b, 0.0, b]))
    return gen.config(rng, ns, nd, sizes, beads, gap=gap, image=image, box=region, near=not flat, length=(0.8, 2.2), spread=spread)


def random_flow(rng, steady=None, shear=None):
    f = dict(U=rng.normal(size=3), O=rng.normal(size=3) * 0.5, E=S.random_strain(rng, 0.4), centre=rng.normal(size=3) * 2)
    if not (steady if steady is not None else rng.random() < 0.4):
        f.update(w=float(rng.uniform(1, 6)), ph=float(rng.uniform(0, 3)))
    if shear is not None:
        f = dict(shear=shear, centre=f["centre"], **{k: f[k] for k in ("w", "ph") if k in f})
        if "ph" in f:
            f["ph"] = 0.0
    return f


def random_load(rng, ns, nd, form="fte", flow=True, fixed=None, fixed_d=None):
    d = dict(Fa=rng.normal(size=(ns, 3)) * 3, Ta=rng.normal(size=(ns, 3)) * 3, Fb=rng.normal(size=(nd, 3)) * 0.3, DFb=rng.normal(size=(nd, 3)) * 0.2)
    d = {k: v.tolist() for k, v in d.items()}
    if rng.random() < 0.5:
        d["tf"] = dict(w=float(rng.uniform(1, 8)), ph=float(rng.uniform(0, 3)))
    if rng.random() < 0.6:
        d["trap"] = dict(k=float(rng.uniform(0.1, 0.6)), c=rng.normal(size=3).tolist())
    if nd and rng.random() < 0.7:
        d["spring"] = dict(k=float(rng.uniform(0.2, 1.0)), n=float(rng.uniform(0.8, 2.0)))
    if form in ("ufte", "ufteu"):
        k = int(rng.integers(0, ns + 1)) if fixed is None else fixed
        d["Ua"] = rng.normal(size=(k, 3)).tolist() + [None] * (ns - k)
        d["Fa"] = [None] * k + d["Fa"][k:]
    if form in ("ufteu", "duf"):
        k = int(rng.integers(0, nd + 1)) if fixed_d is None else fixed_d
        d["Ub"] = (rng.normal(size=(k, 3)) * 0.5).tolist() + [None] * (nd - k)
        d["HDUb"] = (rng.normal(size=(k, 3)) * 0.2).tolist() + [None] * (nd - k)
        d["Fb"] = [None] * k + d["Fb"][k:]
        d["DFb"] = [None] * k + d["DFb"][k:]
    if form == "ufteu":
        d["Ea"] = np.zeros((max(ns, 1), 3, 3)).tolist()
    if flow and form != "fts" and rng.random() < 0.7:
        d["flow"] = random_flow(rng)
        d.pop("Ea", None)
    if rng.random() < 0.3:
        d["mu"] = float(rng.choice([0.5, 2.0, 3.0]))
    return d


class Run:
    """A program run in its own scratch directory."""

    def __init__(self, pd, load=None, number=None, setup=None, form="fte", dt=0.1, frames=4, settings=None, extra=None, argv=None, jit=False):
        self.pd, self.load, self.number, self.form, self.dt, self.frames = pd, load, number, form, dt, frames
        self.settings = dict(BASE, **(settings or {}))
        self.setup = setup if setup is not None else SETUP
        self.input = number if number is not None else INPUT
        self.argv = argv or [self.setup, self.input, dt, frames, form]
        self.extra = extra or {}
        self.jit = jit
        self.wd = tempfile.mkdtemp(prefix="run-")

    def spec(self, **kw):
        s = dict(argv=[str(a) for a in self.argv], settings=self.settings, jit=self.jit, **self.extra)
        if self.pd is not None:
            s["setups"] = {self.setup: self.pd}
        if self.load is not None:
            s["inputs"] = {self.input: self.load}
        s.update(kw)
        return s

    def go(self, **kw):
        self.res = drive.run(self.wd, self.spec(**kw))
        if self.res["timeout"] or self.res["rc"] == 71:
            raise RuntimeError("run did not complete: %s %s" % (self.res["rc"], self.res["err"][-500:]))
        return self.res

    def files(self):
        return drive.outputs(self.wd)

    def backups(self):
        return drive.outputs(self.wd, temp=True)

    def data(self, name=None):
        return drive.load(self.wd, name or self.files()[0])

    def problem(self, **kw):
        st = self.settings
        opts = dict(load=self.load, number=self.number if self.load is None else None, form=self.form, dt=self.dt, scheme=st.get("timestepping_scheme", "euler"),
                    every=st.get("invert_m_every", 1), stages=st.get("rk4_generate_minfinity_for_each_stage", True), flat=st.get("fully_2d_problem", False),
                    kw=dict(cutoff=st.get("cutoff_factor", 2), minf_only=st.get("use_Minfinity_only", False), drag=st.get("use_drag_Minfinity", False)))
        opts.update(kw)
        return integ.Problem(self.pd[0], self.pd[3], **opts)

    def describe(self):
        return dict(setup=self.setup, input=self.input, form=self.form, dt=self.dt, frames=self.frames, settings=self.settings,
                    conf=gen.describe(self.pd) if self.pd is not None else None, load=self.load)

    def replay(self):
        return self.spec()

    def clean(self):
        shutil.rmtree(self.wd, ignore_errors=True)

    def failure(self):
        r = self.res
        if r["rc"] == 0:
            return None
        return "the program ended with %s: %s" % ("signal %s" % r["signal"] if r["signal"] else "exit %s" % r["rc"], (r["err"] or r["out"])[-600:].strip())


def snapshot(wd):
    """Content hashes of everything in the output folder."""
    import hashlib
    out = {}
    d = os.path.join(wd, "output")
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def random_run(rng, ns, nd, scheme, form="fte", periodic=False, flow=True, flat=False, frames=None, every=1, stages=True, sizes=(1.0,), beads=(0.1,), dt=None, settings=None, gap=2.1, sheared=None):
    dt = dt or float(rng.choice(DTS))
    frames = frames or int(rng.integers(3, 7))
    st = dict(timestepping_scheme=scheme, invert_m_every=every, rk4_generate_minfinity_for_each_stage=stages, **(settings or {}))
    load = random_load(rng, ns, nd, form, flow=flow and not periodic)
    box = lat = None
    if periodic:
        L = rng.uniform(7, 10, 3)
        c = rng.choice([0.0, 1.0]) * rng.normal(size=3) * 4
        load["box"] = [(c - L / 2).tolist(), (c + L / 2).tolist()]
        if sheared if sheared is not None else rng.random() < 0.6:
            load["flow"] = random_flow(rng, shear=float(rng.uniform(-2, 2)))
            load.pop("Ea", None)
        lat = loads.lattice(load, 0, dt)
        box = (c - L / 2, c + L / 2)
    if flat:
        st["fully_2d_problem"] = True
        load.pop("flow", None)
    pd = particles(rng, ns, nd, sizes, beads, box=box, lat=lat, gap=gap, flat=flat)
    return Run(pd, load=load, form=form, dt=dt, frames=frames, settings=st)
