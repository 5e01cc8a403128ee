"""In-process access to the solve of /repo through its test-pinned entry point, with injected inputs.

The code under test is imported from the current working tree.  Inputs are injected by wrapping the
input function before the solver imports it; nothing in /repo is changed.
"""
import importlib
import inspect
import os
import sys

import numpy as np

from . import common

_loaded = {}
REG = {}          # input number -> spec (dict) or callable(posdata, frameno, timestep) -> spec
FIRST = 90000
NAMES = ["Fa", "Ta", "Sa", "Sa_c", "Fb", "DFb", "Ua", "Oa", "Ea", "Ea_c", "Ub", "HDUb", "desc", "Uinf", "Oinf", "centre",
         "Ot", "Et", "box_bl", "box_tr", "mu"]


class RepoError(Exception):
    """The code under test raised or exited."""

    def __init__(self, exc):
        super().__init__("%s: %s" % (type(exc).__name__, exc))
        self.exc = exc


class Malformed(RepoError):
    """The code under test returned something that is not numbers of the right shape."""


def rows(x, placeholder):
    return [placeholder[:] if r is None else [float(v) for v in r] for r in x]


def mats(x):
    return [[[float(v) for v in r] for r in m] for m in x]


def wrap_inputs(orig):
    def input_ftsuoe(n, posdata, frameno, timestep, last_velocities, *args, **kw):
        if not (isinstance(n, (int, np.integer)) and n in REG):
            return orig(n, posdata, frameno, timestep, last_velocities, *args, **kw)
        spec = REG[n]
        if callable(spec):
            spec = spec(posdata, frameno, timestep)
        base = orig(1, posdata, frameno, timestep, last_velocities, *args, **kw)
        out = list(base)
        ns, nd = len(posdata[0]), len(posdata[3])
        form = kw.get("input_form", args[0] if args else "undefined")
        # a placeholder row ("not given") as the code itself makes it
        bare = orig(5, posdata, frameno, timestep, last_velocities)
        ph = None
        for cand in (bare[7], bare[10], bare[0]):
            if len(cand):
                ph = list(cand[0])
                break
        for key, idx in (("Fa", 0), ("Ta", 1), ("Fb", 4), ("DFb", 5), ("Ua", 6), ("Oa", 7), ("Ub", 10), ("HDUb", 11)):
            cnt = nd if key in ("Fb", "DFb", "Ub", "HDUb") else ns
            if key in spec and spec[key] is not None:
                v = rows(spec[key], ph)
                assert len(v) == cnt, (key, len(v), cnt)
                out[idx] = v
            elif idx == 0:
                out[idx] = [ph[:] for _ in range(cnt)] if form in ("ufte", "ufteu") else [[0., 0., 0.] for _ in range(cnt)]
        if spec.get("Ea") is not None:
            out[8] = mats(spec["Ea"])
        if spec.get("Sa") is not None:
            out[2] = mats(spec["Sa"])
        for key, idx in (("Uinf", 13), ("Oinf", 14), ("centre", 15), ("Ot", 16), ("Et", 17), ("box_bl", 18), ("box_tr", 19)):
            if spec.get(key) is not None:
                out[idx] = np.array(spec[key], float)
        if spec.get("mu") is not None:
            out[20] = spec["mu"]
        out[12] = spec.get("desc", "")
        if hasattr(type(base), "_make"):
            return type(base)._make(out)
        return type(base)(out) if isinstance(base, (tuple, list)) else tuple(out)
    return input_ftsuoe


def find_input_function(mod):
    f = getattr(mod, "input_ftsuoe", None)
    if f is not None:
        return "input_ftsuoe"
    for name, f in vars(mod).items():
        if inspect.isfunction(f) and f.__module__ == mod.__name__ and "last_velocities" in inspect.signature(f).parameters:
            return name
    raise ImportError("no input function found")


# Helpers some properties are about: where they live and what they are given.
HELPERS = {
    "repulsion_forces": ("setups.functions_inputs", "strength tau num_spheres num_dumbbells sphere_positions dumbbell_positions dumbbell_deltax sphere_sizes dumbbell_sizes num_sphere_in_each_lid Fa_in Fb_in DFb_in last_velocities"),
    "oscillatory_shear": ("setups.functions_inputs", "amplitude period frameno timestep phase centre_of_background_flow num_spheres unused_axis transpose_shear opposite_direction"),
    "constant_shear": ("setups.functions_inputs", "gammadot frameno timestep centre_of_background_flow num_spheres"),
    "pos_setup": ("setups.positions", "n"),
    "add_sphere_rotations_to_positions": ("functions.shared", "sphere_positions sphere_sizes sphere_rotations"),
    "format_elapsed_time": ("functions.shared", "elapsed_time"),
    "sizeof_fmt": ("functions.shared", "num suffix"),
    "format_time_left": ("functions.timestepping", "timeleft flags"),
    "format_finish_time": ("functions.timestepping", "timeleft flags"),
    "calculate_time_left": ("functions.timestepping", "times frameno num_frames invert_m_every checkpoint_start_from_frame"),
    "same_setup_as": ("functions.shared", "filename frameno sphere_size dumbbell_size local"),
    "feed_particles_from_bottom": ("functions.shared", "posdata feed_every_n_timesteps feed_from_file frameno reference_particle"),
}


def helper(name, module=None):
    """A helper of the code under test: by name where it was, by name in another module, or renamed (same parameters, one candidate)."""
    sd = load()["sd"]
    home, params = HELPERS.get(name, (module, None))
    home = importlib.import_module(home)
    if hasattr(home, name):
        return getattr(home, name)
    for d in ("functions", "setups"):
        for f in sorted(os.listdir(os.path.join(sd, d))) if os.path.isdir(os.path.join(sd, d)) else []:
            if f.endswith(".py"):
                try:
                    mod = importlib.import_module("%s.%s" % (d, f[:-3]))
                except Exception:
                    continue
                if hasattr(mod, name):
                    return getattr(mod, name)
    if params:
        same = [f for f in vars(home).values() if inspect.isfunction(f) and f.__module__ == home.__name__ and f.__name__ not in HELPERS and list(inspect.signature(f).parameters) == params.split()]
        if len(same) == 1:
            return same[0]
    raise ImportError("no function %s found" % name)


def load(jit=False, overrides=None, argv=None):
    """Import the code under test once per process."""
    if _loaded:
        return _loaded
    sd = os.environ.get("VERIF_SD", common.SD)
    sys.path.insert(0, sd)
    sys.argv = argv or ["run_simulation.py"]
    import settings
    for k, v in (overrides or {}).items():
        setattr(settings, k, v)
    import numba
    numba.config.DISABLE_JIT = not jit
    inputs = importlib.import_module("setups.inputs")
    name = find_input_function(inputs)
    orig = getattr(inputs, name)
    setattr(inputs, name, wrap_inputs(orig))
    ts = importlib.import_module("functions.timestepping")
    _loaded.update(settings=settings, inputs=inputs, ts=ts, orig_input=orig, sd=sd)
    return _loaded


def posdata(spheres=None, dumbbells=None):
    """spheres: list of (radius, xyz); dumbbells: list of (radius, xyz, deltax)."""
    spheres, dumbbells = spheres or [], dumbbells or []
    sizes = np.array([s[0] for s in spheres], float)
    pos = np.array([s[1] for s in spheres], float).reshape(-1, 3)
    rot = np.zeros((len(spheres), 2, 3))
    if len(spheres):
        rot[:, 0] = pos + sizes[:, None] * np.array([1., 0, 0])
        rot[:, 1] = pos + sizes[:, None] * np.array([0., 0, 1])
    dsz = np.array([d[0] for d in dumbbells], float)
    dpos = np.array([d[1] for d in dumbbells], float).reshape(-1, 3)
    ddx = np.array([d[2] for d in dumbbells], float).reshape(-1, 3)
    return (sizes, pos, rot, dsz, dpos, ddx)


_counter = [FIRST]


def register(spec):
    _counter[0] += 1
    REG[_counter[0]] = spec
    return _counter[0]


OUT = ["Fa", "Ta", "Sa", "Fb", "DFb", "Ua", "Oa", "Ea", "Ub", "HDUb", "Minv", "gen_times", "Uinf", "Oinf", "centre", "Ot", "Et", "wall", "lvv"]


def solve(pd, spec, form="fte", cutoff=2, minf_only=False, drag=False, extract=False, frameno=0, timestep=0.1,
          Minv=None, regen=True, last_velocities=None, number=None, raw=False):
    """One solve. Returns dict of arrays. Raises RepoError if the code under test fails."""
    m = load()
    ns, nd = len(pd[0]), len(pd[3])
    n = number if number is not None else register(spec)
    if last_velocities is None:
        z = np.zeros((ns, 3))
        last_velocities = [z, np.zeros((nd, 3)), np.zeros((nd, 3)), z]
    lvv = [0 for _ in range(11 * ns + 6 * nd)]
    try:
        res = m["ts"].generate_output_FTSUOE(
            pd, frameno, timestep, n, np.array([0]) if Minv is None else Minv, regen, form, cutoff, 0, drag, minf_only, extract,
            last_velocities, lvv)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        raise RepoError(e) from e
    finally:
        if number is None:
            REG.pop(n, None)
    if raw:
        return res
    try:
        return tidy(dict(zip(OUT, res)), ns, nd)
    except (ValueError, TypeError, KeyError) as e:
        raise Malformed(e) from e


def tidy(out, ns, nd):
    sh = dict(Fa=(ns, 3), Ta=(ns, 3), Fb=(nd, 3), DFb=(nd, 3), Ua=(ns, 3), Oa=(ns, 3), Ub=(nd, 3), HDUb=(nd, 3))
    for k, s in sh.items():
        a = np.asarray(out[k], float)
        out[k] = a.reshape(s) if a.size == 0 else a
    for k in ("Ea", "Sa"):
        a = np.asarray(out[k], float)
        if a.size and a.ndim == 2 and a.shape[1] == 5:
            a = np.array([uncondense(r) for r in a])
        out[k] = a.reshape(ns, 3, 3) if a.size == 0 else a
    return out


# --- condensed <-> full strain/stresslet (test-pinned convention) -------------------------------
RP, RM, S2 = (np.sqrt(3) + 1) / 2, (np.sqrt(3) - 1) / 2, np.sqrt(2)


def condense(S):
    S = np.asarray(S, float)
    return np.array([RP * S[0, 0] + RM * S[1, 1], S2 * S[0, 1], RM * S[0, 0] + RP * S[1, 1], S2 * S[0, 2], S2 * S[1, 2]])


def uncondense(c):
    # inverse of [[RP,RM],[RM,RP]]
    det = RP * RP - RM * RM
    sxx = (RP * c[0] - RM * c[2]) / det
    syy = (RP * c[2] - RM * c[0]) / det
    return np.array([[sxx, c[1] / S2, c[3] / S2], [c[1] / S2, syy, c[4] / S2], [c[3] / S2, c[4] / S2, -sxx - syy]])


def random_strain(rng, scale=1.0):
    A = rng.normal(size=(3, 3))
    A = (A + A.T) / 2
    A -= np.eye(3) * np.trace(A) / 3
    return scale * A


def grand_velocity(o):
    """(U, Omega, E, Ub, HalfDUb) of a solve as one vector (condensed strain)."""
    return np.concatenate([o["Ua"].ravel(), o["Oa"].ravel(), np.array([condense(e) for e in o["Ea"]]).ravel(), o["Ub"].ravel(), o["HDUb"].ravel()])


def grand_force(o):
    return np.concatenate([o["Fa"].ravel(), o["Ta"].ravel(), np.array([condense(e) for e in o["Sa"]]).ravel(), o["Fb"].ravel(), o["DFb"].ravel()])


def spec_from_force_vector(v, ns, nd, base=None):
    v = np.asarray(v, float)
    s = dict(base or {})
    s["Fa"] = v[:3 * ns].reshape(ns, 3)
    s["Ta"] = v[3 * ns:6 * ns].reshape(ns, 3)
    s["Sa"] = [uncondense(c) for c in v[6 * ns:11 * ns].reshape(ns, 5)]
    s["Fb"] = v[11 * ns:11 * ns + 3 * nd].reshape(nd, 3)
    s["DFb"] = v[11 * ns + 3 * nd:].reshape(nd, 3)
    return s


def mobility(pd, base=None, **kw):
    """Grand mobility matrix observed column by column through FTS solves (reusing the stored long-range matrix)."""
    ns, nd = len(pd[0]), len(pd[3])
    n = 11 * ns + 6 * nd
    M = np.zeros((n, n))
    Minv = None
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1
        o = solve(pd, spec_from_force_vector(e, ns, nd, base), form="fts", Minv=Minv, regen=(Minv is None), **kw)
        Minv = o["Minv"]
        M[:, j] = grand_velocity(o)
    return M
