"""Small stand-alone helpers for the demonstrations (run in the repository)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
SD = os.path.join(REPO, 'stokesian_dynamics')
FRS = os.path.join(REPO, 'find_resistance_scalars')
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
_cache = tempfile.mkdtemp(prefix='demo_cache_')
os.environ['NUMBA_CACHE_DIR'] = _cache
os.environ['MPLBACKEND'] = 'Agg'

import atexit  # noqa: E402
import numpy as np  # noqa: E402
atexit.register(shutil.rmtree, _cache, True)


def fail(message):
    print('DEMO FAILED:', message)
    sys.exit(1)


def expect(ok, message):
    if not ok:
        fail(message)


def close(a, b, message, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol):
        fail(f'{message}: {a.tolist()} is not {b.tolist()}')


def posdata(spheres, sizes=None, dumbbells=(), deltax=(), bead_sizes=None):
    x = np.array(spheres, float).reshape(-1, 3)
    d = np.array(dumbbells, float).reshape(-1, 3)
    dx = np.array(deltax, float).reshape(-1, 3)
    a = np.ones(len(x)) if sizes is None else np.array(sizes, float)
    b = 0.1*np.ones(len(d)) if bead_sizes is None else np.array(bead_sizes,
                                                                 float)
    rot = np.array([[[x[i][0]+a[i], x[i][1], x[i][2]],
                     [x[i][0], x[i][1], x[i][2]+a[i]]]
                    for i in range(len(x))]).reshape(-1, 2, 3)
    return (a, x, rot, b, d, dx)


def setup(settings=None, jit=False):
    """Make the repository importable in this process."""
    sys.path.insert(0, SD)
    sys.argv = ['demo']
    import settings as s
    s.view_graphics = False
    for key, value in (settings or {}).items():
        setattr(s, key, value)
    if not jit:
        import numba
        numba.config.DISABLE_JIT = True


_loads = []


def solve(pd, form='fte', box=None, mu=1, cutoff=2, minf_only=False,
          drag=False, flow=None, frameno=0, dt=0.1, minv=None, regen=True,
          extract=False, last=(), **given):
    """One solve at the given positions for the given prescribed values.
    Returns a dictionary of its results."""
    import setups.inputs as inputs
    import functions.timestepping as ts
    if not _loads:
        mods = [m for m in list(sys.modules.values())
                if getattr(m, 'input_ftsuoe', None) is inputs.input_ftsuoe]
        real = inputs.input_ftsuoe

        def replaced(n, *args, **kw):
            if n == 1 and _loads[-1] is not None:
                return _loads[-1](real(1, *args, **kw), args[0])
            return real(n, *args, **kw)
        for m in mods:
            m.input_ftsuoe = replaced
    names = ['Fa', 'Ta', 'Sa', 'Sac', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Eac',
             'Ub', 'HDUb', 'desc', 'U', 'O', 'centre', 'Ot', 'Et', 'bl', 'tr',
             'mu']

    def load(out, p):
        out = dict(zip(names, out))
        for k in ('Fa', 'Ta', 'Sa', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ub',
                  'HDUb'):
            if k in given:
                value = given[k]
                for i, row in enumerate(value):
                    out[k][i] = row
            elif k == 'Fa' and form in ('fte', 'fts'):
                for i in range(len(out[k])):
                    out[k][i] = [0, 0, 0]
            elif k == 'Fa':
                for i in range(len(out[k])):
                    out[k][i] = ['pippa']*3
        if box is not None:
            out['bl'], out['tr'] = np.array(box[0]), np.array(box[1])
        out['mu'] = mu
        for k, v in (flow or {}).items():
            out[k] = np.array(v, float)
        return tuple(out[k] for k in names)
    _loads.append(load)
    n = 11*len(pd[0]) + 6*len(pd[3])
    minv = np.zeros((n, n)) if minv is None else minv
    out = ts.generate_output_FTSUOE(
        pd, frameno, dt, 1, minv, regen, form, cutoff, 0, drag, minf_only,
        extract, list(last), [0]*n)
    keys = ['Fa', 'Ta', 'Sa', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ub', 'HDUb',
            'Minv', 'times', 'Uinf', 'Oinf', 'centre', 'Ot', 'Et', 'wall',
            'lvv']
    return dict(zip(keys, out))


_BOOT = r'''
import json, os, sys, runpy
import numpy as np
spec = json.load(open(sys.argv[1]))
sys.path.insert(0, spec['SD'])
sys.argv = ['run_simulation.py'] + spec['argv']
if not spec['jit']:
    import numba
    numba.config.DISABLE_JIT = True
import settings
settings.view_graphics = False
for k, v in spec['settings'].items():
    setattr(settings, k, v)
if spec['pd'] is not None:
    import setups.tests.positions as tp
    p = spec['pd']
    shapes = [(-1,), (-1, 3), (-1, 2, 3), (-1,), (-1, 3), (-1, 3)]
    def pos(n):
        return tuple(np.array(x, float).reshape(s)
                     for x, s in zip(p, shapes)), ''
    tp.pos_setup_tests = pos
if spec['load']:
    exec(spec['load'])
if spec['clock']:
    import time, datetime as dt
    real = time.strftime
    time.strftime = lambda f, *a: (spec['clock'] if f == '%y%m%d%H%M'
                                   else real(f, *a))
runpy.run_path(os.path.join(spec['SD'], 'run_simulation.py'),
               run_name='__main__')
'''


def run(wd, argv, pd=None, settings=None, load=None, jit=False, clock=None,
        timeout=250, stdin=''):
    """Run run_simulation.py in its own process, in the directory `wd`.
    `load` is Python source run before it (it may replace input functions)."""
    os.makedirs(os.path.join(wd, 'output'), exist_ok=True)
    spec = dict(SD=SD, argv=[str(a) for a in argv], settings=settings or {},
                pd=[np.asarray(p).tolist() for p in pd] if pd else None,
                load=load, jit=jit, clock=clock)
    path = os.path.join(wd, 'spec.json')
    with open(path, 'w') as f:
        json.dump(spec, f)
    boot = os.path.join(wd, 'boot.py')
    with open(boot, 'w') as f:
        f.write(_BOOT)
    r = subprocess.run([sys.executable, boot, path], cwd=wd, input=stdin,
                       capture_output=True, text=True, timeout=timeout)
    os.remove(path)
    os.remove(boot)
    return r


def outputs(wd, temp=False):
    d = os.path.join(wd, 'output')
    return sorted(f for f in os.listdir(d) if f.endswith('.npz')
                  and f.endswith('_TEMP.npz') == temp)


def result(wd, name=None):
    name = name or outputs(wd)[-1]
    with np.load(os.path.join(wd, 'output', name)) as d:
        return {k: d[k] for k in d.files}


def scratch():
    d = tempfile.mkdtemp(prefix='demo_')
    atexit.register(shutil.rmtree, d, True)
    return d
