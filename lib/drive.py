"""Runs the simulation program of /repo in a scratch directory under a JSON specification.

A server process imports third-party packages only; each request forks a child which changes to its
directory, applies documented settings, injects positions and loadings, and executes run_simulation.py as __main__.

Spec: argv (list of str), settings (dict), setups {number: posdata lists}, inputs {number: load description}, jit, np_seed, stdin,
      kill {at: solve|frame|open|remove|fsize, k: int, bytes: int}, timeout, script (file name in stokesian_dynamics), trace (bool), clock (str),
      timescale (time.time runs this much faster), sd (folder to run instead), pictures (file for records of what was drawn),
      smtp {mode: ok|refused|login} (stand-in mail server, records to smtp.json), constants {name: value} (top-level constants of the script a user is told to edit)
"""
import inspect
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Runner:
    """Client side: one server process."""

    def __init__(self):
        env = dict(os.environ, PYTHONPATH=HERE, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def run(self, wd, spec):
        """Returns dict(rc, signal, timeout, out, err)."""
        os.makedirs(wd, exist_ok=True)
        spec = dict(spec, wd=wd)
        from . import common
        self.p.stdin.write((json.dumps(common.jsonable_full(spec)) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("driver server died")
        r = json.loads(line)
        for k in ("out", "err"):
            with open(os.path.join(wd, ".%s" % k), errors="replace") as f:
                r[k] = f.read()
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


_runner = []


def runner():
    if not _runner or _runner[0].p.poll() is not None:
        _runner[:] = [Runner()]
    return _runner[0]


def run(wd, spec):
    return runner().run(wd, spec)


def outputs(wd, temp=False):
    """Names of finished output files (or backups) in wd/output."""
    d = os.path.join(wd, "output")
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d) if f.endswith("_TEMP.npz") == temp and f.endswith(".npz"))


def load(wd, name):
    import numpy as np
    with np.load(os.path.join(wd, "output", name), allow_pickle=True) as z:
        return {k: z[k] for k in z.files}


# ---------------------------------------------------------------------------------------------- server side
def child(spec):
    import signal
    wd = spec["wd"]
    os.chdir(wd)
    if spec.get("mkdir", True):
        os.makedirs("output", exist_ok=True)
    sd = spec.get("sd") or os.environ.get("VERIF_SD") or os.path.join(os.environ.get("VERIF_REPO", "/repo"), "stokesian_dynamics")
    for fd, name, flags in ((1, ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (2, ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
        if fd == 1 and (spec.get("kill") or {}).get("at") == "fsize":
            open(name, "w").close()
            name = os.devnull  # only output files are to hit the limit
        f = os.open(name, flags, 0o644)
        os.dup2(f, fd)
        os.close(f)
    with open(".in", "w") as f:
        f.write(spec.get("stdin", ""))
    f = os.open(".in", os.O_RDONLY)
    os.dup2(f, 0)
    os.close(f)
    sys.stdin = os.fdopen(0, "r")
    sys.stdout = os.fdopen(1, "w", 1)
    sys.stderr = os.fdopen(2, "w", 1)
    code = 70
    try:
        execute(spec, sd, signal)
        code = 0
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code
        else:
            sys.stderr.write(str(e.code) + "\n")
            code = 1
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 1
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)


class HarnessFault(BaseException):
    pass


def execute(spec, sd, signal):
    import numpy as np
    import numba
    import importlib
    import runpy
    script = os.path.join(sd, spec.get("script", "run_simulation.py"))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(HERE, "lib")]
    sys.path.insert(0, sd)
    sys.argv = [script] + [str(a) for a in spec.get("argv", [])]
    if spec.get("np_seed") is not None:
        np.random.seed(spec["np_seed"])
    kill = spec.get("kill")
    count = {}

    def die():
        sys.stdout.flush()
        os.kill(os.getpid(), signal.SIGKILL)
        time.sleep(60)

    def tick(what):
        if kill and kill["at"] == what:
            count[what] = count.get(what, 0) + 1
            if count[what] == kill["k"]:
                die()

    if kill and kill["at"] in ("open", "remove"):
        out = os.path.join(os.getcwd(), "output")

        def hook(event, args):
            if event == "open" and kill["at"] == "open" and isinstance(args[0], str):
                mode = args[1]
                if (mode is None or any(c in str(mode) for c in "wxa+")) and os.path.abspath(args[0]).startswith(out):
                    if mode is not None or (args[2] & (os.O_WRONLY | os.O_RDWR)):
                        tick("open")
            elif event in ("os.remove", "os.rename") and kill["at"] == "remove" and os.path.abspath(str(args[0])).startswith(out):
                tick("remove")
        sys.addaudithook(hook)
    if kill and kill["at"] == "fsize":
        import resource
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (kill["bytes"], kill["bytes"]))
    import settings
    for k, v in (spec.get("settings") or {}).items():
        if not hasattr(settings, k):
            sys.stderr.write("HARNESS: no setting %s\n" % k)
            os._exit(71)
        cur = getattr(settings, k)
        setattr(settings, k, np.array(v) if isinstance(cur, np.ndarray) else v)
    numba.config.DISABLE_JIT = not spec.get("jit", False)
    setups = {int(k): v for k, v in (spec.get("setups") or {}).items()}
    if setups:
        mod = importlib.import_module("setups.tests.positions")
        orig = mod.pos_setup_tests

        def pos_setup_tests(n, *a, **kw):
            if n in setups:
                p = setups[n]
                sh = [(-1,), (-1, 3), (-1, 2, 3), (-1,), (-1, 3), (-1, 3)]
                return tuple(np.array(x, float).reshape(s) for x, s in zip(p, sh)), spec.get("setup_desc", "")
            return orig(n, *a, **kw)
        mod.pos_setup_tests = pos_setup_tests
    inputs = {int(k): v for k, v in (spec.get("inputs") or {}).items()}
    if inputs:
        from lib import loads, solver
        for n, d in inputs.items():
            solver.REG[n] = loads.make(d)
        mod = importlib.import_module("setups.inputs")
        name = solver.find_input_function(mod)
        setattr(mod, name, solver.wrap_inputs(getattr(mod, name)))
    if kill and kill["at"] in ("solve", "solved") or spec.get("trace"):
        ts = importlib.import_module("functions.timestepping")
        gen = ts.generate_output_FTSUOE
        trace = open("trace.jsonl", "w") if spec.get("trace") else None

        def generate_output_FTSUOE(*a, **kw):
            tick("solve")
            r = gen(*a, **kw)
            if trace:
                arg = list(inspect.signature(gen).bind(*a, **kw).arguments.values())
                trace.write(json.dumps(dict(frame=float(arg[1]), regen=bool(arg[5]), x=np.asarray(arg[0][1]).tolist())) + "\n")
                trace.flush()
            tick("solved")
            return r
        ts.generate_output_FTSUOE = generate_output_FTSUOE
    if spec.get("clock"):
        real = time.strftime
        time.strftime = lambda fmt, *a: spec["clock"] if fmt == "%y%m%d%H%M" and not a else real(fmt, *a)
    if spec.get("timescale"):
        now, t0 = time.time, time.time()
        time.time = lambda: t0 + (now() - t0) * spec["timescale"]
    if spec.get("smtp"):
        fake_mail(spec["smtp"])
    if spec.get("pictures"):
        from lib import pictures
        pictures.install(spec["pictures"])
    if spec.get("constants"):
        edit_constants(script, spec["constants"])
    runpy.run_path(script, run_name="__main__")


def fake_mail(how):
    """Stand-in for the mail server: records what it is asked, refuses if told to."""
    import smtplib
    log = []

    def note(*e):
        log.append(e)
        with open("smtp.json", "w") as f:
            json.dump(log, f)

    class SMTP:
        def __init__(self, host="", port=0, *a, **kw):
            note("connect", str(host), int(port))
            if how["mode"] == "refused":
                raise ConnectionRefusedError("stand-in server refuses")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            note("quit")

        def sendmail(self, sender, to, msg, *a, **kw):
            note("sendmail", str(sender), [to] if isinstance(to, str) else list(to), msg if isinstance(msg, str) else bytes(msg).decode())
            return {}

        def send_message(self, msg, *a, **kw):
            note("sendmail", str(msg["From"]), [str(msg["To"])], msg.as_string())
            return {}

        def login(self, user, *a, **kw):
            note("login", str(user))
            if how["mode"] == "login":
                raise smtplib.SMTPAuthenticationError(535, b"stand-in server refuses")

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def call(*a, **kw):
                note(name)
                return (250, b"ok")
            return call
    smtplib.SMTP = smtplib.SMTP_SSL = SMTP


def edit_constants(script, new):
    """What the documentation asks the user to do: change the values at the top of the script (a copy)."""
    import ast
    text = open(script, newline="").read()
    lines = text.splitlines(True)
    todo = dict(new)
    for node in ast.parse(text).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in todo:
            name = node.targets[0].id
            lines[node.lineno - 1:node.end_lineno] = ["%s = %s\n" % (name, todo.pop(name))] + [""] * (node.end_lineno - node.lineno)
    if todo:
        sys.stderr.write("HARNESS: no constants %s\n" % sorted(todo))
        os._exit(71)
    with open(script, "w", newline="") as f:
        f.write("".join(lines))


def server():
    import numpy, scipy, scipy.linalg, scipy.spatial.distance, scipy.special, numba, psutil, textwrap, glob, re, datetime, socket  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, matplotlib.animation  # noqa
    try:
        import mpl_toolkits.mplot3d  # noqa
    except Exception:
        pass
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    inp = os.fdopen(os.dup(0), "r")
    for line in inp:
        spec = json.loads(line)
        pid = os.fork()
        if pid == 0:
            child(spec)
        t0 = time.time()
        limit = spec.get("timeout", 240)
        timeout = False
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > limit:
                os.kill(pid, 9)
                timeout = True
                p, st = os.waitpid(pid, 0)
                break
            time.sleep(0.005)
        r = dict(rc=os.WEXITSTATUS(st) if os.WIFEXITED(st) else None, signal=os.WTERMSIG(st) if os.WIFSIGNALED(st) else None, timeout=timeout, wall=time.time() - t0)
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__" and "--server" in sys.argv:
    server()
