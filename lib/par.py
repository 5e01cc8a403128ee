"""Run randomised cases of a check on several processes; each case records observations which the parent feeds to its monitors."""
import concurrent.futures as cf
import importlib
import multiprocessing as mp
import os
import time
import traceback
import zlib

import numpy as np

from . import common


class Recorder:
    """Same mon()/close() interface as Check, collecting events in a worker process."""

    close = common.Check.close

    def __init__(self):
        self.events = []
        self.counts = {}

    def mon(self, name, ok, state=None, detail="", replay=None, key=None, sample=None, err=None):
        ok = bool(ok)
        state = common.jsonable(state)
        ev = dict(name=name, ok=ok, state=state, err=None if err is None else float(err), key=key)
        if not ok:
            ev.update(detail=str(detail)[:2000], replay=common.jsonable(replay))
        if sample is not None:
            ev["sample"] = common.jsonable(sample)
        self.events.append(ev)
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


_fn = {}
DONE = "case-completes"


def raised_by_program(e):
    """Was this exception raised inside the program under test (and not by the harness, or by the harness calling it wrongly)?"""
    if isinstance(e, (KeyboardInterrupt, MemoryError, ImportError, TimeoutError)):
        return False
    if type(e).__name__ == "Malformed":
        return True
    if type(e).__name__ == "RepoError" and e.__cause__ is not None:
        return raised_by_program(e.__cause__)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.realpath(f.filename)
        if name.startswith(here):
            last = False
        elif name.startswith(os.path.realpath(common.REPO) + os.sep):
            last = True
    return bool(last)


def _init(path, fn, loader):
    import sys
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
        os.environ[v] = "1"
    sys.stdout = open(os.devnull, "w")
    spec = importlib.util.spec_from_file_location("case_module", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["case_module"] = mod
    spec.loader.exec_module(mod)
    _fn["fn"] = getattr(mod, fn)
    _fn["error"] = None
    if loader is not None:
        try:
            from . import solver
            solver.load(**loader)
        except BaseException:
            _fn["error"] = traceback.format_exc()


def _run(args):
    idx, case, prop = args
    rec = Recorder()
    if _fn["error"]:
        return idx, [], {}, _fn["error"]
    rng = np.random.default_rng([common.SEED, zlib.crc32(prop.encode()), int(common.THOROUGH), idx])
    try:
        _fn["fn"](rec, rng, case)
        rec.mon(DONE, True, dict(case=idx))
        return idx, rec.events, rec.counts, None
    except BaseException as e:
        if raised_by_program(e):
            e = e.__cause__ or e
            where = (["%s:%s" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(common.REPO) + os.sep)] or ["result"])[-1]
            rec.mon(DONE, False, dict(case=idx), "the program failed on a valid request: %s: %s (%s)" % (type(e).__name__, str(e)[:600], where), dict(case=common.jsonable(case), index=idx))
            return idx, rec.events, rec.counts, None
        return idx, rec.events, rec.counts, traceback.format_exc()[-3000:]


def run_cases(chk, path, fn, cases, loader=None, workers=None, salt=0):
    """Run fn(rec, rng, case) of the file `path` for all cases; stops early when the check is out of time or violations abound."""
    workers = workers or min(6, len(cases), os.cpu_count() or 4)
    ctx = mp.get_context("spawn")
    errors = 0
    done = 0
    if DONE not in chk.mons:
        chk.monitor(DONE, "the program under test raises nothing on the valid requests of a case", 1)
    pending = {}
    it = iter(list(enumerate(cases)))
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init, initargs=(path, fn, loader)) as ex:
        def submit():
            for idx, case in it:
                f = ex.submit(_run, (idx + 100000 * salt, case, chk.prop))
                pending[f] = case
                return True
            return False
        for _ in range(2 * workers):
            if not submit():
                break
        while pending:
            ready, _ = cf.wait(list(pending), return_when=cf.FIRST_COMPLETED, timeout=max(1.0, chk.time_left() + 60))
            if not ready:
                chk.notes.append("cases still running when time ran out: %d" % len(pending))
                for p in list(ex._processes.values()):
                    p.kill()
                break
            for f in ready:
                case = pending.pop(f)
                try:
                    idx, events, counts, err = f.result()
                except Exception as e:
                    errors += 1
                    chk.notes.append("worker failed: %r" % e)
                    if isinstance(e, cf.process.BrokenProcessPool):
                        pending.clear()
                    continue
                done += 1
                for ev in events:
                    name = ev.pop("name")
                    chk.mon(name, ev.pop("ok"), **ev)
                for k, n in counts.items():
                    chk.extra[k] = chk.extra.get(k, 0) + n
                if err:
                    errors += 1
                    if errors <= 3:
                        chk.notes.append("case %s: %s" % (idx, err))
                        print(err)
                if not chk.stop() and errors < 20:
                    submit()
    chk.extra["cases_run"] = chk.extra.get("cases_run", 0) + done
    if errors:
        chk.extra["case_harness_errors"] = chk.extra.get("case_harness_errors", 0) + errors
        chk.notes.append("%d cases ended in a harness error" % errors)
        m = chk.mons.get("harness") or chk.monitor("harness", "all cases ran to completion", 1)
    return done
