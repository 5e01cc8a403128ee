"""Shared machinery of all checks: monitors, verdicts, evidence, known findings, scratch space.

A check creates one `Check`, feeds observations to its monitors with `mon()`, and ends with `finish()`.

Verdicts:   held -> exit 0      broken -> exit 1 + VIOLATION line      inconclusive/error -> exit 2
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SD = os.path.join(REPO, "stokesian_dynamics")
FRS = os.path.join(REPO, "find_resistance_scalars")
DATA = os.path.join(VERIF, "data")
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
PY = "/opt/venv/bin/python"


def rng_for(name, seed=None):
    return np.random.default_rng([SEED if seed is None else seed, zlib.crc32(name.encode()), int(THOROUGH)])


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:500]


def jsonable_full(x):
    """Like jsonable, for data which must survive the trip (specifications)."""
    if isinstance(x, dict):
        return {str(k): jsonable_full(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable_full(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable_full(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    assert isinstance(x, (str, int, float, bool)) or x is None, type(x)
    return x


def state_key(x):
    """Stable short key of a state description (floats rounded to 6 significant digits)."""
    def canon(v):
        if isinstance(v, (float, np.floating)):
            return "%.6g" % v
        if isinstance(v, np.ndarray):
            return [canon(u) for u in v.ravel()]
        if isinstance(v, (list, tuple)):
            return [canon(u) for u in v]
        if isinstance(v, dict):
            return {k: canon(v[k]) for k in sorted(v)}
        return str(v)
    return hashlib.sha1(json.dumps(canon(x)).encode()).hexdigest()[:12]


class Monitor:
    def __init__(self, name, rule, need):
        self.name, self.rule, self.need = name, rule, need
        self.evals = 0
        self.violations = 0
        self.known = 0
        self.states = set()
        self.samples = []
        self.worst = None
        self.skipped = None


class Check:
    def __init__(self, prop, level="exploration", rule="", budget_s=None):
        self.prop, self.level, self.rule = prop, level, rule
        self.t0 = time.time()
        self.budget = budget_s or (3000 if THOROUGH else 400)
        self.mons = {}
        self.violations = []
        self.known_hits = {}
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.max_violations = 6
        self.known = self._load_known()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.rng = rng_for(prop)

    # ---- known findings -------------------------------------------------
    def _load_known(self):
        out = {}
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith("finding: property=%s " % self.prop):
                    rest = line.split(" ", 2)[2]
                    key, text = rest.split(" ", 1)
                    assert key.startswith("key=")
                    out[key[4:]] = text
        return out

    # ---- monitors --------------------------------------------------------
    def monitor(self, name, rule, need=1):
        self.mons[name] = Monitor(name, rule, need)
        return self.mons[name]

    def skip(self, name, why):
        m = self.mons.get(name) or self.monitor(name, why, 0)
        m.skipped = why
        m.need = 0

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    def stop(self):
        return len(self.violations) >= self.max_violations or self.time_left() <= 0

    def mon(self, name, ok, state=None, detail="", replay=None, key=None, sample=None, err=None):
        """One evaluation of monitor `name`. Returns ok."""
        m = self.mons[name]
        m.evals += 1
        if state is not None:
            m.states.add(state_key(state))
        if err is not None and np.isfinite(err):
            m.worst = err if m.worst is None else max(m.worst, err)
        if len(m.samples) < 3:
            m.samples.append(jsonable(sample if sample is not None else dict(state=state, err=err)))
        if not ok:
            if key is not None and key in self.known:
                m.known += 1
                self.known_hits[key] = self.known_hits.get(key, 0) + 1
                return ok
            m.violations += 1
            if len(self.violations) < 50:
                self.violations.append(dict(monitor=name, rule=m.rule, detail=str(detail)[:2000],
                                            state=jsonable(state), err=err, key=key, replay=jsonable(replay)))
        return ok

    def close(self, name, got, want, rtol, atol=0.0, scale=None, state=None, detail="", replay=None, key=None):
        """Monitor that two arrays agree: max|got-want| <= atol + rtol*scale (scale defaults to max|want|)."""
        got = np.asarray(got, float)
        want = np.asarray(want, float)
        if got.shape != want.shape:
            return self.mon(name, False, state, "%s: shape %s expected %s" % (detail, got.shape, want.shape), replay, key)
        if got.size == 0:
            return True
        if scale is None:
            scale = np.max(np.abs(want))
        d = np.max(np.abs(got - want))
        if not np.isfinite(d):
            return self.mon(name, False, state, "%s: non-finite result" % detail,
                            replay or dict(got=got, want=want), key)
        lim = atol + rtol * scale
        ok = bool(d <= lim)
        e = d / scale if scale > 0 else d
        return self.mon(name, ok, state, "%s: max difference %.3g exceeds %.3g (scale %.3g)" % (detail, d, lim, scale),
                        replay if replay is not None else dict(got=got, want=want), key, err=float(e))

    # ---- end -------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        for i in range(60):
            f = os.path.join(EVID, "replays", "%s-%d.json" % (self.prop, i))
            if os.path.exists(f):
                os.remove(f)
        unreached = [m.name for m in self.mons.values() if m.evals < m.need]
        cov = dict(
            evaluations=sum(m.evals for m in self.mons.values()),
            distinct_nontrivial=sum(len(m.states) for m in self.mons.values()),
            rule=self.rule,
            samples=[dict(monitor=m.name, sample=s) for m in self.mons.values() for s in m.samples[:2]][:40],
            monitors={m.name: dict(rule=m.rule, evaluations=m.evals, distinct_states=len(m.states), violations=m.violations,
                                   known_finding_hits=m.known, needed=m.need, worst_error=m.worst, skipped=m.skipped)
                      for m in self.mons.values()},
            unreached_monitors=unreached)
        cov.update(jsonable(self.extra))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=jsonable(self.violations), known_findings=jsonable(self.known_hits), notes=self.notes)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, cnt in self.known_hits.items():
            print("KNOWN-FINDING: property=%s %s (key=%s, observed %d times)" % (self.prop, self.known[key], key, cnt))
        for name, m in self.mons.items():
            print("%s monitor %-32s evals=%-6d states=%-6d violations=%d%s%s" % (
                self.prop, name, m.evals, len(m.states), m.violations,
                " worst=%.2e" % m.worst if m.worst is not None else "",
                " SKIPPED: " + m.skipped if m.skipped else ""))
        if self.violations:
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(EVID, "replays", "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, seed=SEED, tier=TIER, **v), f, indent=1)
                print("  %s: %s" % (v["monitor"], v["detail"]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            os._exit(1)
        if unreached:
            print("INCONCLUSIVE property=%s monitors never reached: %s" % (self.prop, ", ".join(unreached)))
            sys.stdout.flush()
            os._exit(2)
        print("HELD property=%s evaluations=%d distinct=%d" % (self.prop, cov["evaluations"], cov["distinct_nontrivial"]))
        sys.stdout.flush()
        os._exit(0)


def main(body, chk):
    """Run body(chk); any harness failure is an error (exit 2) unless violations were already observed."""
    try:
        body(chk)
    except SystemExit as e:
        chk.notes.append("harness stopped: %s" % e)
        print("harness stopped:", e)
        chk.monitor("harness", "harness ran to completion", 1)
    except BaseException:
        tb = traceback.format_exc()
        print(tb)
        chk.notes.append(tb[-3000:])
        chk.monitor("harness", "harness ran to completion", 1)
    chk.finish()
