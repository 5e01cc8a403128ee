"""P24 progress reports and size/time formatting tell the truth."""
import datetime
import importlib.util
import inspect
import os
import re
import sys
import time
import numpy as np
from lib import common, par, runs
from lib import solver as S

ANSI = re.compile(r"\x1b\[[0-9;]*m")
UNITS = {u: 1024.0 ** k for k, u in enumerate(["", "K", "M", "G", "T", "P", "E", "Z", "Y"])}


def read_duration(text):
    """Seconds and precision from a printed duration; None when unreadable."""
    t = ANSI.sub("", text).strip().lstrip("<").strip()
    m = re.fullmatch(r"(?:(\d+)d\s*)?(?:(\d+):)?(\d+):(\d\d)", t)
    if m:
        d, h, mi, s = (int(v or 0) for v in m.groups())
        if mi > 59 and m.group(2) is not None or s > 59 or (m.group(1) is not None and h > 23):
            return None
        return d * 86400 + h * 3600 + mi * 60 + s, 1.0
    m = re.fullmatch(r"(?:(\d+)d\s*)?(\d+)h\s*(\d+)m\s*(\d+)s", t)
    if m:
        d, h, mi, s = (int(v or 0) for v in m.groups())
        if mi > 59 or s > 59 or (m.group(1) is not None and h > 23):
            return None
        return d * 86400 + h * 3600 + mi * 60 + s, 1.0
    m = re.fullmatch(r"([\d.]+(?:e[-+]?\d+)?)\s*s", t)
    if m:
        return float(m.group(1)), 0.0501
    return None


def read_bytes(text):
    m = re.fullmatch(r"(-?[\d.]+(?:e[-+]?\d+)?)\s*([KMGTPEZY]?)B", text.strip())
    return None if not m else float(m.group(1)) * UNITS[m.group(2)]


def read_finish(text, now):
    """Moment a printed finish time refers to, read at the moment now."""
    t = ANSI.sub("", text).strip().lstrip("<").strip()
    m = re.fullmatch(r"(?:([A-Z][a-z]{2}) |(\d\d/\d\d/\d\d) )?(\d\d):(\d\d)", t)
    if not m:
        return None
    clock = datetime.time(int(m.group(3)), int(m.group(4)))
    if m.group(2):
        day = datetime.datetime.strptime(m.group(2), "%d/%m/%y").date()
    elif m.group(1):
        day = next((now + datetime.timedelta(k)).date() for k in range(1, 8) if (now + datetime.timedelta(k)).strftime("%a") == m.group(1))
    else:
        day = now.date()
    return datetime.datetime.combine(day, clock)


def expected_left(times, frame, frames, every, start, jit):
    done = range(start, frame + 1)
    big = [times[i] for i in done if i % every == 0 or i == start]
    small = [times[i] for i in done if not (i % every == 0 or i == start)]
    if jit and len(big) > 1:
        big = big[1:]
    b = float(np.mean(big))
    s = float(np.mean(small)) if small else b
    left = range(frame + 1, frames)
    nb = sum(1 for i in left if i % every == 0)
    return 1.03 * (nb * b + (len(left) - nb) * s), nb, len(left) - nb


def formats(rec, rng, c):
    S.load()
    elapsed, left, size = S.helper("format_elapsed_time"), S.helper("format_time_left"), S.helper("sizeof_fmt")
    table = table_time()
    vals = [0, 0.04, 0.06, 1, 9.94, 9.96, 59, 59.9, 59.96, 59.999, 60, 61.5, 119.9, 599, 600, 601, 3599, 3599.99, 3600, 3600.5, 3661, 35999.9, 86399, 86399.9, 86400, 86401, 90061, 172799.5, 864000, 8640000, 1e8] if c["fixed"] else []
    vals += [float(10 ** rng.uniform(-2, 8)) for _ in range(c["n"])] + [float(rng.integers(1, 10 ** 6)) for _ in range(c["n"])]
    for v in vals:
        st = dict(v=v)
        text = elapsed(v)
        r = read_duration(text)
        ok = r is not None and abs(v - r[0]) <= r[1] * (1 + 1e-9) and (v < 60.05 or r[1] == 1.0)
        rec.mon("duration", bool(ok), st, "%.10g s is shown as %r, which reads as %s" % (v, text, r), st, err=None if r is None else abs(v - r[0]) / r[1])
        for flags in ("", "<", "<<"):
            text = left(v, flags)
            r = read_duration(text)
            ok = r is not None and abs(v - r[0]) <= r[1] * (1 + 1e-9) and ANSI.sub("", text).count("<") == len(flags)
            rec.mon("time-left-shown", bool(ok), dict(v=v, flags=flags), "%.10g s left with flags %r is shown as %r" % (v, flags, text), st)
        if table:
            text = table(v)
            r = read_duration(text)
            rec.mon("table-time", r is not None and bool(abs(v - r[0]) <= r[1] * (1 + 1e-9)), st, "%.10g s to generate a table is shown as %r, which reads as %s" % (v, text, r), st)
    vals = [0, 1, 2, 9, 10, 99, 100, 999, 1000, 1023, 1024, 1025, 1536, 10239, 10240, 102400, 1022976, 1023487, 1023488, 1048575, 1048576, 2 ** 30 - 1, 2 ** 30, 2 ** 40, 2 ** 50, 2 ** 60, 2 ** 70, 2 ** 80, 2 ** 84] if c["fixed"] else []
    vals += [int(10 ** rng.uniform(0, 24)) for _ in range(c["n"])] + [int(1024 ** int(rng.integers(1, 8)) * rng.uniform(0.9, 1.01)) for _ in range(c["n"])]
    for v in vals:
        text = size(v)
        r = read_bytes(text)
        tol = 0.0051 * v + (0 if v < 2 ** 80 else 0.051 * 2 ** 80)
        rec.mon("bytes", r is not None and bool(abs(r - v) <= tol + 1e-9), dict(v=v), "%d bytes are shown as %r, which reads as %s" % (v, text, r), dict(v=v), err=None if r is None or not v else abs(r - v) / v)


def table_time():
    """The function that words the time taken to generate a table."""
    path = os.path.join(common.FRS, "functions_general.py")
    if not os.path.exists(path):
        return None
    spec = importlib.util.spec_from_file_location("verif_functions_general", path)
    mod = importlib.util.module_from_spec(spec)
    sys.path.insert(0, common.FRS)
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.path.remove(common.FRS)
    if hasattr(mod, "format_seconds"):
        return mod.format_seconds
    same = [f for f in vars(mod).values() if inspect.isfunction(f) and list(inspect.signature(f).parameters) == ["elapsed_time"]]
    return same[0] if len(same) == 1 else None


def finish(rec, rng, c):
    S.load()
    show = S.helper("format_finish_time")
    old = os.environ.get("TZ")
    try:
        for k in range(c["n"]):
            os.environ["TZ"] = "XXX%d:%02d" % (int(rng.integers(-11, 13)), int(rng.integers(0, 60)))
            time.tzset()
            now = datetime.datetime.now()
            kind = k % 6
            midnight = 86400 - (now - now.replace(hour=0, minute=0, second=0, microsecond=0)).total_seconds()
            left = float([rng.uniform(0, 7200), rng.uniform(0, 86400), rng.uniform(0, 6 * 86400), rng.uniform(5.5, 8) * 86400, 10 ** rng.uniform(5, 7.4), midnight + 86400 * int(rng.integers(0, 8)) + rng.choice([-90, 90])][kind])
            left = max(left, 0.0)
            flags = ["", "<", "<<"][k % 3]
            for _ in range(4):
                a = datetime.datetime.now()
                text = show(left, flags)
                b = datetime.datetime.now()
                if (a + datetime.timedelta(0, left)).minute == (b + datetime.timedelta(0, left)).minute and a.date() == b.date():
                    break
            else:
                continue
            r = read_finish(text, a)
            want = a + datetime.timedelta(0, left)
            ok = r is not None and 0 <= (want - r).total_seconds() < 60 + (b - a).total_seconds() and text.count("<") == len(flags)
            rec.mon("finish-time", bool(ok), dict(left=round(left, 3), flags=flags, tz=os.environ["TZ"]), "%.1f s from %s is shown as %r, which reads as %s" % (left, a, text, r), dict(left=left, now=str(a)))
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def estimate(rec, rng, c):
    m = S.load()
    f = S.helper("calculate_time_left")
    import numba
    keep = numba.config.DISABLE_JIT
    try:
        for k in range(c["n"]):
            frames = int(rng.integers(1, 40))
            every = int(rng.choice([1, 1, 2, 3, 5, 10, 50]))
            start = int(rng.integers(0, frames)) if rng.random() < 0.5 else 0
            jit = bool(k % 2)
            numba.config.DISABLE_JIT = not jit
            times = [0.0] * frames
            for i in range(start, frames):
                times[i] = float(rng.exponential() + (5 if i % every == 0 else 0) + (30 if i == start else 0))
            for frame in sorted(set([start, frames - 1] + rng.integers(start, frames, 3).tolist())):
                part = [t if i <= frame else 0 for i, t in enumerate(times)]
                st = dict(frames=frames, every=every, start=start, jit=jit, frame=frame, k=k, c=c["rep"])
                rp = dict(st, times=part)
                try:
                    got, flags = f(list(part), frame, frames, every, start)
                except Exception as e:
                    rec.mon("estimate", False, st, "the estimate fails: %r" % e, rp)
                    continue
                want, nb, ns = expected_left(part, frame, frames, every, start, jit)
                rec.mon("estimate", bool(abs(got - want) <= 1e-9 * (1 + want)), st, "time left is estimated as %.6g s, %d refresh and %d ordinary frames remain which gives %.6g s" % (got, nb, ns, want), rp, err=abs(got - want))
                rec.mon("not-negative", bool(got >= 0), st, "negative time left %s" % got, rp)
                if frame == frames - 1:
                    rec.mon("zero-at-end", got == 0, st, "%.6g s left after the last frame" % got, rp)
                rec.mon("flags", set(flags) <= {"<"}, st, "flags %r" % flags, rp)
                if jit and start == frame and frames - 1 > frame:
                    rec.mon("flags", "<" in flags, dict(st, what="jit"), "an estimate from the compiling frame alone is not marked", rp)
    finally:
        numba.config.DISABLE_JIT = keep


def program(rec, rng, c):
    run = runs.random_run(rng, 2, c.get("nd", 0), c["scheme"], frames=c["frames"], every=c["every"], flow=False)
    st, rp = dict(case=c, **run.describe()), run.replay()
    try:
        a = datetime.datetime.now()
        r = run.go(timescale=c["scale"])
        b = datetime.datetime.now()
        if run.failure() is not None:
            raise RuntimeError(run.failure())
        out = ANSI.sub("", r["out"])
        lines = re.findall(r"Processing frame\s+(\d+)/(\d+)\.\.\. (.*)", out)
        rec.mon("frames-numbered", [(int(x), int(y)) for x, y, _ in lines] == [(i + 1, c["frames"]) for i in range(c["frames"])], st, "frames reported: %s" % [(x, y) for x, y, _ in lines], rp)
        T = []
        for i, (_, _, rest) in enumerate(lines):
            m = re.search(r"\[\[(.*?)\]\] \[(.*?)\] \[(.*?)\]\s*$", rest)
            cells = re.findall(r"(?<!\[)\[([^\[\]]*)\](?!\])", rest)
            if not rec.mon("line-readable", m is not None, dict(st, frame=i), "progress line %r" % rest, rp):
                return
            tot, left = read_duration(m.group(1)), read_duration(m.group(2))
            if not rec.mon("line-readable", tot is not None and left is not None, dict(st, frame=i, what="durations"), "progress line %r" % rest, rp):
                return
            T.append(tot)
            lo, nb, ns = expected_left([t - p for t, p in T] + [0] * c["frames"], i, c["frames"], c["every"], 0, False)
            hi = expected_left([t + p for t, p in T] + [0] * c["frames"], i, c["frames"], c["every"], 0, False)[0]
            ok = lo - left[1] - 1e-6 <= left[0] <= hi + left[1] + 1e-6
            rec.mon("printed-estimate", bool(ok), dict(st, frame=i), "after frame %d: %s left printed, printed frame times %s give between %.2f and %.2f s" % (i + 1, m.group(2).strip(), [t for t, _ in T], lo, hi), rp)
            parts = [read_duration(x) for x in cells[:5]]
            parts = [p for p in parts if p is not None]
            ok = len(parts) >= 4 and sum(p[0] - p[1] for p in parts) <= tot[0] + tot[1]
            rec.mon("parts-within-total", bool(ok), dict(st, frame=i), "parts of frame %d (%s) exceed its total %s" % (i + 1, [p[0] for p in parts], tot[0]), rp)
            e1, e2 = read_finish(m.group(3), a), read_finish(m.group(3), b)
            ok = any(e is not None and a + datetime.timedelta(0, left[0] - left[1] - 61) <= e <= b + datetime.timedelta(0, left[0] + left[1] + 1) for e in (e1, e2))
            rec.mon("printed-finish", bool(ok), dict(st, frame=i), "%s left at %s but the finish time printed is %s" % (m.group(2), b, m.group(3)), rp)
        rec.mon("zero-at-end", left[0] == 0, st, "%s left after the last frame" % m.group(2), rp)
        m = re.search(r"\[Total time to run (.*?)\]", out)
        tot = read_duration(m.group(1)) if m else None
        ok = tot is not None and tot[0] + tot[1] >= sum(t - p for t, p in T) and tot[0] - tot[1] <= r["wall"] * c["scale"]
        rec.mon("total-time", bool(ok), st, "total time %s, frames took %s, the run %.3f s" % (m and m.group(1), [t for t, _ in T], r["wall"] * c["scale"]), rp)
    finally:
        run.clean()


def body(chk):
    for name, rule, need in (("duration", "a printed duration reads back as the value", 100), ("time-left-shown", "the remaining time reads back as the value with its flags", 300), ("table-time", "the time to generate a table reads back as the value", 0), ("bytes", "a printed byte count reads back to three digits", 100),
                             ("finish-time", "the finish time reads back as now plus the remaining time", 100), ("estimate", "remaining time from average refresh and ordinary frame times", 300), ("not-negative", "remaining time is not negative", 300),
                             ("zero-at-end", "nothing remains after the last frame", 30), ("flags", "uncertain estimates are marked", 300), ("frames-numbered", "a run reports every frame once, in order", 3), ("line-readable", "progress lines can be read", 20),
                             ("printed-estimate", "remaining time printed by a run follows from its printed frame times", 20), ("parts-within-total", "parts of a frame's time do not exceed its total", 20),
                             ("printed-finish", "printed finish time is now plus the printed remaining time", 20), ("total-time", "printed total covers the frames and not more than the run", 3)):
        chk.monitor(name, rule, need)
    th = common.THOROUGH
    me = os.path.abspath(__file__)
    par.run_cases(chk, me, "formats", [dict(fixed=i == 0, n=400 if th else 100, rep=i) for i in range(8)], loader={})
    par.run_cases(chk, me, "finish", [dict(n=600 if th else 60, rep=i) for i in range(4)], loader={}, salt=1)
    par.run_cases(chk, me, "estimate", [dict(n=600 if th else 60, rep=i) for i in range(4)], loader={}, salt=2)
    par.run_cases(chk, me, "program", [dict(scheme=s, every=e, frames=f, scale=k, nd=d, rep=r) for r in range(4 if th else 1) for s, e, f, k, d in
                                       (("euler", 1, 8, 500, 0), ("euler", 3, 11, 400, 1), ("ab2", 4, 9, 3000, 0), ("rk4", 2, 6, 60000, 0), ("euler", 5, 12, 1, 0), ("rk4", 3, 7, 2e6, 1))], loader={}, salt=3)


if __name__ == "__main__":
    common.main(body, common.Check("P24", rule="a state is one value, one schedule and frame, or one printed line"))
