"""The two-sphere program of /repo: builds (plain and instrumented) in a scratch folder, runs, and exact answers."""
import os
import shutil
import subprocess

import numpy as np

from . import common, twosphere
from .oracle import BAS

SRC = os.path.join(common.FRS, "helen_fortran")
FILES = ["2sphere.f", "base.f", "reflect.f"]
CASES = ["F11", "F12", "F13", "F21", "F22", "T11", "T12", "T21", "T22", "T23", "E11", "E13", "E14", "E21", "E23", "E24", "E1", "E3", "E4"]
LABELS = ["Ux", "Uy", "Uz", "Ox", "Oy", "Oz", "Sxx", "Syy", "Sxy", "Sxz", "Syz"]
FLAGS = dict(plain=["-O2"],
             checked=["-g", "-O1", "-fcheck=bounds,do,mem,pointer,recursion", "-ffpe-trap=invalid,zero,overflow", "-finit-real=snan", "-finit-integer=-99999999"],
             sanitized=["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
             debug=["-g", "-O1"])


class BuildError(Exception):
    pass


def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s: %s" % (" ".join(cmd), r.stderr[-1500:]))
    return r.stdout


def build(where, kinds):
    """Compile the current sources; returns {kind: path}.  'poisoned' fills every global with NaN before the program starts."""
    out = {}
    for kind in kinds:
        d = os.path.join(where, kind)
        shutil.copytree(SRC, d)
        exe = os.path.join(d, "lamb-%s.exe" % kind)
        if kind != "poisoned":
            sh(["gfortran"] + FLAGS[kind] + FILES + ["-o", exe], d)
        else:
            sh(["gfortran", "-O1", "-c"] + FILES, d)
            objs = [f[:-2] + ".o" for f in FILES]
            size = {}
            for line in sh(["nm", "-S", "--defined-only"] + objs, d).splitlines():
                p = line.split()
                if len(p) == 4 and p[2] in "CB":
                    size[p[3]] = max(size.get(p[3], 0), int(p[1], 16))
            src = "typedef unsigned long long u;\n" + "".join('extern u s%d[] __asm__("%s");\n' % (i, n) for i, n in enumerate(size))
            src += "__attribute__((constructor)) static void poison(void){unsigned long i;\n"
            src += "".join("for(i=0;i<%dUL;i++) s%d[i]=0x7ff8deadbeef1234ULL;\n" % (n // 8, i) for i, n in enumerate(size.values())) + "}\n"
            with open(os.path.join(d, "poison.c"), "w") as f:
                f.write(src)
            sh(["gcc", "-c", "poison.c"], d)
            sh(["gfortran"] + objs + ["poison.o", "-o", exe], d)
        out[kind] = exe
    return out


def run(exe, s, r1, r2, case, style="short", timeout=300, wrap=()):
    r = subprocess.run(list(wrap) + [exe, repr(float(s)), repr(float(r1)), repr(float(r2)), case, style], capture_output=True, text=True, timeout=timeout,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    return r.returncode, r.stdout, r.stderr


def parse(text):
    """(22 numbers or None) of the short style."""
    try:
        v = np.array([float(t) for t in text.split()])
    except ValueError:
        return None
    return v if v.shape == (22,) else None


def parse_words(text):
    """22 numbers of the verbose style, in the order of the short one."""
    got = {}
    k = None
    for line in text.splitlines():
        low = line.lower()
        if "for sphere" in low:
            k = int(low.split()[-1]) - 1
        for key, name in (("vely in the", "U"), ("rotn about the", "O")):
            if key in low:
                got[k, name + low.split(key)[1].strip()[0]] = float(line.split(",")[-1])
        if "stresslet" in low:
            got[k, "S" + low.split("stresslet")[1].strip()[:2]] = float(line.split(",")[-1])
    return np.array([got.get((i, n), np.nan) for i in range(2) for n in LABELS]), got


def strain(code):
    e = np.zeros((3, 3))
    if code == "1":
        return np.diag([1, -0.5, -0.5])
    i, j = {"3": (1, 2), "4": (0, 1)}[code]
    e[i, j] = e[j, i] = 1
    return e


def loads(case):
    F, e = np.zeros(12), np.zeros(10)
    if case[0] in "FT":
        F[(6 if case[0] == "T" else 0) + 3 * (int(case[1]) - 1) + int(case[2]) - 1] = 1
    else:
        for i in ([int(case[1]) - 1] if len(case) == 3 else [0, 1]):
            e[5 * i:5 * i + 5] = np.einsum("iab,ab->i", BAS, strain(case[-1]))
    return F, e


def exact(s, r1, r2, case, effort=None):
    """Exact answer in the order of the short style, and the residual of the reference solution."""
    R, res = twosphere.grand_resistance(np.array([s, 0, 0.]), float(r1), float(r2), effort=effort)
    F, e = loads(case)
    U = np.linalg.solve(R[:12, :12], F - R[:12, 12:] @ e)
    S = R[12:, :12] @ U + R[12:, 12:] @ e
    st = []
    for i in range(2):
        q = np.einsum("iab,i->ab", BAS, S[5 * i:5 * i + 5])
        st.append(np.array([q[0, 0], q[1, 1], q[0, 1], q[0, 2], q[1, 2]]))
    return np.concatenate([U[0:3], U[6:9], st[0], U[3:6], U[9:12], st[1]]), res


def natural(r1, r2, case):
    """Natural magnitude of each of the 22 numbers."""
    a = (float(r1), float(r2))
    src = [int(case[1]) - 1] if len(case) == 3 else [0, 1]
    out = np.zeros(22)
    for i in range(2):
        for j in src:
            m = max(a[i], a[j])
            if case[0] == "F":
                v = [1 / (6 * np.pi * m)] * 3 + [1 / (8 * np.pi * m ** 2)] * 3 + [a[i] ** 3 / m ** 2] * 5
            elif case[0] == "T":
                v = [1 / (8 * np.pi * m ** 2)] * 3 + [1 / (8 * np.pi * m ** 3)] * 3 + [a[i] ** 3 / m ** 3] * 5
            else:
                v = [a[j] ** 3 / m ** 2] * 3 + [a[j] ** 3 / m ** 3] * 3 + [20 / 3 * np.pi * a[i] ** 3 * a[j] ** 3 / m ** 3] * 5
            out[11 * i:11 * i + 11] = np.maximum(out[11 * i:11 * i + 11], v)
    return out
