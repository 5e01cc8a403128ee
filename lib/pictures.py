"""Records what is on the axes whenever a picture is shown or a video frame is written."""
import json

import numpy as np


def disc(p):
    """Centre, smallest and largest radius, normal and flatness of a drawn closed curve in space."""
    v, codes = np.asarray(p._segment3d, float), p._code3d
    if codes is not None:
        keep, i = [], 0
        while i < len(codes):
            step = {1: 1, 2: 1, 3: 2, 4: 3}.get(int(codes[i]), 0)
            if not step:
                break
            keep.append(i + step - 1)
            i += step
        v = v[keep]
    if len(v) > 1 and np.allclose(v[0], v[-1]):
        v = v[:-1]
    c = v.mean(axis=0)
    r = np.linalg.norm(v - c, axis=1)
    u, s, vt = np.linalg.svd(v - c)
    return dict(c=c.tolist(), r=[float(r.min()), float(r.max())], n=vt[2].tolist(), flat=float(s[2]))


def snapshot(fig, ax):
    from matplotlib.patches import FancyArrowPatch
    from mpl_toolkits.mplot3d import art3d
    fig.canvas.draw()
    out = dict(discs=[], lines=[], arrows=[], texts=[], other=[], M=np.asarray(ax.get_proj()).tolist(), elev=ax.elev, azim=ax.azim,
               titles=[ax.get_title(loc=k) for k in ("left", "center", "right")], lim=[list(map(float, f())) for f in (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d)])
    fixed = set(map(id, [ax.xaxis, ax.yaxis, ax.zaxis, ax.patch, ax.title, ax._left_title, ax._right_title] + list(ax.spines.values())))
    for a in ax.get_children():
        if id(a) in fixed or not a.get_visible():
            continue
        if isinstance(a, FancyArrowPatch):
            (p, q) = a._posA_posB
            out["arrows"].append(dict(a=[float(x) for x in p], b=[float(x) for x in q]))
        elif isinstance(a, art3d.PathPatch3D):
            out["discs"].append(disc(a))
        elif isinstance(a, art3d.Line3D):
            out["lines"].append(np.transpose(a.get_data_3d()).tolist())
        elif isinstance(a, art3d.Text3D):
            out["texts"].append(dict(p=[float(x) for x in a.get_position_3d()], s=a.get_text()))
        else:
            out["other"].append(type(a).__name__)
    return out


def project(M, p):
    v = np.asarray(M) @ np.append(p, 1.0)
    return v[:2] / v[3]


def install(path):
    """Stand-ins for the screen and the video encoder, writing one line per picture to path."""
    import matplotlib.animation as an
    import matplotlib.pyplot as plt
    f = open(path, "w")

    def note(what, fig, **kw):
        axes = [a for a in fig.axes if hasattr(a, "get_proj")]
        for ax in axes[:1]:
            f.write(json.dumps(dict(snapshot(fig, ax), what=what, **kw)) + "\n")
            f.flush()

    pending = []
    Real = an.FuncAnimation

    class FuncAnimation(Real):
        def __init__(self, fig, *a, **kw):
            Real.__init__(self, fig, *a, **kw)
            pending.append((fig, self))

        def save(self, filename, writer=None, *a, **kw):
            pending[:] = [p for p in pending if p[1] is not self]
            if not isinstance(writer, Recorder):
                writer = Recorder()
            return Real.save(self, filename, writer, *a, **kw)

    class Recorder(an.AbstractMovieWriter):
        def __init__(self, fps=5, *a, **kw):
            self.k = 0
            an.AbstractMovieWriter.__init__(self, fps=fps)

        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile, self.dpi = fig, outfile, dpi
            open(outfile, "w").close()

        def grab_frame(self, **kw):
            note("video", self.fig, k=self.k, outfile=self.outfile)
            self.k += 1

        def finish(self):
            pass

        @classmethod
        def isAvailable(cls):
            return True

    def show(*a, **kw):
        if pending:
            fig, ani = pending.pop(0)
            ani._init_draw()
            for k, fr in enumerate(ani.new_frame_seq()):
                ani._draw_frame(fr)
                note("screen", fig, k=k)
        else:
            for n in plt.get_fignums():
                note("shown", plt.figure(n))

    an.FuncAnimation = FuncAnimation
    an.FFMpegWriter = Recorder
    plt.show = show
