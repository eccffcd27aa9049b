"""Stand-ins for the drawing library that record what is drawn."""

from __future__ import annotations

import matplotlib
from matplotlib import animation
from matplotlib import pyplot as plt


class FakeAxes:
    """Records what is drawn."""

    def __init__(self, lims=None):
        self.lims, self.drawn = dict(lims or {}), []
        self.points, self.lines, self.patches = [], [], []
        self.cleared = 0

    def set_xlim(self, a, b=None, **kw):
        self.lims["x"] = tuple(a) if b is None else (a, b)

    def set_ylim(self, a, b=None, **kw):
        self.lims["y"] = tuple(a) if b is None else (a, b)

    def get_xlim(self):
        return self.lims.get("x", (0.0, 1.0))

    def get_ylim(self):
        return self.lims.get("y", (0.0, 1.0))

    def set(self, **kw):
        for name, v in kw.items():
            if name in ("xlim", "ylim"):
                self.lims[name[0]] = tuple(v)

    def clear(self):
        self.cleared += 1
        self.lims, self.drawn, self.points, self.lines, self.patches = {}, [], [], [], []

    cla = clear

    def tripcolor(self, *args, **kw):
        self.drawn.append((args, kw))
        return self

    def set_clim(self, vmin=None, vmax=None):
        self.drawn[-1][1].update(vmin=vmin, vmax=vmax)

    def scatter(self, xs, ys, *args, **kw):
        self.points += list(zip(xs, ys))
        return self

    def plot(self, *args, **kw):
        """Chains of segments x, y (, format), x, y ..."""
        data = [a for a in args if not isinstance(a, str)]
        for xs, ys in zip(data[::2], data[1::2]):
            ps = list(zip(xs, ys))
            marked = kw.get("marker") not in (None, "", "None", "none")
            if marked:
                self.points += ps
            if not marked or kw.get("linestyle", kw.get("ls", "-")) not in ("", "None", "none", " "):
                self.lines += [ps]
        return [self]

    def add_collection(self, col, **kw):
        """A LineCollection."""
        self.lines += [[tuple(p) for p in s] for s in getattr(col, "segments", [])]
        return self

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


class FakeFigure:
    """A figure that remembers where it was saved, and what it showed then."""

    def __init__(self, axes):
        self.axes_, self.saved = axes, []

    @property
    def axes(self):
        return [self.axes_]

    def savefig(self, fname, *a, **kw):
        self.saved.append(str(fname))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


class FakePlots:
    """Replaces pyplot.subplots and the creation of animations."""

    def __init__(self):
        self.axes, self.figures, self.films, self.closed = [], [], [], []

    def __enter__(self):
        self.old = plt.subplots, animation.FuncAnimation, plt.close

        def subplots(*a, **kw):
            self.axes.append(FakeAxes())
            self.figures.append(FakeFigure(self.axes[-1]))
            return self.figures[-1], self.axes[-1]

        outer = self

        class Film:
            """Plays an animation when it is saved."""

            def __init__(self, fig, func, frames=None, init_func=None, fargs=None, **kw):
                self.fig, self.func, self.kw = fig, func, kw
                self.frames, self.init, self.fargs = frames, init_func, tuple(fargs or ())
                self.saved, self.shown = [], []
                outer.films.append(self)

            def each(self):
                f = self.frames
                if f is None:
                    raise RuntimeError("an animation of endless frames")
                if callable(f):
                    return list(f())
                return list(range(f)) if isinstance(f, int) else list(f)

            def save(self, filename, *a, **kw):
                self.saved.append(str(filename))
                frames = self.each()
                # the library draws the first frame once more before it starts
                if self.init is not None:
                    self.init()
                elif frames:
                    self.func(frames[0], *self.fargs)
                for k in frames:
                    self.func(k, *self.fargs)
                    ax = self.fig.axes[0]
                    self.shown.append((dict(ax.lims), list(ax.drawn)))

        plt.subplots, animation.FuncAnimation = subplots, Film
        plt.close = lambda *a: self.closed.append(a)
        return self

    def __exit__(self, *a):
        plt.subplots, animation.FuncAnimation, plt.close = self.old
        return False


assert matplotlib.get_backend().lower() == "agg"
