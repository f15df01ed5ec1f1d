"""Recording stand-in for matplotlib: stores what is drawn (used for both the
symbolic and the concrete runs of the plot harnesses)."""
import types


class Dummy:
    """Accepts everything, draws nothing."""

    def __init__(self, name="dummy"):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Dummy(self._name + "." + k)

    def __call__(self, *a, **k):
        return Dummy(self._name + "()")

    def __setattr__(self, k, v):
        pass

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return Dummy(self._name + "[]")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


ALIAS = {"lw": "linewidth", "c": "color", "ls": "linestyle", "fc": "facecolor", "ec": "edgecolor", "ms": "markersize"}
WHITE = ("white", "w", "#fff", "#ffffff", "1", "1.0", (1, 1, 1), (1, 1, 1, 1), [1, 1, 1])


class Many(list):
    """Recorded marks; also the method of the same name."""

    def __call__(self, x, *a, **k):
        if hasattr(x, "__len__"):
            self.extend(list(x))
        else:
            self.append(x)
        return Dummy()


class Line:
    def __init__(self, x, y, kw):
        kw = {ALIAS.get(k, k): v for k, v in kw.items()}
        if "color" not in kw and "w" in kw.get("fmt", ""):
            kw["color"] = "white"
        if kw.get("color") in WHITE:
            kw["color"] = "white"
        self.x, self.y, self.kw = x, y, kw

    def get_color(self):
        return "C0"

    def set_xdata(self, x):
        self.x = x

    def set_ydata(self, y):
        self.y = y

    def set_data(self, x, y):
        self.x, self.y = x, y

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Dummy(k)


class Axes:
    def __init__(self, fig):
        self.figure = self.fig = fig
        self.lines, self.vlines, self.hlines, self.spans = [], Many(), Many(), []
        self.fills, self.contours, self.texts = [], [], []
        self.xlabel = self.ylabel = self.title_ = ""
        self.limits = {}
        self.other = []

    def plot(self, *a, **k):
        out = []
        a = list(a)
        i = 0
        while i < len(a):
            if i + 1 < len(a) and not isinstance(a[i + 1], str):
                x, y = a[i], a[i + 1]
                i += 2
            else:
                y = a[i]
                x = list(range(len(y)))
                i += 1
            fmt = ""
            if i < len(a) and isinstance(a[i], str):
                fmt = a[i]
                i += 1
            ys = [y[:, j] for j in range(y.shape[1])] if getattr(y, "ndim", 1) == 2 else [y]
            for j, yj in enumerate(ys):
                ln = Line(x[:, j] if getattr(x, "ndim", 1) == 2 else x, yj, dict(k, fmt=fmt))
                self.lines.append(ln)
                out.append(ln)
        return out

    def axvline(self, x=0, *a, **k):
        self.vlines.append(x)
        return Dummy()

    def axhline(self, y=0, *a, **k):
        self.hlines.append(y)
        return Dummy()

    def axvspan(self, xmin, xmax, *a, **k):
        self.spans.append((xmin, xmax, k))
        return Dummy()

    def fill_betweenx(self, y, x1, x2=0, *a, **k):
        self.fills.append(("x", y, x1, x2))
        return Dummy()

    def fill_between(self, x, y1, y2=0, *a, **k):
        self.fills.append(("y", x, y1, y2))
        return Dummy()

    def contourf(self, *a, **k):
        self.contours.append((a, k))
        return Dummy()

    contour = contourf
    tricontourf = contourf
    pcolormesh = contourf

    def text(self, x, y, s="", *a, **k):
        self.texts.append((x, y, s))
        return Dummy()

    def set_xlabel(self, s, *a, **k):
        self.xlabel = s

    def set_ylabel(self, s, *a, **k):
        self.ylabel = s

    def set_title(self, s, *a, **k):
        self.title_ = s

    def set_xlim(self, *a, **k):
        self.limits["x"] = a

    def set_ylim(self, *a, **k):
        self.limits["y"] = a

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n, lambda *a: None)(v)

    def twinx(self):
        ax = Axes(self.fig)
        self.fig.axes.append(ax)
        return ax

    def invert_yaxis(self):
        self.limits["inverted"] = True

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Dummy(k)


class Figure:
    def __init__(self):
        self.axes = []
        self.saved = []

    def gca(self):
        if not self.axes:
            self.axes.append(Axes(self))
        return self.axes[-1]

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def subplots(self, *a, **k):
        return self.add_subplot()

    add_axes = add_subplot

    def savefig(self, fname, *a, **k):
        self.saved.append(str(fname))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Dummy(k)


class Recorder:
    def __init__(self):
        self.clear()

    def clear(self):
        self.figs = []
        self.cur = None

    def gcf(self):
        if self.cur is None:
            self.cur = Figure()
            self.figs.append(self.cur)
        return self.cur

    def figure(self, *a, **k):
        self.cur = Figure()
        self.figs.append(self.cur)
        return self.cur

    def close(self, *a, **k):
        self.cur = None


def matplotlib_modules(np=None):
    rec = Recorder()
    plt = types.ModuleType("matplotlib.pyplot")

    def subplots(nrows=1, ncols=1, *a, **k):
        f = rec.figure()
        axs = [f.add_subplot() for _ in range(nrows * ncols)]
        return f, (axs[0] if len(axs) == 1 else axs)

    class _Plt(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            ax = {"xlabel": "set_xlabel", "ylabel": "set_ylabel", "title": "set_title",
                  "xlim": "set_xlim", "ylim": "set_ylim"}.get(k, k)
            if hasattr(Axes, ax) and not ax.startswith("_"):
                return lambda *a, **kw: getattr(rec.gcf().gca(), ax)(*a, **kw)
            return Dummy("plt." + k)
    plt = _Plt("matplotlib.pyplot")
    plt.figure = rec.figure
    plt.gcf = rec.gcf
    plt.gca = lambda *a, **k: rec.gcf().gca()
    plt.axes = plt.gca
    plt.subplot = plt.gca
    plt.sca = lambda ax: None
    plt.setp = lambda *a, **k: None
    plt.close = rec.close
    plt.subplots = subplots
    plt.savefig = lambda *a, **k: rec.gcf().savefig(*a, **k)
    plt.rcdefaults = lambda *a, **k: None
    plt.rc = lambda *a, **k: None
    plt.show = lambda *a, **k: rec.gcf().saved.append("<show>")

    class CM:
        def __call__(self, v):
            return (0.5, 0.5, 0.5, 1.0)

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            if k.startswith("set_") or k in ("copy", "with_extremes"):
                return lambda *a, **kw: self
            return CM()
    plt.cm = CM()
    class Maps:
        def __getitem__(self, k):
            return CM()

        get_cmap = __getitem__
    plt.colormaps = Maps()
    plt.get_cmap = lambda *a, **k: CM()

    class _Any(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return Dummy(k)
    mc = _Any("matplotlib.colors")

    class Normalize:
        def __init__(self, vmin=None, vmax=None, clip=False):
            self.vmin, self.vmax, self.clip = vmin, vmax, clip

        def __call__(self, v, clip=None):
            return (v - self.vmin) / (self.vmax - self.vmin)
    mc.Normalize = Normalize
    mc.TwoSlopeNorm = Normalize
    mc.cnames = mc.CSS4_COLORS = {}
    mc.to_rgba = lambda c, alpha=None: mc.to_rgb(c) + (1.0,)
    mc.to_rgb = lambda c: tuple(c[:3]) if not isinstance(c, str) else (0.5, 0.5, 0.5)
    top = _Any("matplotlib")
    top.colormaps = plt.colormaps
    top.colors, top.pyplot, top.cm = mc, plt, plt.cm
    top.rc = lambda *a, **k: None
    top.rcParams = {}
    top.use = lambda *a, **k: None
    top.__path__ = []
    return rec, {"matplotlib": top, "matplotlib.pyplot": plt, "matplotlib.colors": mc,
                 "matplotlib.cm": plt.cm}
