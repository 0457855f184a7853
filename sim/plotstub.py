"""Stand-ins for ROOT's and matplotlib's drawing: they keep what was drawn.

A histogram or graph keeps its axes and contents, a canvas or figure what was
drawn on it, so that a check can ask what a plot shows. Everything that only
decides how it looks accepts any call. Each drawing operation, and each wait
for the user, is a seam.
"""
import types

import numpy


class Anything(object):
    """Accepts any use."""

    def __init__(self, name="stub"):
        self.__name__ = name

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return Anything(name)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __getitem__(self, i):
        return self

    def __setitem__(self, i, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Lenient(object):
    """Setters and getters of looks do nothing."""

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return Anything(name)


# -- ROOT -----------------------------------------------------------------

def _count(n):
    if isinstance(n, (bool, float, numpy.floating)):
        raise TypeError("int expected, not %r" % (n,))
    return int(n)


def add_root(proc, root):
    """The drawing classes are made when one of them is first used."""
    def lazy(name):
        if name.startswith("__"):
            raise AttributeError(name)
        root.__dict__.pop("__getattr__", None)
        make_root(proc, root)
        return getattr(root, name)
    root.__getattr__ = lazy


def make_root(proc, root):
    world = proc.world
    pads = []

    def pad():
        if not pads:
            pads.append(TCanvas("c1"))
        return pads[-1]

    class Axis(Lenient):
        title = ""

        def SetTitle(self, title):
            self.title = str(title)

        def GetTitle(self):
            return self.title

    class Drawn(Lenient):
        draws = 0

        def titles(self, text):
            """"title;x;y;z" """
            parts = (text.split(";") + [""] * 4)[:4]
            self.title = parts[0]
            self.named = [Axis() for _ in range(3)]
            for a, t in zip(self.named, parts[1:]):
                a.title = t

        def SetTitle(self, text):
            if ";" in str(text):
                self.titles(str(text))
            else:
                self.title = str(text)

        def GetXaxis(self):
            return self.named[0]

        def GetYaxis(self):
            return self.named[1]

        def GetZaxis(self):
            return self.named[2]

        def Draw(self, option=""):
            world.seam(proc, "draw", type(self).__name__)
            self.draws += 1
            if "same" not in str(option).lower() and \
                    not isinstance(self, TLegend):
                pad().shown[:] = []
            pad().shown.append(self)

    class TH(Drawn):
        dims = 1

        def __init__(self, name, title, *axes):
            if len(axes) != 3 * self.dims:
                raise TypeError("none of the overloaded methods succeeded")
            world.seam(proc, "draw", "new")
            self.name = str(name)
            self.titles(str(title))
            self.axes = [(_count(axes[i]), float(axes[i + 1]),
                          float(axes[i + 2])) for i in range(
                              0, len(axes), 3)]
            self.cells = numpy.zeros([n + 2 for n, _, _ in self.axes])

        def SetBinContent(self, *a):
            if len(a) != self.dims + 1:
                raise TypeError("SetBinContent: %d arguments" % len(a))
            at = [_count(i) for i in a[:-1]]
            at = tuple(min(max(i, 0), n + 1)
                       for i, (n, _, _) in zip(at, self.axes))
            self.cells[at] = float(a[-1])

        def GetBinContent(self, *a):
            return float(self.cells[tuple(_count(i) for i in a)])

        def Fill(self, *a):
            at = []
            for x, (n, lo, hi) in zip(a, self.axes):
                at.append(0 if x < lo else n + 1 if x >= hi else
                          1 + int(n * (x - lo) / (hi - lo)))
            self.cells[tuple(at)] += a[self.dims] if len(a) > self.dims else 1.

        def Add(self, other, factor=1.):
            if not isinstance(other, TH) or other.axes != self.axes:
                raise TypeError("TH1::Add: different histograms")
            self.cells += factor * other.cells

        def Scale(self, factor):
            self.cells *= float(factor)

        def Clone(self, name=None):
            out = type(self)(name or self.name, ";".join(
                [self.title] + [a.title for a in self.named]), *[v for a in self.axes for v in a])
            out.cells[...] = self.cells
            return out

        def GetNbinsX(self):
            return self.axes[0][0]

        def GetNbinsY(self):
            return self.axes[1][0]

        def GetName(self):
            return self.name

        @property
        def contents(self):
            return self.cells[tuple(slice(1, -1) for _ in self.axes)]

    class TH1(TH):
        pass

    class TH2(TH):
        dims = 2

    class TGraph(Drawn):
        def __init__(self, n=0, x=(), y=()):
            world.seam(proc, "draw", "new")
            n = _count(n)
            x, y = numpy.array(x, dtype=float), numpy.array(y, dtype=float)
            if x.ndim != 1 or y.ndim != 1 or min(len(x), len(y)) < n:
                raise TypeError("TGraph: %d points of %s and %s" % (
                    n, x.shape, y.shape))
            self.x, self.y = x[:n], y[:n]
            self.titles("")

        def SetPoint(self, i, x, y):
            i = _count(i)
            while len(self.x) <= i:
                self.x = numpy.append(self.x, 0.)
                self.y = numpy.append(self.y, 0.)
            self.x[i], self.y[i] = float(x), float(y)

        def GetN(self):
            return len(self.x)

    class TCanvas(Lenient):
        def __init__(self, *a):
            world.seam(proc, "draw", "canvas")
            self.shown = []
            pads.append(self)

        def cd(self, *a):
            if self in pads:
                pads.remove(self)
            pads.append(self)
            return self

        def Clear(self, *a):
            self.shown[:] = []

    class TLegend(Drawn):
        def __init__(self, *a):
            self.entries = []

        def AddEntry(self, obj, label="", option=""):
            if not isinstance(obj, (Lenient, str)):
                raise TypeError("TLegend::AddEntry: %r" % type(obj))
            self.entries.append((obj, label))

    for base in (TH1, TH2):
        for kind in "CSIFD":
            name = base.__name__[:2] + base.__name__[2] + kind
            setattr(root, name, type(name, (base,), {}))
    root.TH1, root.TH2 = TH1, TH2
    root.TGraph, root.TCanvas, root.TLegend = TGraph, TCanvas, TLegend
    for name in ("TStyle", "TColor", "gStyle", "gPad", "TLatex", "TLine",
                 "TText", "TPaveText"):
        setattr(root, name, Anything(name))
    root.gROOT = Anything("gROOT")
    for i, name in enumerate(("White", "Black", "Gray", "Red", "Green",
                              "Blue", "Yellow", "Magenta", "Cyan", "Orange",
                              "Spring", "Teal", "Azure", "Violet", "Pink")):
        setattr(root, "k" + name, i)


# -- matplotlib -----------------------------------------------------------

class Axes(Lenient):
    def __init__(self, proc, where):
        self._proc, self.where = proc, where
        self.hists = []         # (edges, contents, keywords)
        self.lines = []         # (x, y)
        self.bands = []         # (x, low, high)
        self.cells = []         # (x edges, y edges, contents[y][x])
        self.labels = ["", ""]

    def _draw(self, what):
        self._proc.world.seam(self._proc, "draw", what)

    def hist(self, x, bins=10, range=None, weights=None, *a, **k):
        self._draw("hist")
        x = numpy.asarray(x, dtype=float)
        if weights is not None and numpy.shape(weights) != x.shape:
            raise ValueError("weights should have the same shape as x")
        n, edges = numpy.histogram(x, bins, range, weights=weights)
        self.hists.append((edges, numpy.array(n, dtype=float), k))
        return n, edges, Anything("patches")

    def set_xlabel(self, text, *a, **k):
        self.labels[0] = str(text)

    def set_ylabel(self, text, *a, **k):
        self.labels[1] = str(text)

    def _xy(self, x, y):
        x, y = numpy.array(x, dtype=float), numpy.array(y, dtype=float)
        if x.shape != y.shape:
            raise ValueError("x and y must have same first dimension")
        self.lines.append((x, y))

    def plot(self, *a, **k):
        self._draw("plot")
        if len(a) == 1:
            a = (numpy.arange(len(a[0])),) + a
        self._xy(a[0], a[1])
        return [Anything("line")]

    def step(self, x, y, *a, **k):
        self._draw("step")
        self._xy(x, y)
        return [Anything("line")]

    def scatter(self, x, y, *a, **k):
        self._draw("scatter")
        self._xy(x, y)

    def errorbar(self, x, y, *a, **k):
        self._draw("errorbar")
        self._xy(x, y)

    def bar(self, x, height, width=0.8, *a, **k):
        self._draw("bar")
        self._xy(x, height)

    def fill_between(self, x, y1, y2=0, *a, **k):
        self._draw("fill_between")
        x = numpy.array(x, dtype=float)
        self.bands.append((x, y1 + 0. * x, y2 + 0. * x, k))

    def pcolormesh(self, *a, **k):
        """As in matplotlib for Python 2: the coordinates are corners; where
        there are as many of them as of contents, the last contents are not
        shown."""
        self._draw("pcolormesh")
        c = numpy.array(a[-1], dtype=float)
        if len(a) == 1:
            x, y = numpy.arange(c.shape[1] + 1.), numpy.arange(c.shape[0] + 1.)
        else:
            x, y = (numpy.array(v, dtype=float) for v in a[:2])
            if x.ndim == 2:
                x = x[0]
            if y.ndim == 2:
                y = y[:, 0]
        if len(x) not in (c.shape[1], c.shape[1] + 1) or \
                len(y) not in (c.shape[0], c.shape[0] + 1):
            raise TypeError("Dimensions of C %s are incompatible with X (%d) "
                            "and/or Y (%d)" % (c.shape, len(x), len(y)))
        self.cells.append((x, y, c[:len(y) - 1, :len(x) - 1]))
        return Anything("mesh")

    pcolor = pcolormesh

    def get_position(self, *a):
        return types.SimpleNamespace(x0=0.125, y0=0.1, width=0.775,
                                     height=0.8)

    def get_xlim(self):
        return (0., 1.)

    get_ylim = get_xlim


class Figure(Lenient):
    def __init__(self, proc, num):
        self._proc, self.number, self.axes = proc, num, []
        self._current = None

    def add_subplot(self, *a, **k):
        self._proc.world.seam(self._proc, "draw", "subplot")
        for x in self.axes:
            if x.where == a:
                self._current = x
                return x
        self.axes.append(Axes(self._proc, a))
        self._current = self.axes[-1]
        return self._current

    def add_axes(self, *a, **k):
        return self.add_subplot(repr(a))

    def gca(self, **k):
        return self._current or self.add_subplot(1, 1, 1)

    @property
    def texts(self):
        return Anything("texts")


class Pyplot(types.ModuleType):
    def __init__(self, proc):
        types.ModuleType.__init__(self, "matplotlib.pyplot")
        self.__dict__.update(_proc=proc, _figs={}, _now=None)

    def xlabel(self, text, *a, **k):
        self.gca().set_xlabel(text)

    def ylabel(self, text, *a, **k):
        self.gca().set_ylabel(text)

    def figure(self, num=None, *a, **k):
        world = self._proc.world
        world.seam(self._proc, "draw", "figure")
        if num is None:
            num = max([0] + [n for n in self._figs
                             if isinstance(n, int)]) + 1
        if num not in self._figs:
            self._figs[num] = Figure(self._proc, num)
        self.__dict__["_now"] = self._figs[num]
        return self._figs[num]

    def gcf(self):
        return self._now if self._now is not None else self.figure()

    def gca(self, **k):
        return self.gcf().gca()

    def subplots(self, *a, **k):
        f = self.figure(k.get("num"))
        return f, f.add_subplot(1, 1, 1)

    def show(self, *a, **k):
        """Until the user has closed the windows."""
        self._proc.world.seam(self._proc, "show", "")
        self._proc.waits += 1
        self._figs.clear()
        self.__dict__["_now"] = None

    def close(self, what=None):
        if what is None:
            what = self._now
        for n, f in list(self._figs.items()):
            if what in (n, f, "all"):
                self._figs.pop(n)
                if f is self._now:
                    self.__dict__["_now"] = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(Axes, name):
            return getattr(self.gca(), name)
        return Anything(name)


class FixedLocator(object):
    def __init__(self, locs, nbins=None):
        self.locs = numpy.asarray(locs)

    def tick_values(self, vmin, vmax):
        return self.locs


class Matplotlib(Lenient):
    pass


def modules(proc):
    """name -> module"""
    out = {}
    for name in ("matplotlib.colors", "matplotlib.colorbar", "mpl_toolkits",
                 "mpl_toolkits.mplot3d", "matplotlib.cm",
                 "matplotlib.gridspec"):
        out[name] = Anything(name)
    out["matplotlib"] = Anything("matplotlib")
    out["matplotlib.pyplot"] = Pyplot(proc)
    ticker = types.ModuleType("matplotlib.ticker")
    ticker.FixedLocator = FixedLocator
    ticker.__getattr__ = lambda name: Anything(name)
    out["matplotlib.ticker"] = ticker
    out["matplotlib"].pyplot = out["matplotlib.pyplot"]
    return out
