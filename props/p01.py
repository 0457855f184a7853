"""P01: a plot shows what its arguments hold and changes none of them."""
import numpy

from . import common, storelib
from .common import diff, plain

ID = "P01"
LEVEL = "exploration"
RULE = ("A run makes spectra, fit results and limit results, changes them, "
        "and plots them with both back ends between the changes, on screen or "
        "not, with interrupts (also while a plot waits for the user) and "
        "memory failures in the middle. It counts as nontrivial if something "
        "was plotted after a change, a plot or an interrupted plot.")
REAL = ["echidna.output.plot", "echidna.output.plot_root",
        "echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "echidna.fit.fit_results",
        "echidna.fit.minimise", "numpy"]
STUB = ["matplotlib, ROOT (stand-ins that keep what is drawn)", "raw_input"]
ASSUMPTIONS = [
    "Styles of spectra are dictionaries, as matplotlib's hist takes them.",
    "Values of fit parameters are plotted in the order of their grid; where "
    "their points lie inside the cells of a histogram is not judged.",
    "Fit results have two plotted parameters, the others at given values; "
    "per bin, no spectral axis has only one bin."]
SIZES = {"quick": (3500, 2), "thorough": (60000, 4)}
LINES = True

NAMES = ("Te130_0n2b", "Te130_2n2b", "B8_Solar", "Tl208", "Te130")
SPECTRUM = ("m-projection", "m-surface", "m-spectral", "r-projection",
            "r-surface", "r-spectral")
LIMIT = ("r-stats-scale", "r-best-scale", "r-sigma-scale",
         "r-penalty-scale")


# -- plans ----------------------------------------------------------------

def rand_axes(rng):
    """Some widths that do not add up to the range in binary."""
    axes = common.rand_axes(rng)
    for a in axes:
        if rng.random() < 0.4:
            a[3] = rng.choice([3, 6, 7, 10, 11, 13]) if len(axes) < 3 \
                else rng.choice([3, 6, 7])
            a[2] = a[1] + rng.choice([0.1, 0.3, 1., 0.7, 4.9])
    return axes


def rand_style(rng):
    out = {}
    if rng.random() < 0.6:
        out["color"] = rng.choice(["red", "blue"])
    if rng.random() < 0.5:
        out["label"] = rng.choice(["signal", "$2\\nu$", "Sum of all"])
    if rng.random() < 0.2:
        out["alpha"] = 0.5
    return out


def generate(rng, tier):
    steps, fault = [], []
    axes = rand_axes(rng)
    spectra, fits, limits = [], [], []
    kinds = [rng.choice(["spectrum"] * 5 + ["fit"] * 3 + ["limit"] * 2)
             for _ in range(rng.randint(1, 4))]
    for k, kind in enumerate(kinds):
        if kind == "spectrum":
            mine = [list(a) for a in axes]
            if rng.random() < 0.3:
                rng.shuffle(mine)
            if rng.random() < 0.2:
                a = rng.choice(mine)
                if rng.random() < 0.5:      # the same width
                    w = rng.choice([1, -1]) * (a[2] - a[1]) / a[3]
                    a[1] += w
                    a[2] += w
                else:
                    a[rng.choice([1, 2])] += rng.choice([-0.0625, 0.0625])
            if rng.random() < 0.1:
                rng.choice(mine)[3] += 1
            spec = {"name": rng.choice(NAMES) + "_mc", "decays":
                    rng.choice([1., 100., 0.1]), "raw": rng.choice([0, 7]),
                    "config": {"name": "config", "pars": mine},
                    "data": rng.randrange(10 ** 6), "style": rand_style(rng),
                    "shape": rng.choice(["counts", "uniform", "sparse",
                                         "exact", "peak"])}
            spectra.append(k)
        elif kind == "fit":
            spec = rand_fit(rng, tier)
            fits.append((k, spec))
        else:
            spec = storelib.rand_limit(rng, tier)
            spec["stored"] = spec["stored"][:1]
            for q in spec["fit"]["pars"]:
                q["args"]["sigma"] = q["args"]["sigma"] or 0.5
            limits.append((k, spec))
        steps.append({"op": "new", "id": k, "kind": kind, "spec": spec})
    for _ in range(rng.randint(2, 8)):
        if rng.random() < 0.25:
            k = rng.randrange(len(kinds))
            if kinds[k] == "spectrum":
                ops = common.rand_ops(rng, 1, axes)
                if ops[0]["k"] in ("style", "fitpar"):
                    ops = [{"k": "scale", "to": 50.}]
            else:
                ops = storelib.rand_result_ops(rng, rng.randint(1, 2))
            steps.append({"op": "ops", "id": k, "list": ops})
            continue
        kind = rng.choice(kinds)
        st = {"op": "plot", "show": rng.random() < 0.5}
        if kind == "spectrum":
            st["what"] = rng.choice(SPECTRUM)
            n = rng.randint(1, len(spectra)) if "spectral" in st["what"] \
                else 1
            st["ids"] = rng.sample(spectra, n)
            st["fig"] = rng.choice([1, 1, 2])
            st["dims"] = rng.sample(range(len(axes)), min(2, len(axes)))
            if "surface" in st["what"] and len(axes) < 2:
                st["what"] = st["what"][0] + "-projection"
            if "spectral" in st["what"]:
                st["types"] = [rng.choice(["background", "background",
                                           "signal", None]) for _ in range(n)]
                st["labels"] = [rng.choice([None, "L%d" % i])
                                for i in range(n)]
                st["log"] = rng.random() < 0.3
                if rng.random() < 0.4:
                    st["limit"] = rng.choice(spectra)
                st["title"] = rng.choice([None, "title"])
                st["text"] = rng.choice([None, ["a", "b"]])
        elif kind == "fit":
            k, spec = rng.choice(fits)
            st["ids"] = [k]
            n = len(spec["fit"]["pars"])
            what = ["r-per-bin"] if spec["per_bin"] else []
            if n == 1:
                what += ["r-raw-scale", "r-stats-par", "r-penalty-par"]
            else:
                what += ["r-raw-scale", "r-raw-pars", "r-stats-pars"]
            st["what"] = rng.choice(what)
            st["pars"] = rng.sample(range(n), min(n, 2))
            st["at"] = [round(rng.random(), 3) for _ in range(n)]
            st["dims"] = rng.sample(range(len(spec["config"]["pars"])),
                                    len(spec["config"]["pars"]))
            st["min"] = rng.random() < 0.5
        else:
            k, spec = rng.choice(limits)
            st["ids"] = [k]
            st["what"] = rng.choice(LIMIT)
            st["par"] = rng.randrange(len(spec["fit"]["pars"]))
        fault.append({"step": len(steps), "kinds": ["interrupt", "interrupt",
                                                    "nomem"]})
        steps.append(st)
        if rng.random() < 0.3:
            steps.append(dict(st))
    return {"steps": steps, "faultable": fault}


def rand_fit(rng, tier):
    spec = storelib.rand_grid(rng, tier, per_bin=rng.random() < 0.5)
    spec["shape"] = rng.choice(["uniform", "counts"])
    # every plotted value has a cell of its own
    spec["config"]["pars"] = spec["config"]["pars"][:rng.choice([1, 2, 2])]
    for a in spec["config"]["pars"]:
        if a[3] == 1:
            a[3] = 2
            a[2] += 1.
    return spec


# -- runs -----------------------------------------------------------------

def execute(run):
    Sim(run).execute(run.plan["steps"])


class Sim(object):
    def __init__(self, run):
        self.run = run
        self.p = run.proc()
        self.plot = {"m": self.p.imp("echidna.output.plot"),
                     "r": self.p.imp("echidna.output.plot_root")}
        self.root = self.p.imp("ROOT")
        self.objs, self.kinds = {}, {}
        self.before = False      # something happened already

    def execute(self, steps):
        for i, st in enumerate(steps):
            getattr(self, "do_" + st["op"])(i, st)

    def do_new(self, i, st):
        make = {"spectrum": common.make_spectrum, "fit": storelib.make_grid,
                "limit": storelib.make_limit}[st["kind"]]
        self.objs[st["id"]] = make(self.p, st["spec"])
        self.kinds[st["id"]] = st["kind"]

    def do_ops(self, i, st):
        if st["id"] not in self.objs:
            return
        kind = self.kinds[st["id"]]
        for op in st["list"]:
            self.run.must(i, "op-" + op["k"], lambda: storelib.APPLY[kind](
                self.p, self.objs[st["id"]], op))
        self.before = True

    def look(self):
        obs = {"spectrum": common.obs_spectrum, "fit": common.obs_grid,
               "limit": common.obs_limit}
        return {k: obs[self.kinds[k]](o) for k, o in self.objs.items()}

    def do_plot(self, i, st):
        run = self.run
        if any(k not in self.objs for k in st["ids"]) or \
                st.get("limit", st["ids"][0]) not in self.objs:
            return
        back, what = st["what"].split("-", 1)
        call, judge, refused = getattr(
            self, "%s_%s" % (back, what.replace("-", "_")))(st)
        if call is None:
            return
        seen, waits = self.look(), self.p.waits
        out = run.step(i, call)
        d = diff(seen, self.look())
        run.check(d is None, "plot-changes-argument",
                  lambda: "a %s (%s) changed what it plots: %s"
                  % (st["what"], out.describe(), d))
        run.state(st["what"], st["show"], out.ok, bool(out.faults),
                  self.before)
        if self.before:
            run.nontrivial = True
        self.before = True
        if out.ok:
            run.check(refused is None, "not-refused",
                      lambda: "%s of spectra with %s was drawn"
                      % (st["what"], refused))
            judge(out.value)
            run.check((self.p.waits > waits) == st["show"],
                      "plot-not-shown" if st["show"] else "plot-waits",
                      lambda: "a %s with %s waited %d times for the user" % (
                          st["what"], "show" if st["show"] else "no show",
                          self.p.waits - waits))
            if st["show"] and back == "r":
                h = out.value
                run.check(h.shown if isinstance(h, self.root.TCanvas)
                          else h.draws, "plot-not-shown", "a %s was not drawn" % st["what"])
            run.probe(st["what"])
        elif not out.faults:
            run.check(refused is not None, "plot-fails",
                      lambda: "%s failed with no fault: %s at %s" % (
                          st["what"], out.describe(),
                          storelib.where(out.exc)))
            run.check(isinstance(out.exc, AssertionError), "wrong-refusal",
                      lambda: "spectra with %s: %s" % (refused,
                                                       out.describe()))
            run.probe("refused")
        else:
            run.probe("plot-interrupted")

    def same(self, want, got, what, tol=1e-12):
        if isinstance(want, numpy.ndarray) and isinstance(got, numpy.ndarray) \
                and want.shape == got.shape and want.size and tol:
            m = max(1e-300, float(numpy.abs(want).max()))
            ok = numpy.array_equal(want, got) or \
                bool((numpy.abs(want - got) <= tol * m).all())
            d = None if ok else diff(plain(want), plain(got), tol) or "?"
        else:
            d = diff(plain(want), plain(got), tol)
        self.run.check(d is None, "plot-" + what.split(" ")[0],
                       lambda: "%s: %s" % (what, d))

    def labels(self, got, *names):
        """Each axis says what it is."""
        for k, (name, text) in enumerate(zip(names, got)):
            self.run.check(name in text, "plot-labels",
                           lambda: "axis %d of %s has label %r" % (
                               k, list(names), text))

    @staticmethod
    def titles(h):
        return [a.title for a in h.named]

    # -- spectra ----------------------------------------------------------
    def axis(self, s, d):
        """name, low, high, bins"""
        c = s.get_config()
        n = list(c.get_pars())[d % len(list(c.get_pars()))]
        q = c.get_par(n)
        return n, q.get_low(), q.get_high(), q.get_bins()

    def shared(self, ids, d):
        """The named axis of each spectrum; why they do not go together."""
        objs = [self.objs[k] for k in ids]
        name = self.axis(objs[0], d)[0]
        out, axes = None, []
        for s in objs:
            q = s.get_config().get_par(name)
            axes.append((float(q.get_low()), float(q.get_high()),
                         int(q.get_bins())))
            if axes[-1] != axes[0]:
                out = "axes %s and %s" % (axes[0], axes[-1])
        return name, axes[0], out

    def project(self, s, *names):
        """Contents along axes in this order."""
        order = list(s.get_config().get_pars())
        data = numpy.array(s.get_data(), dtype=float)
        at = [order.index(n) for n in names]
        rest = tuple(i for i in range(len(order)) if i not in at)
        data = data.sum(axis=rest) if rest else data
        kept = sorted(at)
        return data.transpose([kept.index(a) for a in at])

    @staticmethod
    def edges(lo, hi, n):
        return lo + (hi - lo) * numpy.arange(n + 1) / float(n)

    def drawn(self, fig):
        """What a figure shows more than before."""
        out = {"hists": [], "bands": [], "cells": [], "lines": []}
        labels = []
        for a in fig.axes:
            count = 0
            for kind in out:
                new = getattr(a, kind)[self.marks.get((id(a), kind), 0):]
                out[kind].extend(new)
                count += len(new)
            if count:
                labels.append(a.labels)
        out["labels"] = labels
        return out

    def mark(self):
        plt = self.p.imp("matplotlib.pyplot")
        self.marks = {}
        for f in plt._figs.values():
            for a in f.axes:
                for kind in ("hists", "bands", "cells", "lines"):
                    self.marks[(id(a), kind)] = len(getattr(a, kind))

    def m_projection(self, st):
        s = self.objs[st["ids"][0]]
        name, lo, hi, n = self.axis(s, st["dims"][0])
        self.mark()

        def judge(fig):
            seen = self.drawn(fig)
            h = seen["hists"]
            self.same(1, len(h), "number of histograms")
            self.same(self.edges(lo, hi, n), h[0][0], "edges of a projection")
            self.same(self.project(s, name), h[0][1],
                      "contents of a projection")
            self.labels(seen["labels"][0], name)
        return (lambda: self.plot["m"].plot_projection(
            s, name, fig_num=st["fig"], show_plot=st["show"])), judge, None

    def r_projection(self, st):
        s = self.objs[st["ids"][0]]
        name, lo, hi, n = self.axis(s, st["dims"][0])

        def judge(h):
            self.same([[n, lo, hi]], h.axes, "axis of a projection")
            self.same(self.project(s, name), h.contents,
                      "contents of a projection")
            self.same(False, float(numpy.abs(h.cells).sum() -
                                numpy.abs(h.contents).sum()) > 1e-6 * float(
                                    numpy.abs(h.cells).sum()),
                      "overflow of a projection")
            self.labels(self.titles(h), name)
        return (lambda: self.plot["r"].plot_projection(
            s, name, graphical=st["show"])), judge, None

    def m_surface(self, st):
        s = self.objs[st["ids"][0]]
        one, two = [self.axis(s, d) for d in st["dims"]]
        self.mark()
        names = list(s.get_config().get_pars())
        # across: the later axis of the spectrum
        x, y = (two, one) if names.index(one[0]) < names.index(two[0]) \
            else (one, two)

        def judge(fig):
            seen = self.drawn(fig)
            c = seen["cells"]
            self.same(1, len(c), "number of surfaces")
            self.same(self.edges(*x[1:]), c[0][0], "edges across a surface")
            self.same(self.edges(*y[1:]), c[0][1], "edges up a surface")
            self.same(self.project(s, y[0], x[0]), c[0][2],
                      "contents of a surface")
            self.labels(seen["labels"][0], x[0], y[0])
        return (lambda: self.plot["m"].plot_surface(
            s, one[0], two[0], fig_num=st["fig"],
            show_plot=st["show"])), judge, None

    def r_surface(self, st):
        s = self.objs[st["ids"][0]]
        one, two = [self.axis(s, d) for d in st["dims"]]

        def judge(h):
            self.same([[one[3], one[1], one[2]], [two[3], two[1], two[2]]],
                      h.axes, "axes of a surface")
            self.same(self.project(s, one[0], two[0]), h.contents,
                      "contents of a surface")
            self.labels(self.titles(h), one[0], two[0])
        return (lambda: self.plot["r"].plot_surface(
            s, one[0], two[0], graphical=st["show"])), judge, None

    def several(self, st):
        """The dictionary, and name -> what is to be seen."""
        from collections import OrderedDict
        name, (lo, hi, n), refused = self.shared(
            st["ids"] + ([st["limit"]] if "limit" in st else []),
            st["dims"][0])
        _, _, refused = self.shared(st["ids"], st["dims"][0])
        d = OrderedDict()
        for k, t, label in zip(st["ids"], st["types"], st["labels"]):
            s = self.objs[k]
            d["%s %d" % (s.get_name(), k)] = {
                "spectra": s, "label": label, "type": t and str(t),
                "style": {"color": 2}}
        return name, (lo, hi, n), refused, d

    def m_spectral(self, st):
        name, axis, refused, d = self.several(st)
        limit = self.objs[st["limit"]] if "limit" in st else None
        if limit is not None and self.shared(
                [st["ids"][0], st["limit"]], st["dims"][0])[2]:
            return None, None, None
        self.mark()

        def judge(fig):
            seen = self.drawn(fig)
            self.labels(seen["labels"][0], name)
            want, sums = [], {"Sum": numpy.zeros(axis[2]),
                              "Summed background": numpy.zeros(axis[2])}
            for v in d.values():
                s = v["spectra"]
                data = self.project(s, name)
                want.append((v["label"] or s.get_style().get("label") or
                             s.get_name(), data))
                sums["Sum"] = sums["Sum"] + data
                if v["type"] == "background":
                    sums["Summed background"] = \
                        sums["Summed background"] + data
            want += sorted(sums.items())
            if limit is not None:
                want.append((limit.get_style().get("label") or "limit",
                             self.project(limit, name)))
            got = [(k.get("label"), h) for _, h, k in seen["hists"]]
            self.same(sorted(w[0] for w in want), sorted(
                str(g[0]) for g in got), "labels of a spectral plot")
            for label in sorted(set(w[0] for w in want)):
                a = sorted(w[1].tolist() for w in want if w[0] == label)
                b = sorted(g[1].tolist() for g in got if g[0] == label)
                if len(a) == 1:
                    self.same(numpy.array(a), numpy.array(b),
                              "contents of %s" % label)
                else:
                    self.same(a, b, "contents of %s" % label, 1e-9)
            for e, _, _ in seen["hists"]:
                self.same(self.edges(*axis), e, "edges of a spectral plot")
            y = sums["Summed background"]
            if (y >= 0.).all():
                e = self.edges(*axis)
                self.same(1, len(seen["bands"]), "number of bands")
                x, low, high, _ = seen["bands"][0]
                self.same(0.5 * (e[1:] + e[:-1]), x, "places of the band",
                          1e-9)
                self.same(y - numpy.sqrt(y), low, "band from", 1e-9)
                self.same(y + numpy.sqrt(y), high, "band to", 1e-9)
        return (lambda: self.plot["m"].spectral_plot(
            d, name, fig_num=st["fig"], show_plot=st["show"],
            log_y=st["log"], limit=limit, title=st["title"],
            text=st["text"])), judge, refused

    def r_spectral(self, st):
        from collections import Counter
        name, axis, refused, d = self.several(st)
        limit = self.objs[st["limit"]] if "limit" in st else None
        dims = Counter(n.rsplit("_", 1)[0] for n in self.objs[
            st["ids"][0]].get_config().get_pars())
        dim = name.rsplit("_", 1)[0]
        if dims[dim] > 1:
            return None, None, None

        def judge(can):
            hists = [h for h in can.shown if isinstance(h, self.root.TH1)]
            want = [self.project(v["spectra"], name) for v in d.values()]
            total = sum(want)
            bg = sum([w for w, v in zip(want, d.values())
                      if v["type"] == "background"],
                     numpy.zeros(axis[2]))
            want = [w.tolist() for w in want] + [total.tolist(), bg.tolist()]
            if limit is not None:
                want.append(self.project(limit, name).tolist())
            got = [h.contents.tolist() for h in hists]
            self.same(len(want), len(got), "number of histograms drawn")
            self.same(sorted(want), sorted(got), "contents of a spectral "
                      "plot", 1e-6)
            q = limit and limit.get_config().get_par(name)
            axes = [[list(a) for a in h.axes] for h in hists]
            mine = [[axis[2], axis[0], axis[1]]]
            theirs = q and [[q.get_bins(), q.get_low(), q.get_high()]]
            expect = [mine] * (len(hists) - bool(q)) + (
                [theirs] if q else [])
            self.same(sorted(expect), sorted(axes),
                      "axes of a spectral plot")
            for h in hists:
                if h.named[0].title:
                    self.labels(self.titles(h), dim)
            # each entry of the legend stands for its spectrum
            leg = [v for v in can.shown
                   if isinstance(v, self.root.TLegend)]
            self.same(1, len(leg), "legends of a spectral plot")
            entries = [(str(t), h.contents.tolist())
                       for h, t in leg[0].entries]
            for v, w in zip(d.values(), want):
                self.run.check(any(t == str(v["label"]) and diff(
                    w, c, 1e-6) is None for t, c in entries),
                    "plot-legend", lambda: "no entry %s with %s in %s" % (
                        v["label"], w, entries))
        return (lambda: self.plot["r"].spectral_plot(
            d, dim, show_plot=st["show"], log_y=st["log"],
            limit=limit)), judge, refused

    # -- fit results ------------------------------------------------------
    def grid(self, st):
        """Raw and penalty arrays over all parameters, and the selection."""
        g = self.objs[st["ids"][0]]
        fc = g.get_fit_config()
        names = list(fc.get_pars())
        raw = numpy.array(g._stats, dtype=float)
        raw = raw.reshape(fc.get_shape() + (-1,)).sum(-1)
        pen = numpy.array(g._penalty_terms, dtype=float)
        at = [min(int(f * n), n - 1) for f, n in zip(st["at"],
                                                     fc.get_shape())]
        return g, fc, names, raw, pen, at

    def others(self, fc, names, at, picked):
        kw, where = {}, []
        for n, i in zip(names, at):
            if n in picked:
                where.append(slice(None))
            else:
                kw[n] = fc.get_par(n).get_value_at(i)
                where.append(i)
        return kw, tuple(where)

    def graph(self, g, x, y, what, *names):
        self.same(numpy.array(x, dtype=float), g.x, "points of " + what)
        self.same(numpy.array(y, dtype=float), g.y, "values of " + what)
        self.labels(self.titles(g), *names)

    def r_raw_scale(self, st):
        g, fc, names, raw, pen, at = self.grid(st)
        par = names[st["pars"][0]]
        kw, where = self.others(fc, names, at, [par])
        x = plain_values(fc.get_par(par))
        return (lambda: self.plot["r"].plot_raw_stats_vs_par_scale(
            g, par, graphical=st["show"], **kw)), (
            lambda h: self.graph(h, x, raw[where], "raw statistics",
                                 par)), None

    def r_stats_par(self, st):
        g, fc, names, raw, pen, at = self.grid(st)
        x = plain_values(fc.get_par(names[0]))
        return (lambda: self.plot["r"].plot_stats_vs_par_scale(
            g, names[0], graphical=st["show"])), (
            lambda h: self.graph(h, x, raw + pen, "statistics",
                                 names[0])), None

    def r_penalty_par(self, st):
        g, fc, names, raw, pen, at = self.grid(st)
        x = plain_values(fc.get_par(names[0]))
        return (lambda: self.plot["r"].plot_penalty_term_vs_par_scale(
            g, names[0], graphical=st["show"])), (
            lambda h: self.graph(h, x, pen, "penalty terms",
                                 names[0])), None

    def two(self, st, fn, total):
        g, fc, names, raw, pen, at = self.grid(st)
        par = [names[k] for k in st["pars"]]
        kw, where = self.others(fc, names, at, par)
        want = (raw + pen if total else raw)[where]
        if st["pars"][0] > st["pars"][1]:
            want = want.T
        qs = [fc.get_par(n) for n in par]

        def judge(h):
            self.same([[q.get_bins(), q.get_low(), q.get_high()] for q in qs],
                      h.axes, "axes of statistics")
            self.same(want, h.contents, "contents of statistics")
            self.labels(self.titles(h), *par)
        return (lambda: fn(g, par[0], par[1], graphical=st["show"],
                           **kw)), judge, None

    def r_raw_pars(self, st):
        return self.two(st, self.plot["r"].plot_raw_stats_vs_pars, False)

    def r_stats_pars(self, st):
        return self.two(st, self.plot["r"].plot_stats_vs_pars, True)

    def r_per_bin(self, st):
        g, fc, names, raw, pen, at = self.grid(st)
        kw, where = self.others(fc, names, at, [])
        if st["min"]:
            for n, i in zip(names, at):
                fc.get_par(n).set_best_fit(fc.get_par(n).get_value_at(i))
                fc.get_par(n).set_penalty_term(0.5)
        data = numpy.array(g._stats[where], dtype=float)
        sc = g.get_spectra_config()
        dims = [list(sc.get_pars())[d] for d in st["dims"]]
        if len(dims) == 2 and st["dims"][0] > st["dims"][1]:
            data = data.T
        qs = [sc.get_par(n) for n in dims]
        dims = dict(zip(("x_dim", "y_dim"), dims))
        if st["min"]:
            kw = {}

        def judge(h):
            self.same([[q.get_bins(), q.get_low(), q.get_high()] for q in qs],
                      h.axes, "axes of statistics per bin")
            self.same(data, h.contents, "contents of statistics per bin")
            self.labels(self.titles(h), *dims.values())
        kw = dict(kw, **dims)
        return (lambda: self.plot["r"].plot_per_bin(
            g, min_chisq=st["min"], graphical=st["show"], **kw)), judge, None

    # -- limit results ----------------------------------------------------
    def limit(self, st, fn, y, what, par=None):
        r = self.objs[st["ids"][0]]
        a = (r,) if par is None else (r, par)
        x = plain_values(r._limit_config.get_par("rate"))
        return (lambda: fn(*a, graphical=st["show"])), (
            lambda h: self.graph(h, x, y, what, *(
                ["", par] if par and "best" in what else []))), None

    def of_par(self, st, array):
        r = self.objs[st["ids"][0]]
        par = list(r.get_fit_config().get_pars())[st["par"]]
        return r, par, numpy.array(getattr(r, array)[:, st["par"]])

    def r_stats_scale(self, st):
        r = self.objs[st["ids"][0]]
        y = numpy.array(r._stats, dtype=float)
        y = y.reshape(len(y), -1).sum(-1) + numpy.array(
            r._penalty_terms).sum(-1)
        return self.limit(st, self.plot["r"].plot_stats_vs_scale, y,
                          "statistics")

    def r_best_scale(self, st):
        r, par, y = self.of_par(st, "_best_fits")
        return self.limit(st, self.plot["r"].plot_best_fit_vs_scale, y,
                          "best fits", par)

    def r_sigma_scale(self, st):
        r, par, y = self.of_par(st, "_best_fits")
        q = r.get_fit_config().get_par(par)
        y = (y - q.get_prior()) / q.get_sigma()
        return self.limit(st, self.plot["r"].plot_sigma_best_fit_vs_scale, y,
                          "best fits in sigma", par)

    def r_penalty_scale(self, st):
        r, par, y = self.of_par(st, "_penalty_terms")
        return self.limit(st, self.plot["r"].plot_penalty_term_vs_scale, y,
                          "penalty terms", par)


def plain_values(q):
    import copy
    return numpy.array(copy.copy(q).get_values(), dtype=float)
