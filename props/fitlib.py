"""A model of echidna.fit.fit.Fit, run against the real one.

The model knows the contents every spectrum was built with and which of them
the fit currently uses; it recomputes every point of the parameter grid from
these alone. Only the convolutions with global parameters are taken from
echidna, each made from scratch by a fresh process.
"""
import copy
import itertools
import math
import random

import numpy

from . import common
from .common import diff, plain

EPS = 1e-34
STATS = ("BakerCousinsChi", "BakerCousinsLL", "Neyman", "Pearson",
         "BakerCousinsChiUp", "ExtendedLL", "custom")


# -- statistics -----------------------------------------------------------

def ref_bins(kind, obs, exp):
    """Statistic per bin, independently of echidna."""
    out = numpy.zeros(len(obs))
    for k, (o, e) in enumerate(zip(obs, exp)):
        if kind == "custom":
            out[k] = (1. + 0.1 * k) * abs(o - e) ** 1.5
            continue
        if kind == "BakerCousinsChiUp" and o > e:
            continue
        if kind == "Neyman":
            o = max(o, EPS)
            out[k] = o if e < EPS else (o - e) ** 2 / o
            continue
        e = max(e, EPS)
        if kind == "ExtendedLL":
            v = e - o * math.log(e)
        elif kind == "Pearson":
            v = e if o < EPS else (o - e) ** 2 / e
        else:
            v = e if o < EPS else e - o + o * math.log(o / e)
            if kind != "BakerCousinsLL":
                v *= 2.
        out[k] = v
    return out


def ref_penalty(kind, v, prior, sigma):
    if sigma is None:
        return 0.
    if kind == "custom":
        return 3. * abs(v - prior) / sigma
    t = ((v - prior) / sigma) ** 2
    return 0.5 * t if kind == "BakerCousinsLL" else t


def make_stat(run, p, kind, per_bin):
    mod = p.imp("echidna.fit.test_statistic")
    if kind == "custom":
        class Custom(mod.TestStatistic):
            def __init__(self, per_bin):
                mod.TestStatistic.__init__(self, "custom", per_bin)

            def _compute(self, observed, expected):
                return float(self._get_stats(observed, expected).sum())

            def _get_stats(self, observed, expected):
                run.w.seam(p, "stat")
                return ref_bins("custom", observed, expected)

            def get_penalty_term(self, v, prior, sigma):
                return ref_penalty("custom", v, prior, sigma)
        return Custom(per_bin)
    base = getattr(mod, kind)

    class Wrapped(base):
        def compute_statistic(self, observed, expected):
            run.w.seam(p, "stat")
            return base.compute_statistic(self, observed, expected)
    return Wrapped(per_bin)


def ref_values(par):
    """The documented grid of a parameter (spec), or None if not simple."""
    a = par["args"]
    if a.get("values") is not None:
        return numpy.array(a["values"])
    lo, hi, n = a["low"], a["high"], a["bins"]
    if a.get("logscale"):
        return numpy.exp(numpy.linspace(math.log(lo), math.log(hi), n))
    return numpy.linspace(lo, hi, n)


# -- specs ----------------------------------------------------------------

def axes_of(spec, kind, fine=1):
    """Axes of a spectrum: [[name, low, high, bins]]"""
    out = []
    for k, (dim, lo, hi, b) in enumerate(spec["axes"]):
        t = spec["types"].get(kind, spec["types"]["data"])
        f = fine if not isinstance(fine, list) else fine[k]
        out.append([dim + "_" + t[k % len(t)], lo, hi, b * f])
    return out


def contents(spec, s):
    fine = s.get("fine", [1] * len(spec["axes"]))
    shape = tuple(a[3] * f for a, f in zip(spec["axes"], fine))
    return common.make_data(shape, s["data"], s.get("shape", "uniform"))


def build(run, p, spec, s, kind):
    """The spectrum in process p."""
    if s.get("stored") and p.host != "producer":
        return p.imp("echidna.output.store").load(s["stored"])
    sp = {"name": s["name"], "decays": s["decays"],
          "config": {"name": "config",
                     "pars": axes_of(spec, kind, s.get("fine", 1))},
          "data": s["data"], "shape": s.get("shape", "uniform"),
          "background": s.get("background", s["name"] + "_bg")}
    if s.get("rate"):
        sp["fit"] = {"name": "fc", "pars": [s["rate"]]}
    return common.make_spectrum(p, sp)


# -- pre-made convolved spectra -------------------------------------------

SYST = {"Resolution": "smear", "Scale": "scale", "Shift": "shift"}


def pre_made_path(location, base, pars):
    """The documented place of the spectrum stored at `location`, with pars
    [(class, dimension, value)] applied."""
    parts = [x for x in (base or location.rpartition("/")[0]).split("/") if x]
    words = location.rpartition("/")[2][:-len(".hdf5")].split("_")
    for cls, dim, v in pars:
        if dim not in parts:
            parts.append(dim)
        last = len(parts) - parts[::-1].index(dim)
        if SYST[cls] not in parts[last:]:
            parts.append(SYST[cls])
        ext = {"Resolution": "ly" if v > 10. else "rs", "Scale": "sc",
               "Shift": "sh"}[cls]
        value = "%.12g" % v + ext
        if any(w.endswith(ext) for w in words):
            words = [value if w.endswith(ext) else w for w in words]
        else:
            words.append(value)
    return "/" + "/".join(parts + ["_".join(words) + ".hdf5"])


def pre_made_spec(s, version, values):
    """What the producer put there: nothing but the file name says so."""
    r = random.Random("%s/%s/%s" % (s["data"], version,
                                    ["%.9g" % v for v in values]))
    return dict(s, data=r.randrange(10 ** 6), stored=None,
                decays=r.choice([s["decays"], 10., 250.]), rate=None)


class FitModel(object):
    """What the fit should be computing now."""

    def __init__(self, spec):
        self.spec = spec
        self.data = spec["data"]
        self.fixed = [[s, x] for s, x in spec["fixed"]]
        self.floating = list(spec["floating"])
        self.signal = spec.get("signal")
        # shared by all models that use the same signal spectrum
        self.state = {"decays": self.signal["decays"]} if self.signal else {}
        self.roi = {d: list(v) for d, v in spec["roi"].items()}
        # name -> (spec of parameter, kind)
        self.pars = {}
        for g in spec["globals"]:
            self.pars[g["name"]] = g
        for s in self.floating:
            self.add_pars(s)

    @property
    def signal_decays(self):
        return self.state["decays"]

    def copy(self):
        m = copy.copy(self)
        m.fixed = list(m.fixed)
        m.floating = list(m.floating)
        m.pars = dict(m.pars)
        m.roi = dict(m.roi)
        return m

    def add_pars(self, s):
        if s.get("rate"):
            self.pars[s["name"] + "_" + s["rate"]["name"]] = s["rate"]

    def slices(self, s):
        """ROI as slices of s's bins."""
        out = []
        fine = s.get("fine", [1] * len(self.spec["axes"]))
        for (dim, lo, hi, b), f in zip(self.spec["axes"], fine):
            if dim in self.roi:
                w = (hi - lo) / b
                i = int(round((self.roi[dim][0] - lo) / w))
                j = int(round((self.roi[dim][1] - lo) / w))
            else:
                i, j = 0, b
            out.append(slice(i * f, j * f))
        return tuple(out)

    def in_roi(self, s):
        return contents(self.spec, s)[self.slices(s)]

    def project(self, a):
        drop = tuple(k for k, ax in enumerate(self.spec["axes"])
                     if ax[0] not in self.roi)
        return a.sum(axis=drop) if drop else a

    @staticmethod
    def rebin(a, shape):
        for k, n in enumerate(shape):
            f = a.shape[k] // n
            a = a.reshape(a.shape[:k] + (n, f) + a.shape[k + 1:]).sum(k + 1)
        return a


class FitSim(object):
    def __init__(self, run, spec, host="node0", p=None):
        self.run = run
        self.spec = spec
        self.p = p or run.proc(host=host)
        self.model = FitModel(spec)
        self.cache = {}
        self.fitter = None
        self.fits = 0
        self.kept = []           # what earlier fits gave: (what, it, values)
        self.oracle = None
        self.version = 0

    # -- building ---------------------------------------------------------
    def setup(self):
        spec, p, run = self.spec, self.p, self.run
        self.x_data = build(run, p, spec, spec["data"], "data")
        self.x_fixed = [(build(run, p, spec, s, "fixed"), f)
                        for s, f in spec["fixed"]]
        self.x_floating = [build(run, p, spec, s, "floating")
                           for s in spec["floating"]]
        self.x_signal = None
        if spec.get("signal"):
            self.x_signal = build(run, p, spec, spec["signal"], "signal")
        self.stat = make_stat(run, p, spec["stat"], spec["stat_per_bin"])
        self.callers = [(x, self.obs(x)) for x, _ in self.x_fixed]
        self.fitter = self.make_fitter()
        if spec.get("no_numpy"):
            self.use_grid(False)

    def make_fitter(self):
        spec, p = self.spec, self.p
        from collections import OrderedDict
        fc = None
        if spec["globals"]:
            fc = common.make_global(p, {"name": "global", "pars": [
                dict(g, **{"global": True}) for g in spec["globals"]]})
        kw = {}
        if spec.get("pre_made"):
            kw = {"use_pre_made": True}
            if spec["pre_made"].get("base"):
                kw["pre_made_base_dir"] = spec["pre_made"]["base"]
        mod = p.imp("echidna.fit.fit")
        if spec.get("late"):
            # everything set after construction
            f = mod.Fit(self.roi(), self.stat, fit_config=fc,
                        per_bin=spec["per_bin"],
                        single_bin=spec["single_bin"], **kw)
            if self.x_fixed:
                f.make_fixed_background(OrderedDict(self.x_fixed))
            if self.x_floating:
                f.set_floating_backgrounds(self.x_floating)
            if self.x_signal is not None:
                f.set_signal(self.x_signal)
            f.set_data(self.x_data)
            f.set_minimiser(None)
        else:
            f = mod.Fit(self.roi(), self.stat, fit_config=fc,
                        data=self.x_data,
                        fixed_backgrounds=OrderedDict(self.x_fixed),
                        floating_backgrounds=self.x_floating,
                        signal=self.x_signal, per_bin=spec["per_bin"],
                        single_bin=spec["single_bin"], **kw)
        return f

    def roi(self):
        return {d: tuple(v) for d, v in self.model.roi.items()}

    def use_grid(self, use_numpy):
        f = self.fitter
        g = self.p.imp("echidna.fit.minimise").GridSearch(
            f.get_fit_config(), f.get_data().get_config(),
            name="grid", per_bin=self.spec["per_bin"], use_numpy=use_numpy)
        f.set_minimiser(g)

    @staticmethod
    def obs(x):
        o = common.obs_spectrum(x, fit=False)
        o.pop("style")
        return o

    # -- the reference ----------------------------------------------------
    def convolved(self, s, kind, values):
        """Contents in the ROI, with the global parameters applied by a fresh
        process, rebinned to the data."""
        m = self.model
        shape = m.in_roi(m.data).shape
        if not self.spec["globals"]:
            return m.rebin(m.in_roi(s), shape)
        if self.spec.get("pre_made"):
            q = pre_made_spec(s, self.version, values)
            return m.rebin(m.in_roi(q), shape) * (s["decays"] / q["decays"])
        key = (s["name"], s["data"], s["decays"], kind, tuple(values),
               str(sorted(m.roi.items())))
        if key not in self.cache:
            if self.oracle is None or self.oracle.dead:
                self.oracle = self.run.proc(host="oracle")
            q = self.oracle
            x = build(self.run, q, self.spec, dict(s, stored=None), kind)
            kw = {}
            for n in x.get_config().get_pars():
                d = n.split("_")[0]
                if d in m.roi:
                    kw[n + "_low"], kw[n + "_high"] = m.roi[d]
            if kw:
                x.shrink(**kw)
            for g, v in zip(self.spec["globals"], values):
                par = common.make_par(q, dict(g, state=None))
                par.set_current_value(v)
                x = par.apply_to(x)
            self.cache[key] = m.rebin(numpy.array(x.get_data()), shape)
        return self.cache[key]

    def grids(self):
        """[(name, values, spec)] of the fit parameters now."""
        fc = self.fitter.get_fit_config()
        out = []
        for n in fc.get_pars():
            spec = self.model.pars[str(n)]
            vals = [float(v) for v in fc.get_par(n).get_values()]
            if not spec["args"].get("logscale_deviation"):
                ref = ref_values(spec)
                d = diff(plain(ref), plain(numpy.array(vals)), 1e-9)
                self.run.check(d is None, "grid-values",
                               "the values of %s are not those asked for: %s"
                               % (n, d))
            out.append((str(n), vals, spec))
        return out

    def expected_at(self, values):
        """values: {name: value}; expected contents in the ROI"""
        m = self.model
        gv = [values[g["name"]] for g in self.spec["globals"]]
        total, largest = 0., 0.
        for s, factor in m.fixed:
            total = total + m.in_roi(s) * (factor / s["decays"])
        for s in m.floating:
            c = self.convolved(s, "floating", gv)
            if s.get("rate"):
                n = s["name"] + "_" + s["rate"]["name"]
                c = c * (values[n] / s["decays"])
            total, largest = total + c, max(largest, abs(c).max())
        if m.signal is not None:
            c = self.convolved(m.signal, "signal", gv) if m.floating else \
                m.in_roi(m.signal)
            c = c * (m.signal_decays / m.signal["decays"])
            total, largest = total + c, max(largest, abs(c).max())
        total = m.project(total)
        if gv and m.floating:
            e = total.sum() if self.spec["single_bin"] else total
            # (nearly) nothing is expected in a bin, which may be rounding of
            # the interpolation: the statistic there is not well defined
            if numpy.logical_and(e > -1e-12 * largest,
                                 e < 1e-6 * largest).any():
                self.ill = True
        return total

    def stat_of(self, observed, expected):
        kind = self.spec["stat"]
        if self.spec["single_bin"]:
            observed, expected = [observed.sum()], [expected.sum()]
        else:
            observed, expected = observed.ravel(), expected.ravel()
        return ref_bins(kind, observed, expected)

    # -- changes between fits ----------------------------------------------
    def second(self):
        """Another fitter of the same spectra; returns the previous one."""
        old = (self.fitter, self.model, self.x_data, self.x_fixed,
               self.x_floating, self.x_signal)
        self.x_floating = list(self.x_floating)
        self.model = self.model.copy()
        m = self.model
        m.pars = {}
        for g in self.spec["globals"]:
            m.pars[g["name"]] = g
        for s in m.floating:
            m.add_pars(s)
        self.fitter = self.make_fitter()
        return old

    def swap(self, other):
        old = (self.fitter, self.model, self.x_data, self.x_fixed,
               self.x_floating, self.x_signal)
        (self.fitter, self.model, self.x_data, self.x_fixed,
         self.x_floating, self.x_signal) = other
        return old

    def set_data(self, s):
        x = build(self.run, self.p, self.spec, s, "data")
        self.fitter.set_data(x)
        self.x_data = x
        self.model.data = s

    def set_signal(self, s):
        m = self.model
        if s is None:
            self.fitter.remove_signal()
            m.signal, m.state, self.x_signal = None, {}, None
            return
        x = build(self.run, self.p, self.spec, s, "signal")
        self.fitter.set_signal(x)
        self.x_signal = x
        m.signal, m.state = s, {"decays": s["decays"]}

    def scale_signal(self, decays):
        self.fitter.get_signal().scale(decays)
        self.model.state["decays"] = decays

    def fixed(self, specs, append=False):
        from collections import OrderedDict
        new = [(build(self.run, self.p, self.spec, s, "fixed"), f)
               for s, f in specs]
        self.callers += [(x, self.obs(x)) for x, _ in new]
        m = self.model
        if append:
            self.fitter.append_fixed_background(OrderedDict(new))
            self.x_fixed = self.x_fixed + new
            m.fixed = m.fixed + [list(x) for x in specs]
        else:
            self.fitter.make_fixed_background(OrderedDict(new))
            self.x_fixed = new
            m.fixed = [list(x) for x in specs]

    def floating(self, keep, specs):
        """Keep some of the floating backgrounds, replace the others."""
        m = self.model
        xs = [self.x_floating[k] for k in keep] + [
            build(self.run, self.p, self.spec, s, "floating") for s in specs]
        self.fitter.set_floating_backgrounds(xs)
        self.x_floating = xs
        m.floating = [m.floating[k] for k in keep] + list(specs)
        for s in m.floating:
            m.add_pars(s)
        self.fitter.set_minimiser(None)

    def points(self):
        n = 1
        for s in self.model.pars.values():
            n *= s["args"]["bins"]
        return n

    def set_par(self, name, changes):
        """Change a rate, wherever it is used."""
        spec = self.model.pars[name]
        self.fitter.get_fit_config().get_par(name).set_par(**changes)
        spec["args"].update(changes)
        self.fitter.set_minimiser(None)

    def set_roi(self, roi):
        m = self.model
        m.roi = {d: list(v) for d, v in roi.items()}
        self.fitter.set_roi(self.roi())
        self.fitter.shrink_all()
        self.fitter.set_minimiser(None)

    # -- one fit ----------------------------------------------------------
    def fit(self, i, check=True):
        run = self.run
        out = run.must(i, "fit", self.fitter.fit)
        self.fits += 1
        if not out.ok:
            run.nontrivial = True
            run.probe("fit-interrupted")
            return out
        if check:
            self.verify(out.value)
        self.keep(out.value)
        return out

    def keep(self, result):
        """What an earlier fit gave belongs to the caller."""
        for what, it, values in self.kept:
            d = diff(values, plain(it))
            self.run.check(d is None, "given-changed", lambda: "a fit changed "
                           "the %s that an earlier one gave: %s" % (what, d))
        new = [("result", result)]
        g = self.fitter.get_minimiser()
        if g is not None:
            new += [("statistics", g.get_stats()),
                    ("raw statistics", g.get_raw_stats())]
        self.kept = self.kept[-6:] + [(w, x, plain(x)) for w, x in new]

    def reference(self):
        """(grids, statistics, penalties, statistics per bin)"""
        m, spec = self.model, self.spec
        self.ill = False
        obs = m.project(m.in_roi(m.data))
        grids = self.grids()
        shape = tuple(len(v) for _, v, _ in grids)
        raw = numpy.zeros(shape)
        cells = {}
        pen = numpy.zeros(shape)
        for idx in itertools.product(*[range(n) for n in shape]):
            values = {g[0]: g[1][k] for g, k in zip(grids, idx)}
            b = self.stat_of(obs, self.expected_at(values))
            raw[idx] = b.sum()
            if spec["stat_per_bin"]:
                cells[idx] = b
            pen[idx] = sum(ref_penalty(spec["stat"], values[n],
                                       s["args"]["prior"], s["args"]["sigma"])
                           for n, _, s in grids)
        return grids, raw, pen, cells

    def verify_queries(self, g, grids, raw, total, cells, obs, tol):
        """What the results answer about one point, line or projection."""
        run, spec = self.run, self.spec
        rng = random.Random("queries-%s" % (raw.shape,))
        clear = all(sum(numpy.isclose(vals, v)) == 1
                    for _, vals, _ in grids for v in vals)
        idx = tuple(rng.randrange(n) for n in raw.shape)
        if clear:
            k = rng.randrange(len(grids))
            n, vals, _ = grids[k]
            got = numpy.array(g.get_raw_stats(**{n: vals[idx[k]]}))
            d = diff(plain(numpy.array(raw.take(idx[k], axis=k))),
                     plain(got), tol)
            run.check(d is None, "grid-line", lambda: "the statistics at "
                      "%s = %r are wrong: %s" % (n, vals[idx[k]], d))
            got = g.get_raw_stats_at(**{n: vals[i] for (n, vals, _), i
                                        in zip(grids, idx)})
            want = cells[idx] if spec["stat_per_bin"] else raw[idx]
            d = diff(plain(numpy.ravel(want)), plain(numpy.ravel(got)), tol)
            run.check(d is None, "grid-point", lambda: "the statistics at %s "
                      "are wrong: %s" % (idx, d))
        names = [n for n, _, _ in grids]
        keep = [n for n in names if rng.random() < 0.5]
        drop = tuple(k for k, n in enumerate(names) if n not in keep)
        d = diff(plain(numpy.array(total.sum(axis=drop))),
                 plain(numpy.array(g.nd_project_stats(*keep))), tol)
        run.check(d is None, "grid-projection", lambda: "the projection onto "
                  "%s is wrong: %s" % (keep, d))
        d = diff(plain(numpy.array(total[idx])), plain(numpy.array(
            g.nd_project_stat(idx, *keep))), tol)
        run.check(d is None, "grid-projection-at", lambda: "the projection "
                  "at %s onto %s is wrong: %s" % (idx, keep, d))
        if not spec["per_bin"]:
            return
        dims = list(self.fitter.get_data().get_config().get_pars())
        some = rng.sample(dims, rng.randint(1, len(dims)))
        drop = tuple(k for k, n in enumerate(dims) if n not in some)
        want = cells[idx].reshape(obs.shape).sum(axis=drop)
        d = diff(plain(numpy.array(want)), plain(numpy.array(
            g.nd_project_stat(idx, *(keep + some)))), tol)
        run.check(d is None, "grid-bins-projection-at", lambda: "the "
                  "projection at %s onto %s is wrong: %s" % (idx, some, d))
        full = numpy.empty(raw.shape + obs.shape)
        for i, b in cells.items():
            full[i] = b.reshape(obs.shape)
        drop = tuple(k for k, n in enumerate(names + dims)
                     if n not in keep + some)
        d = diff(plain(numpy.array(full.sum(axis=drop))), plain(numpy.array(
            g.nd_project_stats(*(keep + some)))), tol)
        run.check(d is None, "grid-bins-projection", lambda: "the projection "
                  "onto %s is wrong: %s" % (keep + some, d))

    def verify(self, result, tol=1e-9):
        run, m, spec = self.run, self.model, self.spec
        obs = m.project(m.in_roi(m.data))
        if not m.floating:
            want = self.stat_of(obs, self.expected_at({}))
            want = want if spec["stat_per_bin"] else float(want.sum())
            d = diff(plain(want), plain(result), tol)
            run.check(d is None, "fixed-statistic",
                      "the statistic of fixed backgrounds is wrong: %s" % d)
            self.untouched()
            return want
        grids, raw, pen, cells = self.reference()
        if self.ill and spec["stat"] not in ("Neyman", "custom"):
            run.probe("ill-conditioned")
            return self.untouched()
        total = raw + pen
        g = self.fitter.get_minimiser()
        d = diff(plain(total), plain(numpy.array(g.get_stats())), tol)
        run.check(d is None, "grid-statistics",
                  "the statistics on the grid are wrong: %s" % d)
        d = diff(plain(raw), plain(numpy.array(g.get_raw_stats())), tol)
        run.check(d is None, "grid-raw-statistics",
                  "the statistics without penalties are wrong: %s" % d)
        if spec["per_bin"]:
            for idx, b in cells.items():
                got = numpy.array(g.get_raw_stat(idx))
                d = diff(plain(b), plain(got.ravel()), tol)
                run.check(d is None and got.shape == obs.shape,
                          "grid-bin-statistics",
                          "the statistics per bin at %s are wrong: %s"
                          % (idx, d))
        self.verify_queries(g, grids, raw, total, cells, obs, tol)
        best = total.min()
        fc = self.fitter.get_fit_config()
        fits = [float(fc.get_par(n).get_best_fit()) for n, _, _ in grids]
        pos = []
        for (n, vals, s), v in zip(grids, fits):
            near = [k for k, x in enumerate(vals)
                    if abs(x - v) <= 1e-12 * max(1., abs(v))]
            run.check(len(near) > 0, "best-fit-off-grid",
                      "the best fit of %s, %r, is not one of its values"
                      % (n, v))
            pos.append(near)
        # values may repeat (low == high): any of the indices will do
        at = min(itertools.product(*pos), key=lambda q: total[q])
        run.check(total[at] <= best + 1e-7 * max(1., abs(best)),
                  "not-the-minimum",
                  "the best fit %s has statistic %r; the grid has %r"
                  % (fits, float(total[at]), float(best)))
        for (n, vals, s), v in zip(grids, fits):
            want = ref_penalty(spec["stat"], v, s["args"]["prior"],
                               s["args"]["sigma"])
            d = diff(want, float(fc.get_par(n).get_penalty_term()), tol)
            run.check(d is None, "best-fit-penalty",
                      "the penalty term of %s at its best fit: %s" % (n, d))
        d = diff([float(raw[at]), float(pen[at])],
                 [float(numpy.sum(result[0])), float(result[1])], 1e-7)
        run.check(d is None or self.ties(total, best),
                  "fit-result", "the result is not that of the best fit: %s"
                  % d)
        summary = g.get_summary()
        for (n, _, _), v in zip(grids, fits):
            run.check(float(summary[n]["best_fit"]) == v, "summary",
                      "the summary has another best fit of %s" % n)
        self.untouched()
        run.state("fit", raw.shape, spec["stat"], spec["per_bin"],
                  spec["single_bin"], len(m.fixed), len(m.floating),
                  m.signal is not None, len(spec["globals"]))
        return raw, pen, at

    @staticmethod
    def ties(total, best):
        return int((total <= best + 1e-7 * max(1., abs(best))).sum()) > 1

    def untouched(self):
        """A fit does not change the spectra it uses."""
        run, m = self.run, self.model
        f = self.fitter
        d = diff(plain(m.in_roi(m.data)), plain(numpy.array(
            f.get_data().get_data())), 1e-12)
        run.check(d is None, "data-changed", "the fit changed the data: %s"
                  % d)
        if m.fixed:
            want = sum(m.in_roi(s) * (x / s["decays"]) for s, x in m.fixed)
            d = diff(plain(numpy.array(want)), plain(numpy.array(
                f.get_fixed_background().get_data())), 1e-9)
            run.check(d is None, "fixed-changed",
                      "the fixed background is wrong after the fit: %s" % d)
        if m.signal is not None:
            want = m.in_roi(m.signal) * (m.signal_decays /
                                         m.signal["decays"])
            d = diff(plain(numpy.array(want)), plain(numpy.array(
                f.get_signal().get_data())), 1e-9)
            run.check(d is None, "signal-changed",
                      "the fit changed the signal: %s" % d)
        for x, o in self.callers:
            d = diff(o, self.obs(x))
            run.check(d is None, "caller-changed", "the fit changed the "
                      "spectrum a fixed background was made from: %s" % d)


# -- random specs ---------------------------------------------------------

def rand_rate(rng, decays, name="rate", bins=None, zero=True):
    kind = rng.choice(["lin", "lin", "lin", "log", "dev"])
    hi = rng.choice([20., 50., 100., 123.4])
    lo = rng.choice([0., 0., 5., 1.]) if zero else rng.choice([1., 5.])
    prior = rng.choice([(lo + hi) / 2., lo + hi / 3.])
    a = {"prior": prior, "sigma": rng.choice([None, None, 10., 3.3, 1e-3]),
         "low": lo, "high": hi,
         "bins": bins or rng.choice([1, 2, 3, 4, 5, 6])}
    if kind == "log" and a["bins"] > 1:
        a["low"] = rng.choice([0.5, 2.])
        a["logscale"] = True
    elif kind == "dev":
        a["prior"] = (lo + hi) / 2.
        a["bins"] = 3 if bins is None else bins
        a["logscale_deviation"] = True
    return {"cls": "Rate", "name": name, "args": a}


def rand_global(rng, dim, k):
    kind = ["resolution", "scale", "shift", "resolution_ly"][k]
    if kind == "resolution":
        a = dict(prior=0.05, low=0.02, high=0.08, sigma=rng.choice(
            [None, 0.02]))
    elif kind == "resolution_ly":
        a = dict(prior=200., low=150., high=250., sigma=rng.choice(
            [None, 30.]))
    elif kind == "scale":
        a = dict(prior=1., low=0.9, high=1.1, sigma=rng.choice([None, 0.05]))
    else:
        a = dict(prior=0., low=-0.5, high=0.5, sigma=rng.choice([None, 0.2]))
    a["bins"] = rng.choice([1, 2, 3])
    if rng.random() < 0.25:
        # values that are close together
        mid = rng.choice([a["low"], a["high"],
                          a["low"] + 0.37 * (a["high"] - a["low"])])
        w = rng.choice([1e-3, 1e-4, 1e-5]) * (abs(mid) or 0.1)
        a.update(low=mid - w, high=mid + w, prior=mid,
                 bins=rng.choice([2, 3]))
    if a["bins"] == 1 and kind == "shift":
        a["prior"] = 0.1
    a["dimension"] = dim
    cls = {"resolution": "Resolution", "resolution_ly": "Resolution",
           "scale": "Scale", "shift": "Shift"}[kind]
    return {"cls": cls, "name": dim + "_" + kind, "args": a}


def rand_spectrum(rng, name, fine=None, sparse=True):
    s = {"name": name, "decays": rng.choice([100., 1., 1e3, 37.5]),
         "data": rng.randrange(10 ** 6),
         "shape": rng.choice(["uniform", "uniform", "counts",
                              "sparse" if sparse else "uniform"])}
    if fine:
        s["fine"] = fine
    return s


def rand_spec(rng, tier="quick", globals_=None, floating=None):
    if globals_ is None:
        globals_ = rng.choice([0, 0, 0, 1, 1, 2])
    nd = rng.choice([1, 1, 2])
    # interpolation needs more than three bins in the region of interest
    axes = [["energy", rng.choice([0., 1., 0.5]), None,
             rng.choice([5, 6, 8] if globals_ else [3, 4, 5, 6, 8])]]
    axes[0][2] = axes[0][1] + axes[0][3] * rng.choice([0.5, 1., 0.25])
    if nd == 2:
        axes.append(["radial3", 0., rng.choice([1., 2.]),
                     rng.choice([2, 3, 4])])
    roi = {}
    for dim, lo, hi, b in axes:
        if dim == "energy" or rng.random() < 0.7:
            i = rng.randrange(0, max(1, b // 2))
            j = rng.randint(max(i + 1, b // 2), b)
            if globals_ and dim == "energy":
                i = rng.randint(0, b - 5)
                j = rng.randint(i + 5, b)
            w = (hi - lo) / b
            roi[dim] = [lo + i * w, hi if j == b else lo + j * w]
    t = [rng.choice(["mc", "reco"]) for _ in axes]
    types = {"data": t}
    if not globals_ and rng.random() < 0.3:
        types["floating"] = ["mc"] * nd
        types["fixed"] = [rng.choice(["mc", "truth"])] * nd
    gdim = "energy_" + t[0]
    if floating is None:
        floating = rng.choice([0, 1, 1, 2, 2, 3])
    if globals_ and not floating:
        floating = 1
    names = list(common.NAMES)
    rng.shuffle(names)
    fl = []
    points = 1
    gl = []
    if globals_:
        kinds = rng.sample(range(4), globals_)
        if 0 in kinds and 3 in kinds:
            kinds.remove(3)
        gl = [rand_global(rng, gdim, k) for k in kinds]
        for g in gl:
            points *= g["args"]["bins"]
    for k in range(floating):
        fine = [rng.choice([1, 1, 2, 3]) for _ in axes]
        s = rand_spectrum(rng, names[k], fine)
        if rng.random() < 0.85 or (k == floating - 1 and not gl and
                                   not any(f.get("rate") for f in fl)):
            s["rate"] = rand_rate(rng, s["decays"])
            while points * s["rate"]["args"]["bins"] > 72:
                s["rate"]["args"]["bins"] -= 1
                s["rate"]["args"].pop("logscale", None)
                s["rate"]["args"].pop("logscale_deviation", None)
            points *= s["rate"]["args"]["bins"]
        fl.append(s)
    nfix = rng.choice([0, 1, 2, 3]) if floating else rng.choice([1, 2])
    fixed = [[rand_spectrum(rng, "fix%d" % k), rng.choice([10., 55.5, 1., 0.])]
             for k in range(nfix)]
    if gl and rng.random() < 0.8:
        # something in every bin, or the statistic is not well defined
        fixed = fixed[:2] + [[dict(rand_spectrum(rng, "fix%d" % nfix),
                                   shape="uniform"), 20.]]
    stat = rng.choice(STATS)
    full = len(roi) == len(axes)
    per_bin = bool(floating) and full and rng.random() < 0.3
    # a known finding: see known_plan in f01
    per_bin = per_bin and stat != "BakerCousinsChiUp"
    spec = {"axes": axes, "types": types, "roi": roi,
            "data": rand_spectrum(rng, "data"), "fixed": fixed,
            "floating": fl, "globals": gl, "stat": stat,
            "per_bin": per_bin, "stat_per_bin": per_bin,
            "single_bin": not per_bin and rng.random() < 0.15,
            "no_numpy": bool(floating) and rng.random() < 0.3,
            "late": rng.random() < 0.25}
    spec["data"]["shape"] = rng.choice(["counts", "sparse", "uniform"])
    spec["data"]["decays"] = 1.
    if rng.random() < 0.5:
        spec["signal"] = rand_spectrum(rng, "Te130_0n2b_signal")
        spec["signal"]["rate"] = rand_rate(rng, 1.)
    if rng.random() < 0.3:
        # say, the two halves of the detector, or two reconstructions
        for s in fl + [spec[k] for k in ("signal",) if k in spec]:
            if rng.random() < 0.8:
                s["background"] = "shared_bg"
    other_axes(spec, random.Random("axes %r" % spec["data"]))
    return spec


def other_axes(spec, rng):
    """Now and then another order of the axes, or one axis more."""
    axes, types = spec["axes"], spec["types"]
    if len(axes) == 2 and rng.random() < 0.15:
        b = rng.choice([1, 2])
        # a name that begins another
        dim = rng.choice(["radial", "time"])
        axes.append([dim, 0., b * 0.5, b])
        t = rng.choice(["mc", "reco", "truth"])
        for k in types:
            types[k].append(t)
        for f in spec["floating"]:
            f["fine"].append(rng.choice([1, 2]))
        if len(spec["roi"]) == 2:
            spec["roi"][dim] = [0., b * 0.5]
    if len(axes) > 1 and rng.random() < 0.4:
        order = list(range(len(axes)))
        rng.shuffle(order)
        spec["axes"] = [axes[k] for k in order]
        for k in types:
            types[k] = [types[k][j] for j in order]
        for f in spec["floating"]:
            f["fine"] = [f["fine"][j] for j in order]
