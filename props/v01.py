"""V01: what is refused changes nothing, and it is always refused."""
import math
import random
from collections import OrderedDict

import numpy

from . import common, storelib
from .common import diff, plain
from .fitlib import (FitSim, build, make_stat, rand_rate as rand_fit_rate,
                     rand_spec as rand_fit_spec,
                     rand_spectrum as rand_fit_spectrum, ref_bins)
from .histlib import obs as obs_hist
from sim.runner import PlanInvalid

ID = "V01"
LEVEL = "exploration"
RULE = ("A run keeps one to three long-lived objects (spectra, axes, fit "
        "parameters, configs, convolution tools, result grids, statistics, "
        "fitters, limits, isotopes) and mixes valid calls, some of them "
        "interrupted, with calls that have to be refused. Each object has a "
        "twin in another process that gets the valid calls only. It counts "
        "as nontrivial if a valid call was compared after a refused one.")
REAL = ["echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "echidna.core.scale", "echidna.core.shift",
        "echidna.core.smear", "echidna.fit.fit", "echidna.fit.minimise",
        "echidna.fit.test_statistic", "echidna.limit.limit",
        "echidna.calc.decay", "echidna.output.store", "numpy"]
STUB = ["os", "time", "logging output", "h5py"]
ASSUMPTIONS = [
    "An object refuses by raising the documented class of error or a class "
    "derived from it.",
    "Spectra given to a fitter may be left cut to the region of interest "
    "by a refused call."]
SIZES = {"quick": (4000, 2), "thorough": (90000, 4)}
LINES = True


class Target(object):
    """One object under test; made alike in two processes."""
    seams = False

    def __init__(self, run, p, spec):
        self.run, self.p, self.spec = run, p, spec
        self.make()

    def imp(self, name):
        return self.p.imp("echidna." + name)


# -- spectra --------------------------------------------------------------

def hist_spec(rng):
    spec = {"name": rng.choice(["Te130_mc", "B8_Solar_mc", "plain"]),
            "decays": rng.choice([1., 100., 7]),
            "config": {"name": "config", "pars": common.rand_axes(rng)},
            "data": rng.randrange(10 ** 6), "raw": rng.choice([0, 5])}
    return spec


class Hist(Target):
    def make(self):
        self.x = common.make_spectrum(self.p, self.spec)
        fc = {"name": "fc", "pars": [{"cls": "Rate", "name": "rate", "args": {
            "prior": 1., "sigma": None, "low": 0., "high": 2., "bins": 3}}]}
        self.fc = common.make_fit_config(self.p, fc, self.x.get_name())

    def look(self):
        f = self.x.get_fit_config()
        return [obs_hist(self.x), None if f is None else
                common.obs_fit_config(f)]

    def axis(self, k):
        c = self.x.get_config()
        n = list(c.get_pars())[k % len(c.get_pars())]
        q = c.get_par(n)
        return n, q.get_low(), q.get_high(), q.get_bins()

    def inside(self, at):
        kw = {}
        for k, n in enumerate(self.x.get_config().get_pars()):
            n, lo, hi, b = self.axis(k)
            i = int(at[k % 3] * b)
            kw[n] = lo + (i + 0.5) * (hi - lo) / b
        return kw

    def cuts(self, st):
        n, lo, hi, b = self.axis(st["axis"])
        w = (hi - lo) / b
        i = int(st["lo"] * b)
        j = max(i + 1, int(math.ceil(st["hi"] * b)))
        kw = {n + "_low": lo + i * w, n + "_high": hi if j >= b
              else lo + j * w}
        if st.get("side"):
            del kw[n + ("_low" if st["side"] == "high" else "_high")]
        return n, kw

    def other(self, st):
        axes = [list(self.axis(k)) for k in
                range(len(self.x.get_config().get_pars()))]
        a = axes[st.get("axis", 0) % len(axes)]
        w = (a[2] - a[1]) / a[3]
        how = st.get("how")
        if how == "dimension":
            a[0] = "phi_mc"
        elif how == "bins":
            a[3] += 1
        elif how == "low":
            a[1] -= max(0.3 * w, 1e-3 * abs(a[1]))
        elif how == "high":
            a[2] += max(0.3 * w, 1e-3 * abs(a[2]))
        elif how == "rank":
            axes.append(["phi_mc", 0., 1., 1])
        return common.make_spectrum(self.p, {
            "name": "other_mc", "decays": 5., "raw": 3, "data": st["data"],
            "config": {"name": "c", "pars": axes}})

    def do(self, st):
        x, c = self.x, st["c"]
        if c == "fill":
            x.fill(weight=st["weight"], **self.inside(st["at"]))
        elif c in ("shrink", "cut"):
            if c == "cut" and not x.sum() > 0.:
                return
            getattr(x, c)(**self.cuts(st)[1])
        elif c == "roi":
            if not x.sum() > 0.:
                return
            n, kw = self.cuts(dict(st, side=None))
            x.shrink_to_roi(kw[n + "_low"], kw[n + "_high"], n)
        elif c == "scale":
            if x.get_num_decays() != 0.:
                x.scale(st["to"])
        elif c == "rebin":
            new = list(x.get_data().shape)
            k = st["axis"] % len(new)
            divs = [d for d in range(1, new[k] + 1) if new[k] % d == 0]
            new[k] = divs[st["data"] % len(divs)]
            x.rebin(tuple(new))
        elif c == "add":
            x.add(self.other(st))
        elif c == "config":
            x.set_fit_config(self.fc)
        # calls that have to be refused
        elif c == "badfill":
            kw = self.inside(st["at"])
            n, lo, hi, b = self.axis(st["axis"])
            w = (hi - lo) / b
            if st["how"] == "missing":
                del kw[n]
            elif st["how"] == "unknown":
                kw["phi_mc"] = 0.5
            elif st["how"] == "at-high":
                kw[n] = hi
            else:
                kw[n] = hi + st["by"] * w if st["how"] == "above" \
                    else lo - st["by"] * w
            x.fill(weight=st["weight"], **kw)
        elif c == "badcut":
            n, lo, hi, b = self.axis(st["axis"])
            w = (hi - lo) / b
            kw = {}
            if st["also"]:
                m = self.cuts(st)
                if m[0] != n:
                    kw = m[1]
            by = max(st["by"] * w, 1e-2 * max(abs(lo), abs(hi)))
            if st["how"] == "below":
                kw[n + "_low"] = lo - by
            elif st["how"] == "above":
                kw[n + "_high"] = hi + by
            elif st["how"] == "low-above":
                kw[n + "_low"] = hi + by
            elif st["how"] == "high-below":
                kw[n + "_high"] = lo - by
            elif st["how"] == "unknown":
                kw["phi_mc_low"] = 0.5
            else:
                kw[n + "_lo"] = lo
            getattr(x, st["by_what"])(**kw)
        elif c == "badrebin":
            new = list(x.get_data().shape)
            k = st["axis"] % len(new)
            if st["how"] == "rank":
                new = new + [1] if st["data"] % 2 else new[:-1]
            else:
                b = new[k]
                new = [max(1, n // 2) if n % 2 == 0 else n for n in new]
                new[k] = b + 1
            x.rebin(tuple(new))
        elif c == "badadd":
            x.add(self.other(st))
        elif c == "badconfig":
            x.set_fit_config([None, x.get_config(), {}, "fc"]
                             [st["data"] % 4])
        elif c == "badsurface":
            n = self.axis(st["axis"])[0]
            a = [n, "phi_mc"]
            return plain(x.surface(*(a[::-1] if st["data"] % 2 else a)))
        elif c == "badname":
            return x.get_background_name()
        else:
            raise PlanInvalid(c)

    @staticmethod
    def valid(rng, spec, state):
        f = lambda: rng.randrange(1000) / 1000.
        c = rng.choice(["fill", "fill", "shrink", "cut", "roi", "scale",
                        "rebin", "add", "config"])
        return {"c": c, "at": [f(), f(), f()], "axis": rng.randrange(3),
                "weight": rng.choice([1., 0.5, 2]), "lo": f() * 0.4,
                "hi": 0.6 + 0.4 * f(), "to": rng.choice([1., 33.3]),
                "data": rng.randrange(10 ** 4),
                "side": rng.choice([None, "low", "high"])}

    @staticmethod
    def bad(rng, spec, state):
        f = lambda: rng.randrange(1000) / 1000.
        st = {"at": [f(), f(), f()], "axis": rng.randrange(3),
              "weight": rng.choice([1., 0.5]), "lo": f() * 0.4,
              "hi": 0.6 + 0.4 * f(), "data": rng.randrange(10 ** 4),
              "by": rng.choice([0.1, 0.5, 3.]), "raises": "ValueError"}
        c = rng.choice(["fill", "fill", "cut", "cut", "rebin", "add", "add",
                        "config", "surface"]
                       + ["name"] * (spec["name"] == "plain"))
        st["c"] = "bad" + c
        if c == "fill":
            st["how"] = rng.choice(["missing", "unknown", "at-high", "above",
                                    "below"])
            if st["how"] in ("missing", "unknown"):
                st["raises"] = "Exception"
        elif c == "cut":
            st.update(how=rng.choice(["below", "above", "unknown", "suffix",
                                      "low-above", "high-below"]),
                      by_what=rng.choice(["shrink", "cut"]),
                      also=rng.random() < 0.6)
            if st["how"] in ("unknown", "suffix"):
                st["raises"] = "IndexError"
        elif c == "rebin":
            st["how"] = rng.choice(["rank", "ratio"])
        elif c == "add":
            st["how"] = rng.choice(["dimension", "bins", "low", "high",
                                    "rank"])
            if st["how"] == "dimension":
                st["raises"] = "IndexError"
        elif c == "config":
            st["raises"] = "TypeError"
        elif c == "surface":
            st["raises"] = "IndexError"
        return st


# -- axes and fit parameters ----------------------------------------------

class Axis(Target):
    def make(self):
        self.x = self.imp("core.parameter").SpectraParameter(*self.spec["a"])

    def look(self):
        x = self.x
        return plain([x.get_name(), x.get_low(), x.get_high(), x.get_bins(),
                      x.get_width(), x.get_bin_boundaries(),
                      x.get_bin_centres()])

    def do(self, st):
        x, c, f = self.x, st["c"], st["f"]
        lo, hi, b = x.get_low(), x.get_high(), x.get_bins()
        if c == "set":
            x.set_par(**st["to"])
        elif c == "bin":
            return x.get_bin(lo + (int(f * b) + 0.5) * x.get_width())
        elif c == "at-low":
            return x.get_bin(lo)
        elif c == "centre":
            return x.get_bin_centre(int(f * b))
        elif c == "first":
            return [x.get_bin_centre(0), x.get_bin_centre(b - 1)]
        elif c == "below":
            return x.get_bin(lo - (hi - lo) * (f + 1e-3))
        elif c == "above":
            return x.get_bin(hi + (hi - lo) * (f + 1e-3))
        elif c == "negative":
            return x.get_bin_centre(-1 - int(f * b))
        elif c == "beyond":
            return x.get_bin_centre(b + int(f * 2))
        elif c == "float":
            return x.get_bin_centre(float(int(f * b)))
        elif c == "badset":
            x.set_par(**OrderedDict(st["to"]))
        else:
            raise PlanInvalid(c)

    @staticmethod
    def valid(rng, spec, state):
        st = {"c": rng.choice(["set", "set", "bin", "at-low", "centre",
                               "first"]), "f": rng.randrange(100) / 100.}
        if st["c"] == "set":
            st["to"] = rng.choice([{"low": -3.}, {"high": 77.}, {"bins": 5},
                                   {"bins": 12, "high": 30.}, {"bins": 1}])
        return st

    @staticmethod
    def bad(rng, spec, state):
        c, r = rng.choice([("below", "ValueError"), ("above", "ValueError"),
                           ("negative", "ValueError"),
                           ("beyond", "ValueError"), ("float", "TypeError"),
                           ("badset", "TypeError"), ("badset", "TypeError")])
        st = {"c": c, "f": rng.randrange(100) / 100., "raises": r}
        if c == "badset":
            st["to"] = mixed(rng, [("low", -9.), ("high", 99.), ("bins", 3)])
        return st

    @staticmethod
    def new(rng):
        lo = rng.choice([0., -2., 0.5])
        return {"a": [rng.choice(["energy_mc", "radial_reco"]), lo,
                      lo + rng.choice([1., 10., 25.]),
                      rng.choice([1, 4, 10])]}


def mixed(rng, ok):
    """Arguments of which one is unknown, in some order."""
    out = rng.sample(ok, rng.randint(0, len(ok)))
    out.insert(rng.randint(0, len(out)), rng.choice(
        [["nonsense", 1.], ["_low", 2.], ["name", "x"], ["width", 0.5],
         ["values", 3]]))
    return [list(x) for x in out]


class FitPar(Target):
    def make(self):
        self.x = common.make_par(self.p, self.spec["par"])
        dim = self.spec["par"]["args"].get("dimension", "energy_mc")
        self.s = common.make_spectrum(self.p, {
            "name": "Te130_mc", "decays": 10., "data": 5, "config": {
                "name": "c", "pars": [[dim, 0.5, 10.5, 10]]},
            "shape": "uniform"})

    def look(self):
        return [common.obs_par(self.x), common.par_state(self.x),
                plain(self.x.get_values()), obs_hist(self.s)]

    def do(self, st):
        x, c = self.x, st["c"]
        if c in ("set", "badset"):
            x.set_par(**OrderedDict(st["to"]))
        elif c == "current":
            x.set_current_value(st["v"])
        elif c == "best":
            x.set_best_fit(st["v"])
        elif c == "penalty":
            x.set_penalty_term(st["v"])
        elif c == "get":
            return plain([x.get_current_value() if "current" in st["known"]
                          else None, common.par_state(x)])
        elif c == "index":
            v = x.get_values()
            k = int(st["f"] * len(v))
            return [x.get_value_index(v[k]) if len(set(v)) == len(v)
                    else None, plain(x.get_value_at(k))]
        elif c == "apply":
            return obs_hist(x.apply_to(self.s))
        elif c == "unset-current":
            return x.get_current_value()
        elif c == "unset-best":
            return x.get_best_fit()
        elif c == "unset-penalty":
            return x.get_penalty_term()
        elif c == "unset-pre":
            return x.get_pre_convolved("/work/", "a.hdf5", True)
        elif c == "no-value":
            return x.get_value_index(float(max(x.get_values())) + 0.123)
        else:
            raise PlanInvalid(c)

    @staticmethod
    def valid(rng, spec, state):
        known = state.setdefault("known", [])
        c = rng.choice(["set", "set", "current", "best", "penalty", "get",
                        "index"] + ["apply"] * ("current" in known))
        st = {"c": c, "known": list(known), "f": rng.randrange(100) / 100.}
        kind = spec["par"]["cls"]
        if c in ("current", "best", "penalty"):
            if c not in known and rng.random() < 0.5:
                return {"c": "get", "known": list(known)}
            known.append(c) if c not in known else None
            st["v"] = {"Rate": [12., 3.5], "Scale": [1.05, 0.97],
                       "Shift": [0.3, -1.], "Resolution": [0.0731, 151.3],
                       }[kind][rng.randrange(2)]
        elif c == "set":
            st["to"] = [list(a) for a in rng.choice([
                [("bins", 4)], [("sigma", 0.3)], [("sigma", None)],
                [("prior", 1.25)], [("high", 5000.), ("bins", 3)]])]
        return st

    @staticmethod
    def bad(rng, spec, state):
        known = state.setdefault("known", [])
        pool = ["badset", "badset", "no-value"]
        for k in ("current", "best", "penalty"):
            if k not in known:
                pool.append("unset-" + k)
                if k == "current":
                    pool += ["apply"]
                    if spec["par"]["cls"] != "Rate":
                        pool += ["unset-pre"]
        c = rng.choice(pool)
        st = {"c": c, "raises": "ValueError"}
        if c == "badset":
            st["raises"] = "TypeError"
            st["to"] = mixed(rng, [("prior", 3.), ("sigma", 0.9),
                                   ("low", 0.01), ("high", 99.), ("bins", 7)])
        return st

    @staticmethod
    def new(rng):
        if rng.random() < 0.4:
            par = common.rand_rate(rng)
        else:
            par = common.rand_global_par(
                rng, "energy_mc", rng.choice(["scale", "shift", "resolution",
                                              "resolution_ly"]))
        par["state"] = None
        return {"par": par}


# -- configs --------------------------------------------------------------

class Config(Target):
    def make(self):
        k = self.spec["kind"]
        cfg = self.imp("core.config")
        self.cls = {"spectra": cfg.SpectraConfig,
                    "specfit": cfg.SpectraFitConfig,
                    "global": cfg.GlobalFitConfig}[k]
        if k == "spectra":
            self.x = common.make_config(self.p, self.spec["config"])
        elif k == "specfit":
            self.x = common.make_fit_config(self.p, self.spec["config"],
                                            "Te130")
        else:
            self.x = common.make_global(self.p, self.spec["config"])

    def look(self):
        return {"spectra": common.obs_config,
                "specfit": common.obs_fit_config,
                "global": common.obs_global}[self.spec["kind"]](self.x)

    def par(self, st):
        k = self.spec["kind"]
        if k == "spectra":
            return self.imp("core.parameter").SpectraParameter(
                st["name"] + "_mc", 0., 1., 2)
        return common.make_par(self.p, {
            "cls": "Rate", "name": st["name"] + "_rate", "args": {
                "prior": 1., "sigma": None, "low": 0., "high": 2.,
                "bins": 3}})

    def do(self, st):
        x, c, k = self.x, st["c"], self.spec["kind"]
        names = list(x.get_pars())
        if c == "add":
            if k == "global":
                x.add_par(self.par(st), "spectra")
            else:
                x.add_par(self.par(st))
        elif c == "index":
            n = names[st["i"] % len(names)] if names else None
            return None if n is None else [plain(n), x.get_index(n)]
        elif c == "shape":
            return plain(x.get_shape())
        elif c == "dump":
            return plain(x.dump(True)) if k != "spectra" else plain(x.dump())
        elif c == "join":
            if k == "global":
                x.add_config(common.make_fit_config(self.p, {
                    "name": "fc", "pars": [{"cls": "Rate", "name": "rate",
                                            "args": {
                                                "prior": 1., "sigma": None,
                                                "low": 0., "high": 2.,
                                                "bins": 3}}]}, st["name"]))
        elif c == "no-index":
            return x.get_index(st["what"])
        elif c == "bad-type":
            x.add_par(self.par(st), st["what"])
        elif c == "bad-join":
            x.add_config(common.make_config(self.p, {
                "name": "c", "pars": [["energy_mc", 0., 1., 2]]}))
        elif c == "no-dim":
            return x.get_dim_type(st["what"])
        elif c == "bad-load":
            self.cls.load(*(self.wrong(st) + (
                ["Te130"] if k == "specfit" else [])))
        else:
            raise PlanInvalid(c)

    @staticmethod
    def wrong(st):
        rate = {"prior": 1., "sigma": None, "low": 0., "high": 2., "bins": 3}
        scale = OrderedDict([("scale", dict(rate))])
        glob = OrderedDict([("global_fit_parameters", OrderedDict(
            [("energy_mc", scale)]))])
        spec = OrderedDict([("spectral_fit_parameters", OrderedDict(
            [("rate", dict(rate))]))])
        w = st["what"]
        if w == "spectra-key":
            return [{"pars": {"energy_mc": {"low": 0., "high": 1.,
                                            "bins": 2}}}]
        if w == "specfit-key":
            return [{"parameters": spec["spectral_fit_parameters"]}]
        if w == "specfit-name":
            spec["spectral_fit_parameters"]["nonsense"] = dict(rate)
            return [spec]
        if w == "global-key":
            return [spec]
        if w == "global-name":
            scale["nonsense"] = dict(rate)
            return [glob]
        if w == "global-second-key":
            return [glob, {"parameters": {}}]
        if w == "global-second-name":
            spec["spectral_fit_parameters"]["nonsense"] = dict(rate)
            return [glob, spec]
        raise PlanInvalid(w)

    @staticmethod
    def valid(rng, spec, state):
        return {"c": rng.choice(["add", "index", "shape", "dump", "join"]),
                "name": rng.choice(["U238", "phi", "Bi214"]),
                "i": rng.randrange(5)}

    @staticmethod
    def bad(rng, spec, state):
        k = spec["kind"]
        st = {"c": rng.choice({"spectra": ["no-index", "no-dim"],
                               "specfit": ["no-index"],
                               "global": ["no-index", "bad-type", "bad-type",
                                          "bad-join"]}[k] + ["bad-load"]),
              "raises": "IndexError", "name": rng.choice(["K40", "psi"])}
        if st["c"] == "no-index":
            st["what"] = rng.choice(["nonsense", "", "energy", "rat"])
        elif st["c"] == "no-dim":
            st["what"] = rng.choice(["nonsense", "energy_mc", "ener", ""])
        elif st["c"] == "bad-type":
            st["what"] = rng.choice(["spectral", "", "Global", None])
        elif st["c"] == "bad-join":
            st["raises"] = "ValueError"
        elif st["c"] == "bad-load":
            st["what"] = rng.choice({
                "spectra": ["spectra-key"],
                "specfit": ["specfit-key", "specfit-name"],
                "global": ["global-key", "global-name", "global-second-key",
                           "global-second-name"]}[k])
            if st["what"].endswith("key"):
                st["raises"] = "KeyError"
        return st

    @staticmethod
    def new(rng):
        k = rng.choice(["spectra", "specfit", "global", "global"])
        c = {"spectra": lambda: {"name": "c", "pars": common.rand_axes(rng)},
             "specfit": lambda: {"name": "fc",
                                 "pars": [common.rand_rate(rng)]},
             "global": lambda: common.rand_global_config(rng, "g", 0, 3),
             }[k]()
        return {"kind": k, "config": c}


# -- convolution tools ----------------------------------------------------

class Tool(Target):
    seams = True

    def make(self):
        k = self.spec["kind"]
        if k == "scale":
            self.x = self.imp("core.scale").Scale()
        elif k == "shift":
            self.x = self.imp("core.shift").Shift()
        else:
            m = self.imp("core.smear")
            self.x = {"ly": m.EnergySmearLY, "res": m.EnergySmearRes,
                      "radial": m.RadialSmear}[k]()
        self.set({"scale": 1.07, "shift": 0.3, "ly": 180., "res": 0.06,
                  "radial": 90.}[k])
        dim = "radial_mc" if k == "radial" else "energy_mc"
        top = 1000. if k == "radial" else 5.
        self.dim = dim
        axes = [[dim, top / 10., top / 10. + top, 10], ["time_mc", 0., 2., 2]]
        if self.spec["turn"]:
            axes = axes[::-1]
        self.s = common.make_spectrum(self.p, {
            "name": "Te130_mc", "decays": 10., "data": self.spec["data"],
            "config": {"name": "c", "pars": axes}, "shape": "uniform"})

    def look(self):
        x, k = self.x, self.spec["kind"]
        out = [obs_hist(self.s)]
        if k == "scale":
            return out + [plain(x.get_scale_factor())]
        if k == "shift":
            return out + [plain(x.get_shift())]
        return out + [plain(x.get_resolution()), plain(x.get_num_sigma()),
                      plain(x.get_bounds(2., 0.5))]

    def set(self, v):
        k = self.spec["kind"]
        if k == "scale":
            self.x.set_scale_factor(v)
        elif k == "shift":
            self.x.set_shift(v)
        else:
            self.x.set_resolution(v)

    def apply(self, dim, method="weighted_smear"):
        k = self.spec["kind"]
        if k == "scale":
            return self.x.scale(self.s, dim)
        if k == "shift":
            return self.x.shift(self.s, dim)
        return getattr(self.x, method)(self.s, dim)

    def do(self, st):
        x, c, k = self.x, st["c"], self.spec["kind"]
        if c in ("set", "badset"):
            self.set(st["v"])
        elif c in ("sigmas", "badsigmas"):
            x.set_num_sigma(st["v"])
        elif c == "apply":
            return obs_hist(self.apply(self.dim))
        elif c == "diff":
            cur = x.get_resolution()
            if k == "ly":
                return plain([x.calc_smear_ly(cur * 0.7),
                              x.calc_smear_ly(100., 250.)])
            return plain([x.calc_smear_resoluton(cur * 1.7),
                          x.calc_smear_resoluton(0.5, 0.3),
                          x.calc_smear_resoluton(0.5, 0.5)])
        elif c == "no-par":
            return obs_hist(self.apply(st["what"], st["method"]))
        elif c == "baddiff":
            cur = x.get_resolution()
            v, w = (1.3, 300.) if k == "ly" else (0.6, 0.3)
            n = [cur * v] if st["own"] else [w, 250. if k == "ly" else 0.4]
            if k == "ly":
                return x.calc_smear_ly(*n)
            return x.calc_smear_resoluton(*n)
        elif c == "steps":
            self.x.shift_by_bin(self.s, self.dim)
        else:
            raise PlanInvalid(c)

    @staticmethod
    def valid(rng, spec, state):
        k = spec["kind"]
        c = rng.choice(["set", "set", "apply", "apply"] +
                       ["sigmas", "diff"] * (k not in ("scale", "shift")))
        st = {"c": c}
        if c == "set":
            st["v"] = rng.choice({"scale": [1.05, 0.93, 1.2, 1e-3, 2],
                                  "shift": [0.25, -0.3, 1., 0.],
                                  "ly": [203.7, 51.3, 4.2, 0.5],
                                  "res": [0.0527, 0.33, 0.999, 1e-3],
                                  "radial": [100.5, 33., 260.7, 3]}[k])
            state["v"] = st["v"]
        elif c == "sigmas":
            st["v"] = rng.choice([3., 5, 0.5, 2.25])
        return st

    @staticmethod
    def bad(rng, spec, state):
        k = spec["kind"]
        st = {"raises": "ValueError"}
        if k == "scale":
            st.update(c="badset", v=rng.choice([0., -1., -1e-9, 0, -3]))
        elif k == "shift":
            if round(state.get("v", 0.3) / 0.5, 9) % 1. in (0., 1.):
                return None
            st.update(c="steps")
        else:
            st["c"] = c = rng.choice(["badset", "badset", "badsigmas",
                                      "no-par", "baddiff"])
            if c == "badset":
                st["v"] = rng.choice({
                    "ly": [0., -1., 0, -200.7],
                    "res": [0., 1., -0.05, 1.5, 1, 0, 200.],
                    "radial": [0., -1., -100, 0]}[k])
            elif c == "badsigmas":
                st["v"] = rng.choice([0., -1., 0, -5])
            elif c == "no-par":
                st.update(raises="IndexError", what=rng.choice(
                    ["nonsense", "energy", "energy_reco", "radial_reco",
                     ""]),
                    method=rng.choice(["weighted_smear", "random_smear"]))
            else:
                st["own"] = rng.random() < 0.5
        return st

    @staticmethod
    def new(rng):
        return {"kind": rng.choice(["scale", "shift", "ly", "res", "radial"]),
                "data": rng.randrange(10 ** 4), "turn": rng.random() < 0.5}


# -- grids and statistics -------------------------------------------------

class Grid(Target):
    def make(self):
        mod = self.imp("fit.minimise")
        pars = []
        for k, b in enumerate(self.spec["bins"]):
            pars.append({"cls": "Rate", "name": "B%d_rate" % k,
                         "global": False, "args": {
                             "prior": 1., "sigma": None, "low": 0.,
                             "high": 2., "bins": b}})
        self.fc = common.make_global(self.p, {"name": "fit", "pars": pars})
        self.sc = common.make_config(self.p, {"name": "c", "pars": [
            ["energy_mc", 0., 1., self.spec["fine"]]]})
        self.x = mod.GridSearch(self.fc, self.sc, per_bin=self.spec["per"])

    def look(self):
        return common.obs_grid(self.x)

    def values(self, shape, seed):
        return numpy.random.RandomState(seed).uniform(0., 9., shape)

    def at(self, st):
        return tuple(int(f * b) for f, b in zip(st["at"], self.spec["bins"]))

    def do(self, st):
        x, c, sp = self.x, st["c"], self.spec
        bins = tuple(sp["bins"])
        full = bins + ((sp["fine"],) if sp["per"] else ())
        one = full[len(bins):]
        at = self.at(st)
        if st.get("raises") == "IndexError" and "what" in st:
            k = st["axis"] % len(bins)
            at = at[:k] + (bins[k] + st["what"],) + at[k + 1:]
        if c == "stat":
            x.set_stat(numpy.array(self.values(one, st["r"])), at)
        elif c == "stats":
            x.set_stats(self.values(full, st["r"]))
        elif c == "penalty":
            x.set_penalty_term(float(st["r"] % 17), at)
        elif c == "penalties":
            x.set_penalty_terms(self.values(bins, st["r"]))
        elif c == "get":
            return plain([x.get_stat(at), x.get_penalty_term(at),
                          x.get_raw_stat(at), x.get_stats()])
        elif c == "reset":
            x.reset_grids()
        elif c.startswith("minimise"):
            good = storelib.grid_fn(st["r"], sp["per"], one, len(bins))

            def fn(*v):
                out, pen = good(*v)
                if c == "minimise-type":
                    return [out.tolist(), float(out.sum()), None][
                        st["axis"]], pen
                if c == "minimise-shape":
                    return self.values(self.odd(one, st), st["r"]), pen
                return out, pen
            out = x.minimise(fn, storelib.Penalty())
            return [plain(numpy.array(v)) for v in out]
        elif c == "get-stat":
            return plain(x.get_stat(at))
        elif c == "get-penalty":
            return plain(x.get_penalty_term(at))
        elif c == "stat-type":
            x.set_stat([3.5, "x", None][st["r"] % 3], at)
        elif c == "stats-type":
            x.set_stats(self.values(full, st["r"]).tolist())
        elif c == "stats-shape":
            x.set_stats(self.values(self.odd(full, st), st["r"]))
        elif c == "penalties-type":
            x.set_penalty_terms(self.values(bins, st["r"]).tolist())
        elif c == "penalties-shape":
            x.set_penalty_terms(self.values(self.odd(bins, st), st["r"]))
        elif c == "project":
            return plain(x.nd_project_stats("nonsense"))
        else:
            raise PlanInvalid(c)

    def odd(self, shape, st):
        w = st["r"] % 9
        # shapes that numpy would broadcast
        if w == 6 and set(shape) != {1}:
            return (1,) * len(shape)
        if w == 7:
            return (1,) + shape
        if w == 8:
            return ()
        if w == 4 and len(shape) > 1 and shape != shape[::-1]:
            return shape[::-1]
        if w == 5 and len(shape) > 1:
            return (int(numpy.prod(shape)),)
        if w == 0:
            return shape[:-1] + (shape[-1] + 1,)
        if w == 1:
            return shape + (2,)
        if w == 2:
            return (shape[0] + 1,) + shape[1:]
        return (int(numpy.prod(shape)) + 1,)

    @staticmethod
    def valid(rng, spec, state):
        return {"c": rng.choice(["stat", "stat", "stats", "penalty",
                                 "penalties", "get", "reset", "minimise"]),
                "at": [rng.random() for _ in range(3)],
                "r": rng.randrange(1000)}

    @staticmethod
    def bad(rng, spec, state):
        st = {"at": [rng.random() for _ in range(3)],
              "r": rng.randrange(1000), "axis": rng.randrange(3)}
        st["c"] = rng.choice(["stat", "penalty", "get-stat", "get-penalty",
                              "stat-type", "stats-type", "stats-shape",
                              "penalties-type", "penalties-shape", "project"]
                             + ["minimise-type", "minimise-shape"] *
                             (2 * spec["per"]))
        if st["c"] in ("stat", "penalty", "get-stat", "get-penalty"):
            st["what"] = rng.choice([0, 0, 1, 5])
            st["raises"] = "IndexError"
        elif st["c"] == "project":
            st["raises"] = "IndexError"
        else:
            st["raises"] = "TypeError" if st["c"].endswith("type") \
                else "ValueError"
        return st

    @staticmethod
    def new(rng):
        return {"bins": [rng.choice([1, 2, 3, 4])
                         for _ in range(rng.choice([1, 2, 2, 3]))],
                "fine": rng.choice([1, 3, 5]), "per": rng.random() < 0.5}


class Stat(Target):
    def make(self):
        self.x = getattr(self.imp("fit.test_statistic"),
                         self.spec["kind"])(self.spec["per"])

    def look(self):
        return plain(self.x.get_name())

    def do(self, st):
        r = numpy.random.RandomState(st["r"])
        n = st["n"]
        o, e = r.uniform(0.5, 9., n), r.uniform(0.5, 9., n)
        if st["c"] == "compute":
            out = self.x.compute_statistic(o, e)
            ref = ref_bins(self.spec["kind"], o, e)
            if not self.spec["per"]:
                ref = ref.sum()
            d = diff(plain(ref), plain(out), 1e-9)
            self.run.check(d is None, "statistic", lambda: "%s of %s and %s: "
                           "%s" % (self.spec["kind"], o, e, d))
            return plain(out)
        if st["c"] == "length":
            e = r.uniform(0.5, 9., n + st["by"])
        else:
            o, e = [(o.reshape(1, -1), e), (o, e.reshape(-1, 1)),
                    (o.sum(), e), (o, e.sum()),
                    (o.reshape(1, -1), e.reshape(1, -1))][st["by"]]
        return plain(self.x.compute_statistic(o, e))

    @staticmethod
    def valid(rng, spec, state):
        return {"c": "compute", "r": rng.randrange(1000),
                "n": rng.choice([1, 3, 8])}

    @staticmethod
    def bad(rng, spec, state):
        st = {"r": rng.randrange(1000), "n": rng.choice([1, 3, 8])}
        if rng.random() < 0.5:
            return dict(st, c="length", by=rng.choice([1, 2]),
                        raises="ValueError")
        return dict(st, c="shape", by=rng.randrange(5), raises="TypeError")

    @staticmethod
    def new(rng):
        kind = rng.choice(["BakerCousinsChi", "BakerCousinsLL", "Neyman",
                           "Pearson", "BakerCousinsChiUp", "ExtendedLL"])
        per = rng.random() < 0.5
        # per bin, a known finding of F01
        return {"kind": kind, "per": per and kind != "BakerCousinsChiUp"}


# -- isotopes -------------------------------------------------------------

class Isotope(Target):
    def make(self):
        self.mod = self.imp("calc.decay")
        self.x = self.build({})

    def build(self, changes):
        a = dict(self.spec["args"], **changes)
        return self.mod.DBIsotope(**a)

    def look(self):
        return plain([self.x.get_n_atoms(), self.x.half_life_to_counts(1e25),
                      self.x.eff_mass_to_counts(0.1)])

    def do(self, st):
        x, a = self.x, st["a"]
        if st["c"] == "new":
            x = self.x = self.build(a)
            return self.look()
        if st["c"] == "badnew":
            self.build(a)
            return
        out = getattr(x, st["c"])(**a)
        return plain(out)

    @staticmethod
    def valid(rng, spec, state):
        c = rng.choice(["new", "get_n_atoms", "get_n_atoms",
                        "half_life_to_counts", "counts_to_half_life",
                        "counts_to_eff_mass", "eff_mass_to_counts",
                        "eff_mass_to_half_life", "half_life_to_eff_mass"])
        live = {"livetime": rng.choice([0.5, 1., 5.])} \
            if rng.random() < 0.5 else {}
        a = {"new": lambda: rng.choice([
                {"loading": 0.02}, {"outer_radius": 3000.},
                {"scint_density": 7e-7}, {"abundance": 1.},
                {"loading": 1.}, {"abundance": 0.}]),
             "get_n_atoms": lambda: rng.choice([
                 {}, {"loading": 0.1}, {"loading": 0.}, {"loading": 1.},
                 {"scint_mass": 7e5}, {"target_mass": 100.},
                 {"outer_radius": 1000.}, {"scint_density": 1e-6}]),
             "half_life_to_counts": lambda: dict(live, half_life=3e25),
             "counts_to_half_life": lambda: dict(live, counts=31.2),
             "counts_to_eff_mass": lambda: dict(live, counts=12.5),
             "eff_mass_to_counts": lambda: dict(live, eff_mass=0.07),
             "eff_mass_to_half_life": lambda: {"eff_mass": 0.2},
             "half_life_to_eff_mass": lambda: {"half_life": 2e26}}[c]()
        return {"c": c, "a": a}

    @staticmethod
    def bad(rng, spec, state):
        c = rng.choice(["badnew", "badnew", "get_n_atoms", "get_n_atoms",
                        "half_life_to_counts", "counts_to_half_life",
                        "counts_to_eff_mass", "eff_mass_to_counts",
                        "eff_mass_to_half_life", "activity_to_counts",
                        "counts_to_activity"])
        live = {"livetime": rng.choice([0., -1., -1e-6])}
        a = {"badnew": lambda: rng.choice([
                {"abundance": 1.01}, {"abundance": -0.1}, {"loading": 1.2},
                {"loading": -0.3}, {"outer_radius": -1.},
                {"outer_radius": 0.}]),
             "get_n_atoms": lambda: rng.choice([
                 {"loading": 1.01}, {"loading": -0.1}, {"outer_radius": 0.},
                 {"outer_radius": -10.},
                 {"outer_radius": -10., "target_mass": 5.}]),
             "half_life_to_counts": lambda: dict(live, half_life=3e25),
             "counts_to_half_life": lambda: dict(live, counts=31.2),
             "counts_to_eff_mass": lambda: dict(live, counts=12.5),
             "eff_mass_to_counts": lambda: rng.choice(
                 [dict(live, eff_mass=0.07), {"eff_mass": 0.},
                  {"eff_mass": -0.1}]),
             "eff_mass_to_half_life": lambda: {"eff_mass": rng.choice(
                 [0., -0.1])},
             "activity_to_counts": lambda: dict(live, activity=50.),
             "counts_to_activity": lambda: dict(live, counts=50.)}[c]()
        return {"c": c, "a": a, "raises": "ValueError"}

    @staticmethod
    def new(rng):
        return {"args": {"name": "Te130", "atm_weight_iso": 129.9062244,
                         "atm_weight_nat": 127.603, "abundance": 0.3408,
                         "phase_space": 3.69e-14, "matrix_element": 4.03}}


# -- strings of the store -------------------------------------------------

class Strings(Target):
    def make(self):
        self.mod = self.imp("output.store")

    def look(self):
        return None

    def do(self, st):
        if st["c"] == "to":
            d = OrderedDict(st["d"])
            return plain(self.mod.string_to_dict(self.mod.dict_to_string(d)))
        if st["c"] == "bad-to":
            d = OrderedDict(st["d"])
            d[st["k"]] = {"list": [1], "none": None, "dict": {"a": 1},
                          "bool": (1, 2)}[st["what"]]
            return plain(self.mod.dict_to_string(d))
        return plain(self.mod.string_to_dict(st["s"]))

    @staticmethod
    def valid(rng, spec, state):
        return {"c": "to", "d": [[k, rng.choice(["red", 0.25, 3, -7, "x y"])]
                                 for k in rng.sample("abcd", 2)]}

    @staticmethod
    def bad(rng, spec, state):
        return {"c": "bad-to", "raises": "TypeError", "k": rng.choice("ae"),
                "d": [[k, rng.choice(["red", 0.25, 3])]
                      for k in rng.sample("bcd", 2)],
                "what": rng.choice(["list", "none", "dict", "bool"])}

    @staticmethod
    def new(rng):
        return {}


Hist.new = staticmethod(hist_spec)
KINDS = {"hist": Hist, "axis": Axis, "fitpar": FitPar, "config": Config,
         "tool": Tool, "grid": Grid, "stat": Stat, "isotope": Isotope,
         "strings": Strings}
WEIGHTS = ["hist"] * 3 + ["axis", "fitpar", "fitpar", "config", "config",
                          "tool", "tool", "tool", "grid", "grid", "stat",
                          "isotope", "strings"]


# -- fitters: checked against the model of fits ---------------------------

FIT_BAD = ["roi-type", "roi-value", "roi-length", "config-type", "data",
           "fixed", "floating", "floating-second", "no-config", "spectrum",
           "pre-made", "make-fixed", "append-fixed", "empty-fit",
           "empty-minimiser", "no-pars", "per-bin", "left-over",
           "no-minimiser", "array-limit", "shrink", "construct"]


def fit_plan(rng, tier):
    spec = rand_fit_spec(rng, tier, globals_=0 if rng.random() < 0.6
                         else None)
    steps = []
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(0, 3)):
            steps.append({"op": "bad", "how": rng.choice(FIT_BAD),
                          "r": rng.randrange(10 ** 9)})
        steps.append({"op": rng.choice(["fit", "fit", "set_data"]),
                      "r": rng.randrange(10 ** 9)})
    steps.append({"op": "fit"})
    return {"fit": spec, "steps": steps, "faultable": [
        {"step": i, "kinds": ["interrupt", "nomem"]}
        for i, s in enumerate(steps[:-1]) if s["op"] == "fit"]}


def bad_fit(sim, st):
    """(name of the error, the call that has to be refused), or None"""
    run, p, spec, f = sim.run, sim.p, sim.spec, sim.fitter
    rng = random.Random("bad-%s" % st["r"])
    how = st["how"]
    mod = p.imp("echidna.fit.fit")
    dims = sorted(sim.model.roi)

    def other(name, kind, off=0.):
        s = dict(rand_fit_spectrum(rng, name), fine=[1] * len(spec["axes"]))
        s.pop("rate", None)
        if kind == "floating":
            s["rate"] = rand_fit_rate(rng, s["decays"])
        # covers other values than the region of interest
        axes = [[d, lo + off * (hi - lo), hi + off * (hi - lo), b]
                for d, lo, hi, b in spec["axes"]]
        return build(run, p, dict(spec, axes=axes), s, kind)
    if how == "roi-type":
        bad = rng.choice([None, [], (0., 1.), "energy", 3.])
        return "TypeError", lambda: f.set_roi(bad)
    if how in ("roi-value", "roi-length"):
        roi = OrderedDict((d, tuple(sim.model.roi[d])) for d in dims)
        # first a narrower range of one dimension, then nonsense
        roi.update([("zzz", rng.choice(
            [3., None, "ab"] if how == "roi-value" else
            [(1.,), [], [1., 2., 3.], (0., 1., 2., 3.)]))])
        if rng.random() < 0.5:
            roi = OrderedDict(list(roi.items())[::-1])
        return ("TypeError" if how == "roi-value" else "CompatibilityError",
                lambda: f.set_roi(roi))
    if how == "config-type":
        bad = rng.choice([None, {}, "fc", f.get_data().get_config()])
        return "TypeError", lambda: f.set_fit_config(bad)
    if how in ("data", "fixed", "floating", "spectrum"):
        if not dims:
            return None
        x = other("strange", how if how != "spectrum" else "data", 0.5)
        if how == "floating":
            return "ValueError", lambda: f.set_floating_backgrounds(
                [x], shrink=False)
        return "ValueError", {
            "data": lambda: f.set_data(x, shrink=False),
            "fixed": lambda: f.set_fixed_background(x, shrink=False),
            "spectrum": lambda: f.check_spectra(x)}[how]
    if how in ("shrink", "construct"):
        if not dims:
            return None
        role = rng.choice(["data", "fixed", "floating", "signal"])
        x = other("strange", role if role != "signal" else "floating", 0.5)
        if how == "construct":
            kw = {"data": lambda k: other("d", "data"),
                  "fixed": lambda k: OrderedDict([(other("b", "fixed"), 2.)]),
                  "floating": lambda k: [other("f", "floating")]}
            kw = {k: fn(k) for k, fn in kw.items() if rng.random() < 0.6}
            kw[role] = {"fixed": OrderedDict([(x, 2.)]),
                        "floating": [x]}.get(role, x)
            for k in ("fixed", "floating"):
                if k in kw:
                    kw[k + "_backgrounds"] = kw.pop(k)
            return "ValueError", lambda: mod.Fit(
                sim.roi(), sim.stat, per_bin=spec["per_bin"],
                single_bin=spec["single_bin"], **kw)
        fn = {"data": f.set_data, "fixed": f.set_fixed_background,
              "floating": lambda x: f.set_floating_backgrounds([x]),
              "signal": f.set_signal}[role]
        if rng.random() < 0.3:
            fn = f.shrink_spectra
        return "ValueError", lambda: fn(x), x
    if how == "floating-second":
        if not dims:
            return None
        a, b = other("first", "floating"), other("second", "floating", 0.5)
        if rng.random() < 0.5:
            return "ValueError", lambda: f.set_floating_backgrounds([a, b])
        f.shrink_spectra(a)
        return "ValueError", lambda: f.set_floating_backgrounds(
            [a, b], shrink=False)
    if how == "no-config":
        x = other("bare", "data")
        return "CompatibilityError", lambda: f.check_fit_config(x)
    if how == "pre-made":
        d = rng.choice(["/work/nowhere", "nowhere", "/work/nowhere/"])
        return "ValueError", lambda: f.set_pre_made_dir(d)
    if how == "make-fixed":
        if not dims:
            return None
        a, b = other("first", "fixed"), other("second", "fixed", 0.5)
        return "ValueError", lambda: f.make_fixed_background(
            OrderedDict([(a, 3.), (b, 4.)]))
    if how == "append-fixed":
        if not dims or not sim.model.fixed:
            return None
        a, b = other("first", "fixed"), other("second", "fixed", 0.5)
        d = OrderedDict([(b, 4.)]) if rng.random() < 0.4 else \
            OrderedDict([(a, 3.), (b, 4.)])
        return "ValueError", lambda: f.append_fixed_background(d)
    if how in ("per-bin", "left-over", "no-minimiser", "array-limit"):
        bg = other("b", "floating")
        kw = {"data": other("d", "data")}
        if how == "left-over":
            # a rate of nothing
            fc = p.imp("echidna.core.config").GlobalFitConfig(
                "fit", OrderedDict())
            fc.add_config(bg.get_fit_config())
            kw.update(fit_config=fc, fixed_backgrounds=OrderedDict(
                [(other("b", "fixed"), 2.)]))
        else:
            kw["floating_backgrounds"] = [bg]
        per_bin = how == "per-bin" or spec["per_bin"]
        g = mod.Fit(sim.roi(), make_stat(
            run, p, spec["stat"], per_bin and how != "per-bin"),
            per_bin=per_bin, **kw)
        if how == "no-minimiser":
            g._minimiser = None
            return "AttributeError", g.fit
        if how != "array-limit":
            return "ValueError", g.fit
        sig = other("signal", "floating")
        lim = p.imp("echidna.limit.limit").Limit(sig, g)
        n = sig.get_fit_config().get_par("rate").get_bins()
        n += rng.choice([-1, 1, 2])
        return "CompatibilityError", lambda: lim.get_array_limit(
            [5.] * max(n, 0))
    if how in ("empty-fit", "empty-minimiser", "no-pars"):
        # a fitter that is not ready; the other one is not concerned
        kw = {}
        n = rng.randrange(3)
        if n and how != "no-pars":
            kw = {"data": other("d", "data")} if n == 1 else \
                {"fixed_backgrounds": OrderedDict([(other("b", "fixed"),
                                                    2.)])}
        if how == "no-pars":
            bg = other("b", "floating")
            bg._fit_config = None
            kw = {"data": other("d", "data"), "floating_backgrounds": [bg]}
        g = mod.Fit(sim.roi(), sim.stat, per_bin=spec["per_bin"],
                    single_bin=spec["single_bin"], **kw)
        if how == "no-pars":
            return "IndexError", g.fit
        return "CompatibilityError", (g.fit if how == "empty-fit"
                                      else g.set_minimiser)
    raise PlanInvalid(how)


def run_fit(run):
    spec = run.plan["fit"]
    sim = FitSim(run, spec)
    run.must(-1, "setup", sim.setup)
    errors = sim.p.imp("echidna.errors.custom_errors")
    refused = 0
    for i, st in enumerate(run.plan["steps"]):
        if st["op"] == "fit":
            if sim.fit(i) and refused:
                run.nontrivial = True
            continue
        if st["op"] == "set_data":
            rng = random.Random("data-%s" % st["r"])
            s = dict(rand_fit_spectrum(rng, "data%d" % i),
                     fine=spec["data"].get("fine", [1] * len(spec["axes"])))
            s.pop("rate", None)
            run.must(i, "set_data", lambda: sim.set_data(s))
            continue
        made = run.must(i, "prepare", lambda: bad_fit(sim, st))
        if not made.ok or made.value is None:
            continue
        name, fn = made.value[:2]
        refuse(run, i, "fit-" + st["how"], name, fn, errors,
               lambda: [plain(sim.fitter.get_roi()),
                        common.obs_global(sim.fitter.get_fit_config())] +
               [common.obs_spectrum(x) for x in made.value[2:]])
        run.state("fit", st["how"], len(sim.model.pars))
        refused += 1


# -- running --------------------------------------------------------------

def refuse(run, i, what, name, fn, errors, look):
    import builtins
    cls = getattr(builtins, name, None) or getattr(errors, name)
    before = look()
    out = run.step(i, fn)
    run.check(not out.ok, "accepted-%s" % what,
              "%s was accepted (returned %r)" % (what, out.value))
    if not out.faults:
        run.check(isinstance(out.exc, cls), "error-%s" % what, lambda:
                  "%s: not refused with %s: %s" % (what, name,
                                                   out.describe()))
    d = diff(before, look())
    run.check(d is None, "changed-by-%s" % what, lambda: "the refused %s "
              "changed something: %s" % (what, d))
    run.probe("refused-%s" % what)


def generate(rng, tier):
    if rng.random() < 0.2:
        return fit_plan(rng, tier)
    objs, states = [], []
    for k in rng.sample(WEIGHTS, rng.choice([1, 1, 2, 3])):
        objs.append([k, KINDS[k].new(rng)])
        states.append({})
    steps, fault = [], []
    for _ in range(rng.randint(4, 14)):
        t = rng.randrange(len(objs))
        k, spec = objs[t]
        fn = KINDS[k].bad if rng.random() < 0.5 else KINDS[k].valid
        st = fn(rng, spec, states[t])
        if st is None:
            continue
        st["t"] = t
        if "raises" not in st and KINDS[k].seams:
            fault.append({"step": len(steps), "kinds": ["interrupt",
                                                        "nomem"]})
        steps.append(st)
    for t, (k, spec) in enumerate(objs):
        steps.append(dict(KINDS[k].valid(rng, spec, states[t]), t=t))
    return {"objs": objs, "steps": steps, "faultable": fault}


def execute(run):
    if "fit" in run.plan:
        return run_fit(run)
    a, b = run.proc(), run.proc(host="twin")
    errors = a.imp("echidna.errors.custom_errors")
    pairs = []
    for k, spec in run.plan["objs"]:
        pairs.append([KINDS[k](run, a, spec), KINDS[k](run, b, spec)])
    refused = set()
    for i, st in enumerate(run.plan["steps"]):
        if st["t"] >= len(pairs):
            raise PlanInvalid("object")
        k = run.plan["objs"][st["t"]][0]
        x, y = pairs[st["t"]]
        what = "%s-%s" % (k, st["c"])
        if "raises" in st:
            refuse(run, i, what, st["raises"], lambda: x.do(st), errors,
                   lambda: [t[0].look() for t in pairs])
            refused.add(st["t"])
            run.state(what, st.get("how"), st.get("what"))
            continue
        out = run.must(i, what, lambda: x.do(st))
        if not out.ok:
            run.probe("interrupted")
            out = run.must(i + 1000, what, lambda: x.do(st))
        ref = y.do(st)
        d = diff(ref, out.value)
        run.check(d is None, "answer-%s" % what, lambda: "after refused "
                  "calls, %s gives another result than without them: %s"
                  % (what, d))
        d = diff(y.look(), x.look())
        run.check(d is None, "state-%s" % what, lambda: "after refused "
                  "calls, %s leaves the object different: %s" % (what, d))
        if st["t"] in refused:
            run.nontrivial = True
