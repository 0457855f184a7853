"""Canonical observations of echidna objects and building blocks of plans.

Observations are plain data; two observations are compared exactly (floats
bit for bit unless a tolerance is given, NaN equal to NaN).
"""
import math
import random
from collections.abc import Mapping

import numpy


# -- plain data -----------------------------------------------------------

def plain(x):
    """Any value as plain comparable data."""
    if isinstance(x, (bool, numpy.bool_)):
        return bool(x)
    if isinstance(x, bytes):
        return x.decode("utf-8", "replace")
    if x is None or isinstance(x, str):
        return x if x is None else str(x)
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, (float, numpy.floating)):
        return float(x)
    if isinstance(x, numpy.ndarray):
        return ("array", tuple(int(n) for n in x.shape),
                [plain(v) for v in x.ravel().tolist()])
    if isinstance(x, Mapping):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return repr(type(x).__name__)


def diff(a, b, tol=0., path=""):
    """First difference between two plain values, or None."""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or (a != a and b != b):
            return None
        if tol and math.isfinite(a) and math.isfinite(b) and \
                abs(a - b) <= tol * max(1., abs(a), abs(b)):
            return None
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d != %d (%s / %s)" % (
                path, len(a), len(b), str(a)[:80], str(b)[:80])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: only on one side" % (path, k)
            d = diff(a[k], b[k], tol, "%s.%s" % (path, k))
            if d:
                return d
        return None
    if type(a) != type(b) or a != b:
        return "%s: %r != %r" % (path, a, b)
    return None


# -- observations ---------------------------------------------------------

def obs_config(c):
    return {"name": plain(c.get_name()),
            "pars": [[str(n), float(c.get_par(n).get_low()),
                      float(c.get_par(n).get_high()),
                      int(c.get_par(n).get_bins())] for n in c.get_pars()]}


def obs_par(p, skip=()):
    d = plain(p.to_dict())
    out = {k: v for k, v in d.items() if k not in skip}
    # absent, None and False flags mean the same to every reader
    for k in ("logscale", "logscale_deviation"):
        out[k] = bool(out.get(k))
    if not out["logscale"]:
        out.pop("base", None)
    else:
        out.pop("logscale_deviation")     # has no effect with logscale
    out["name"] = str(p.get_name())
    out["dimension"] = plain(p.get_dimension())
    out["type"] = type(p).__name__
    import copy
    q = copy.copy(p)
    out["values"] = plain(numpy.array(q.get_values()))
    return out


def obs_fit_config(c, skip=()):
    """SpectraFitConfig: parameters in order."""
    if c is None:
        return None
    return {"name": plain(c.get_name()),
            "spectra": plain(c._spectra_name),
            "pars": [[str(n), obs_par(c.get_par(n), skip)]
                     for n in c.get_pars()]}


def obs_global(c, skip=(), ordered=True):
    glob = set(str(p.get_name()) for p in c.get_global_pars())
    pars = [[str(n), str(n) in glob, obs_par(c.get_par(n), skip)]
            for n in c.get_pars()]
    if not ordered:
        pars = sorted(pars, key=lambda x: x[0])
    return {"name": plain(c.get_name()), "pars": pars}


def obs_spectrum(s, fit=True):
    try:
        bg = plain(s.get_background_name())
    except ValueError:
        bg = None
    out = {"name": plain(s.get_name()), "background": bg,
           "decays": float(s.get_num_decays()),
           "config": obs_config(s.get_config()),
           "data": plain(numpy.array(s.get_data())),
           "raw": plain(s._raw_events), "bipo": int(s.get_bipo()),
           "style": plain(s.get_style()), "rois": plain(s._rois)}
    if fit:
        out["fit"] = obs_fit_config(s.get_fit_config())
    return out


def par_state(p):
    def get(f):
        try:
            return plain(f())
        except ValueError:
            return None
    return [get(p.get_best_fit), get(p.get_penalty_term)]


def obs_grid(g, stored=False):
    """A fit result (GridSearch). `stored`: as kept inside limit results."""
    fc = g.get_fit_config()
    skip = ("current_value",) if stored else ()
    out = {"spectra": obs_config(g.get_spectra_config()),
           "fit": obs_global(fc, skip),
           "best": [par_state(fc.get_par(n)) for n in fc.get_pars()],
           "raw": plain(g._stats), "penalties": plain(g._penalty_terms),
           "total": plain(g.get_stats()), "resets": plain(g.get_resets()),
           "per_bin": bool(g._per_bin)}
    if not stored:
        out["name"] = plain(g.get_name())
    try:
        out["summary"] = plain(g.get_summary())
    except ValueError:
        out["summary"] = None
    return out


def obs_limit(r):
    fc = r.get_fit_config()
    pars = [str(n) for n in fc.get_pars()]
    return {"name": plain(r.get_name()),
            "spectra": obs_config(r.get_spectra_config()),
            "fit": obs_global(fc),
            "limit": obs_fit_config(r._limit_config),
            "scales": plain(r.get_scales()),
            "raw": plain(r.get_stats()), "total": plain(r.get_full_stats()),
            "best": {n: plain(r.get_best_fits(n)) for n in pars},
            "penalties": {n: plain(r.get_penalty_terms(n)) for n in pars},
            "fits": [None if f is None else obs_grid(f, stored=True)
                     for f in r._fit_results]}


# -- building objects inside a simulated process --------------------------

def make_config(p, spec):
    """spec: {"name":..., "pars": [[name, low, high, bins], ...]}"""
    cfg = p.imp("echidna.core.config")
    par = p.imp("echidna.core.parameter")
    from collections import OrderedDict
    pars = OrderedDict((n, par.SpectraParameter(n, lo, hi, b))
                       for n, lo, hi, b in spec["pars"])
    return cfg.SpectraConfig(spec["name"], pars)


def make_par(p, spec):
    """spec: {"cls", "name", "args": {...}, "state": [cur, best, pen]}"""
    par = p.imp("echidna.core.parameter")
    cls = getattr(par, spec["cls"] + "Parameter")
    args = dict(spec["args"])
    if args.get("values") is not None:
        args["values"] = numpy.array(args["values"])
    q = cls(spec["name"], **args)
    set_state(q, spec.get("state"))
    return q


def set_state(q, state):
    if not state:
        return
    cur, best, pen = state
    if cur is not None:
        q.set_current_value(cur)
    if best is not None:
        q.set_best_fit(numpy.float64(best))
    if pen is not None:
        q.set_penalty_term(numpy.float64(pen))


def make_fit_config(p, spec, spectra_name):
    from collections import OrderedDict
    cfg = p.imp("echidna.core.config")
    pars = OrderedDict((s["name"], make_par(p, s)) for s in spec["pars"])
    return cfg.SpectraFitConfig(spec["name"], pars, spectra_name)


def make_global(p, spec):
    """spec: {"name", "pars": [par spec with "global": bool]}"""
    from collections import OrderedDict
    cfg = p.imp("echidna.core.config")
    g = cfg.GlobalFitConfig(spec["name"], OrderedDict())
    for s in spec["pars"]:
        g.add_par(make_par(p, s), "global" if s["global"] else "spectra")
    return g


def make_data(shape, seed, style="counts"):
    r = numpy.random.RandomState(seed)
    n = int(numpy.prod(shape))
    if style == "counts":
        d = r.poisson(4., n).astype(float)
    elif style == "sparse":
        d = r.poisson(0.3, n).astype(float)
    elif style == "wide":
        d = numpy.exp(r.uniform(-40., 40., n)) * r.randint(0, 2, n)
    elif style == "exact":
        d = r.randint(1, 64, n) / 8.
    elif style == "odd":
        d = r.normal(0., 1., n)
        for k, v in ((0, numpy.nan), (1, numpy.inf), (2, -0.)):
            if n > k + 1:
                d[k] = v
    elif style == "peak":
        d = numpy.zeros(n)
        d[r.randint(0, n, 1 + n // 8)] = 300.
    elif style == "separable":
        d = numpy.ones(())
        for b in shape:
            d = numpy.multiply.outer(d, r.uniform(0.5, 3., b))
    else:
        d = r.uniform(0.1, 9., n)
    return d.reshape(shape)


def make_spectrum(p, spec, config=None):
    mod = p.imp("echidna.core.spectra")
    c = config or make_config(p, spec["config"])
    fit = None
    if spec.get("fit"):
        fit = make_fit_config(p, spec["fit"], spec["name"])
    s = mod.Spectra(spec["name"], spec["decays"], c, fit_config=fit,
                    background_name=spec.get("background"))
    s._data = make_data(s._data.shape, spec["data"],
                        spec.get("shape", "counts")) * spec.get("mag", 1.)
    s._raw_events = spec.get("raw", 0)
    s._bipo = spec.get("bipo", 0)
    if spec.get("style") is not None:
        s.set_style(spec["style"])
    return s


# -- random specs ---------------------------------------------------------

DIMS = ("energy", "radial", "radial3", "time", "cos_theta")
TYPES = ("mc", "reco", "truth")
NAMES = ("Te130_0n2b", "Te130", "B8_Solar", "Tl208", "Po 212%d",
         "External_Av")


def rand_axes(rng, tier="quick", most=3):
    n = rng.choice([1, 1, 2, 2, 3][:most + 2])
    dims = rng.sample(DIMS, n)
    out = []
    for d in dims:
        lo = rng.choice([0., 0., -2., 0.5, 1.25, 0.1])
        w = rng.choice([0.5, 0.25, 1., 2., 0.1, 100.])
        b = rng.choice([1, 2, 3, 4, 6, 8] if n > 1
                       else [1, 2, 4, 6, 8, 12, 16])
        out.append(["%s_%s" % (d, rng.choice(TYPES)), lo, lo + w * b, b])
    # rarely one axis more, from a stream of its own
    r = random.Random(repr(out))
    if n == 3 and r.random() < 0.15:
        d = r.choice([d for d in DIMS if d not in dims])
        b = r.choice([1, 2, 3])
        out.insert(r.randint(0, n), ["%s_%s" % (d, r.choice(TYPES)), 0.,
                                     0.5 * b, b])
    return out


def rand_rate(rng, name="rate"):
    kind = rng.choice(["lin", "lin", "log", "dev"])
    lo = rng.choice([0., 0.5, 1., 10.])
    hi = lo + rng.choice([1., 4., 90., 1e3])
    prior = rng.choice([lo, (lo + hi) / 2., lo + 1. / 3.])
    args = {"prior": prior, "sigma": rng.choice([None, 1., 0.25, 1. / 3.]),
            "low": lo, "high": hi, "bins": rng.choice([1, 2, 3, 5, 8])}
    if kind == "log":
        args["low"] = max(lo, 0.5)
        args["logscale"] = True
        if rng.random() < 0.5:
            args["base"] = rng.choice([10., 2.])
    elif kind == "dev":
        args["prior"] = (lo + hi) / 2.
        args["bins"] = rng.choice([3, 5, 7])
        args["logscale_deviation"] = True
    st = None
    if rng.random() < 0.4:
        st = [rng.choice([None, 1.5, 0.1]), rng.choice([None, 2.25, 0.3]),
              rng.choice([None, 0., 0.7])]
    return {"cls": "Rate", "name": name, "args": args, "state": st}


def rand_global_par(rng, dim, kind):
    cls, name = {"scale": ("Scale", "scale"), "shift": ("Shift", "shift"),
                 "resolution": ("Resolution", "resolution"),
                 "resolution_ly": ("Resolution", "resolution_ly")}[kind]
    lo, hi, prior = {"scale": (0.9, 1.1, 1.), "shift": (-0.5, 0.5, 0.1),
                     "resolution": (0.01, 0.09, 0.05),
                     "resolution_ly": (100., 300., 200.)}[kind]
    st = None
    if rng.random() < 0.4:
        st = [rng.choice([None, prior]), rng.choice([None, lo, hi]),
              rng.choice([None, 0., 1. / 3.])]
    return {"cls": cls, "name": "%s_%s" % (dim, name), "global": True,
            "args": {"prior": prior, "sigma": rng.choice([None, 0.1, 0.02]),
                     "low": lo, "high": hi, "bins": rng.choice([1, 2, 3, 4]),
                     "dimension": dim}, "state": st}


def rand_global_config(rng, name=None, min_pars=1, max_pars=3):
    n = rng.randint(min_pars, max_pars)
    pool = [("g", d, k) for d in ("energy_mc", "radial_reco", "energy_truth")
            for k in ("scale", "shift", "resolution", "resolution_ly")]
    pool += [("r", s, None) for s in NAMES[:4]] * 3
    rng.shuffle(pool)
    pars, seen = [], set()
    for t, a, k in pool:
        key = (a, k)
        if key in seen or len(pars) >= n:
            continue
        seen.add(key)
        if t == "g":
            pars.append(rand_global_par(rng, a, k))
        else:
            s = rand_rate(rng, a + "_rate")
            s["global"] = False
            pars.append(s)
    return {"name": name or rng.choice(["fit_config", "global", "two words"]),
            "pars": pars}


def rand_spectrum(rng, tier="quick", name=None):
    name = name or rng.choice(NAMES)
    suffix = rng.choice(["_mc", "_reco", "_mix", "", ""])
    spec = {"name": name + suffix,
            "decays": rng.choice([1., 100., 1e4, 0.1, 12345.678, 7]),
            "config": {"name": rng.choice(["config", "spectral", "a b"]),
                       "pars": rand_axes(rng, tier)},
            "data": rng.randrange(10 ** 6),
            "shape": rng.choice(["counts", "counts", "sparse", "wide",
                                 "uniform", "odd"]),
            "raw": rng.choice([0, 1, 1000, 123456]),
            "bipo": rng.choice([0, 0, 1])}
    if suffix == "" or rng.random() < 0.5:
        spec["background"] = rng.choice(["TeLoaded" + name, name])
    r = rng.random()
    if r < 0.5:
        spec["style"] = rng.choice([{"color": "red"}, "b-",
                                    {"color": "green", "linewidth": 2},
                                    {"alpha": 0.1}])
    if rng.random() < 0.55:
        spec["fit"] = {"name": rng.choice(["fc", "spectral_fit_config"]),
                       "pars": [rand_rate(rng)]}
        if rng.random() < 0.2:
            spec["fit"]["pars"].append(rand_rate(rng, "rate_two"))
    return spec


# -- operations on spectra ------------------------------------------------

def rand_ops(rng, n, axes, shape="counts"):
    out = []
    for _ in range(n):
        d = rng.randrange(len(axes))
        k = rng.choice(["scale", "shrink", "cut", "roi", "rebin", "add",
                        "fill", "style", "background", "bipo", "fitpar"])
        if shape == "odd" and k in ("cut", "roi"):
            k = "scale"
        op = {"k": k}
        if k == "scale":
            op["to"] = rng.choice([1., 50., 3.3, 1e5])
        elif k in ("shrink", "cut", "roi"):
            op.update(axis=d, lo=round(rng.random() * 0.5, 3),
                      hi=round(0.5 + rng.random() * 0.5, 3))
        elif k == "rebin":
            op.update(axis=d, pick=rng.randrange(6))
        elif k == "add":
            op.update(data=rng.randrange(10 ** 6), decays=rng.choice([5., 1]))
        elif k == "fill":
            op.update(at=[round(rng.random(), 3) for _ in axes],
                      weight=rng.choice([1., 0.25, 3]))
        elif k == "style":
            op["to"] = rng.choice([{"color": "black"}, "r--"])
        elif k == "background":
            op["to"] = rng.choice(["Bkg_A", "Bkg_B"])
        elif k == "bipo":
            op["to"] = rng.choice([0, 1])
        elif k == "fitpar":
            op["state"] = [rng.choice([None, 3.5]), rng.choice([None, 2.5]),
                           rng.choice([None, 1.5])]
            op["set"] = rng.choice([{}, {"low": 0.25}, {"sigma": None},
                                    {"sigma": 0.5}, {"bins": 4},
                                    {"logscale": True, "low": 1.},
                                    {"prior": 1.75, "high": 64}])
        out.append(op)
    return out


def apply_op(p, s, op):
    """Apply one operation; returns False if it does not apply."""
    cfg = s.get_config()
    names = list(cfg.get_pars())
    k = op["k"]
    if k == "scale":
        if s.get_num_decays() == 0.:        # cut down to nothing
            return False
        s.scale(op["to"])
    elif k in ("shrink", "cut", "roi"):
        if op["axis"] >= len(names):
            return False
        n = names[op["axis"]]
        q = cfg.get_par(n)
        b = q.get_bins()
        lo = min(int(op["lo"] * b), b - 1)
        hi = max(lo + 1, int(math.ceil(op["hi"] * b)))
        edges = [q.get_low() + i * q.get_width() for i in range(b + 1)]
        edges[-1] = q.get_high()
        if k != "shrink" and not (s.sum() > 0 and numpy.isfinite(s.sum())):
            return False
        if k == "roi":
            s.shrink_to_roi(edges[lo], edges[hi], n)
        else:
            getattr(s, k)(**{n + "_low": edges[lo], n + "_high": edges[hi]})
    elif k == "rebin":
        if op["axis"] >= len(names):
            return False
        shape = list(s.get_data().shape)
        b = shape[op["axis"]]
        divs = [x for x in range(1, b + 1) if b % x == 0]
        shape[op["axis"]] = divs[op["pick"] % len(divs)]
        s.rebin(tuple(shape))
    elif k == "add":
        spec = {"name": "other_mc", "decays": op["decays"],
                "config": {"name": "c", "pars": [
                    [n, cfg.get_par(n).get_low(), cfg.get_par(n).get_high(),
                     cfg.get_par(n).get_bins()] for n in names]},
                "data": op["data"], "raw": 3}
        s.add(make_spectrum(p, spec))
    elif k == "fill":
        if len(op["at"]) != len(names):
            return False
        kw = {}
        for n, f in zip(names, op["at"]):
            q = cfg.get_par(n)
            i = min(int(f * q.get_bins()), q.get_bins() - 1)
            kw[n] = q.get_low() + (i + 0.5) * q.get_width()
        s.fill(weight=op["weight"], **kw)
    elif k == "style":
        s.set_style(op["to"])
    elif k == "background":
        s.set_background_name(op["to"])
    elif k == "bipo":
        s._bipo = op["to"]
    elif k == "fitpar":
        fc = s.get_fit_config()
        if fc is None:
            return False
        q = fc.get_par(list(fc.get_pars())[0])
        if op["set"].get("logscale") and q.get_low() <= 0.:
            op = dict(op, set={"low": 1.})
        q.set_par(**op["set"])
        set_state(q, op["state"])
    return True
