"""F02: what a fit reports depends on its present inputs alone."""
import random

from .common import NAMES
from .fitlib import FitSim, rand_rate, rand_spec, rand_spectrum
from sim.runner import PlanInvalid

ID = "F02"
LEVEL = "exploration"
RULE = ("A run is a history of one or two fitters that share spectra: fits "
        "(some interrupted), changes of data, signal, signal scale, fixed "
        "and floating backgrounds, rates, region of interest and minimiser. "
        "Every completed fit is compared with a reference that knows only "
        "the present inputs. It counts as nontrivial if a fit was compared "
        "after at least one earlier fit and one change or interruption.")
REAL = ["echidna.fit.fit", "echidna.fit.minimise", "echidna.fit.fit_results",
        "echidna.fit.test_statistic", "echidna.core.*", "numpy", "yaml"]
STUB = ["os", "time", "logging output", "h5py"]
ASSUMPTIONS = [
    "Convolution with one global parameter is taken from echidna itself "
    "(made from scratch in a fresh process).",
    "A change of rates, floating backgrounds or region of interest is "
    "followed by set_minimiser, as the grid has the shape of the "
    "parameters."]
SIZES = {"quick": (700, 2), "thorough": (9000, 4)}
LINES = True

OPS = ["fit"] * 5 + ["set_data", "signal", "no_signal", "scale", "scale",
                     "fixed", "append", "floating", "set_par", "grid",
                     "second", "swap", "roi"]


def generate(rng, tier):
    spec = rand_spec(rng, tier)
    while not spec["floating"] and rng.random() < 0.7:
        spec = rand_spec(rng, tier)
    steps = []
    for _ in range(rng.randint(4, 9 if tier == "quick" else 14)):
        op = rng.choice(OPS)
        st = {"op": op, "r": rng.randrange(10 ** 9)}
        steps.append(st)
    steps.append({"op": "fit"})
    return {"spec": spec, "steps": steps,
            "faultable": [{"step": i, "kinds": ["interrupt", "nomem"]}
                          for i, s in enumerate(steps[:-1])
                          if s["op"] == "fit"]}


def execute(run):
    spec = run.plan["spec"]
    sim = FitSim(run, spec)
    run.must(-1, "setup", sim.setup)
    other = None
    changes = fits = 0
    fresh = ["new%d" % k for k in range(100)]
    for i, st in enumerate(run.plan["steps"]):
        op = st["op"]
        m = sim.model
        rng = random.Random("op-%s" % st.get("r"))
        todo = None
        if op == "fit":
            out = sim.fit(i)
            if not out.ok:
                changes += 1
            else:
                if fits and changes:
                    run.nontrivial = True
                fits += 1
        elif op == "set_data":
            s = dict(rand_spectrum(rng, "data%d" % i), decays=1.)
            todo = lambda: sim.set_data(s)
        elif op == "signal":
            name = rng.choice(["Te130_0n2b_signal", "Te130_0n2b_signal", "other_signal"])
            s = rand_spectrum(rng, name)
            s["rate"] = rand_rate(rng, 1.)
            todo = lambda: sim.set_signal(s)
        elif op == "no_signal":
            todo = lambda: sim.set_signal(None)
        elif op == "scale" and m.signal is not None:
            v = rng.choice([1., 0.25, 10., 77.7, 300.])
            todo = lambda: sim.scale_signal(v)
        elif op == "fixed":
            new = [[rand_spectrum(rng, "nf%d_%d" % (i, k)),
                    rng.choice([10., 3., 0.])]
                   for k in range(rng.choice([1, 1, 2]))]
            todo = lambda: sim.fixed(new)
        elif op == "append" and m.fixed:
            new = [[rand_spectrum(rng, "af%d" % i), rng.choice([10., 3.])]]
            todo = lambda: sim.fixed(new, append=True)
        elif op == "floating" and m.floating:
            keep = [k for k in range(len(m.floating)) if rng.random() < 0.5]
            new = []
            for k in range(len(m.floating)):
                if k in keep and rng.random() < 0.9:
                    continue
                old = m.floating[k]
                name = old["name"] if k not in keep else fresh.pop()
                s = rand_spectrum(rng, name, old.get("fine"))
                if old.get("rate"):
                    s["rate"] = rand_rate(rng, s["decays"], bins=rng.choice(
                        [1, 2, 3]))
                    s["rate"]["args"].pop("logscale_deviation", None)
                new.append(s)
            if grown(m, {s["name"] + "_rate": s["rate"]["args"]["bins"]
                         for s in new if s.get("rate")}) <= 150:
                todo = lambda: sim.floating(keep, new)
        elif op == "set_par" and m.floating and other is None:
            names = [n for n, s in sorted(m.pars.items())
                     if s["cls"] == "Rate" and not s["args"].get("logscale")
                     and not s["args"].get("logscale_deviation")]
            if names:
                n = rng.choice(names)
                c = {}
                for k in rng.sample(["high", "bins", "sigma", "prior"],
                                    rng.choice([1, 2])):
                    a = m.pars[n]["args"]
                    c[k] = {"high": a["high"] + rng.choice([10., 50.]),
                            "bins": rng.choice([1, 2, 3, 4]),
                            "sigma": rng.choice([None, 5., 0.5]),
                            "prior": (a["low"] + a["high"]) *
                            rng.choice([0.5, 0.4])}[k]
                if c.get("prior", 1e9) < m.pars[n]["args"]["low"]:
                    c.pop("prior")
                if c and grown(m, {n: c.get("bins", 1)}) <= 150:
                    todo = lambda: sim.set_par(n, c)
        elif op == "grid" and m.floating:
            v = rng.random() < 0.5
            todo = lambda: sim.use_grid(v)
        elif op == "second" and other is None:
            def todo():
                return sim.second()
        elif op == "swap" and other is not None:
            other = sim.swap(other)
            run.probe("swap")
            changes += 1
        elif op == "roi" and other is None:
            roi = narrower(rng, spec, m)
            if roi:
                todo = lambda: sim.set_roi(roi)
        if todo is not None:
            out = run.must(i, op, todo)
            if not out.ok:
                raise PlanInvalid(op)
            if op == "second":
                other = out.value
            changes += 1
            run.probe(op)
    if other is not None:
        sim.swap(other)
        sim.fit(1000)


def grown(m, bins):
    """Points of the grid if these parameters have these numbers of bins."""
    n = 1
    for name in set(m.pars) | set(bins):
        n *= bins[name] if name in bins else m.pars[name]["args"]["bins"]
    return n


def narrower(rng, spec, m):
    roi = {d: list(v) for d, v in m.roi.items()}
    for dim, lo, hi, b in spec["axes"]:
        if dim not in roi:
            continue
        w = (hi - lo) / b
        i = int(round((roi[dim][0] - lo) / w))
        j = int(round((roi[dim][1] - lo) / w))
        least = 5 if spec["globals"] and dim == "energy" else 1
        if j - i > least and rng.random() < 0.7:
            if rng.random() < 0.5:
                i += 1
            else:
                j -= 1
            roi[dim] = [lo + i * w, hi if j == b else lo + j * w]
    return roi if roi != m.roi else None
