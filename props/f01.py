"""F01: a fit reports the true minimum over its whole grid."""
from .fitlib import FitSim, rand_spec

ID = "F01"
LEVEL = "exploration"
RULE = ("A run builds a fit (fixed and floating backgrounds, signal, global "
        "parameters, region of interest, statistic), fits, possibly with an "
        "interrupt or memory failure in the middle and a second fit "
        "afterwards, and compares every grid point, the minimum, best fits "
        "and penalties with a reference computed from the inputs. It counts "
        "as nontrivial if a fit with floating backgrounds was compared.")
REAL = ["echidna.fit.fit", "echidna.fit.minimise", "echidna.fit.fit_results",
        "echidna.fit.test_statistic", "echidna.core.*", "numpy", "yaml"]
STUB = ["os", "time", "logging output", "h5py"]
ASSUMPTIONS = [
    "Convolution with one global parameter is taken from echidna itself "
    "(made from scratch in a fresh process); its mathematics is not judged."]
SIZES = {"quick": (1500, 1), "thorough": (15000, 3)}
LINES = True


def own_values(rng, a):
    """Replace the scale by an array of values that the user chose, in any
    order, some of them outside the limits."""
    n = a["bins"]
    w = a["high"] - a["low"]
    v = [float("%.6g" % (a["low"] + w * rng.choice([
        rng.random(), rng.random(), 0., 0.5, 1., 1.2]))) for _ in range(n)]
    if len(set(v)) < n:
        return
    a.pop("logscale", None)
    a.pop("logscale_deviation", None)
    a["values"] = v


def generate(rng, tier):
    spec = rand_spec(rng, tier)
    pars = [s["rate"] for s in spec["floating"] if s.get("rate")] + \
        spec["globals"]
    for g in pars:
        if rng.random() < 0.15:
            own_values(rng, g["args"])
    steps = [{"op": "fit"}]
    if rng.random() < 0.4:
        steps.append({"op": "fit"})
    return {"spec": spec, "steps": steps,
            "faultable": [{"step": 0, "kinds": ["interrupt", "nomem"]}]}


def known_plan(key):
    """A fit per bin in which some bins have more events than expected."""
    bg = {"name": "bg", "decays": 100., "data": 1, "shape": "uniform",
          "fine": [1], "rate": {"cls": "Rate", "name": "bg", "args": {
              "prior": 100., "low": 50., "high": 150., "bins": 3,
              "sigma": None}}}
    return {"known": key, "steps": [{"op": "fit"}], "spec": {
        "axes": [["energy", 0., 5., 5]], "types": {"data": ["mc"]},
        "roi": {"energy": [0., 5.]}, "data": {
            "name": "data", "decays": 1., "data": 2, "shape": "counts"},
        "fixed": [], "floating": [bg], "stat": "BakerCousinsChiUp",
        "globals": [], "per_bin": True, "stat_per_bin": True,
        "single_bin": False}}


def execute(run):
    sim = FitSim(run, run.plan["spec"])
    run.must(-1, "setup", sim.setup)
    if run.plan.get("known"):
        out = run.step(0, sim.fitter.fit)
        run.check(not (out.raised and isinstance(out.exc, ValueError)),
                  run.plan["known"], lambda: "a fit per bin with upward "
                  "fluctuations is refused: %s" % out.describe())
        return
    for i, st in enumerate(run.plan["steps"]):
        out = sim.fit(i)
        if out.ok and sim.model.floating:
            run.nontrivial = True
        elif not out.ok:
            sim.fit(i + 100)
