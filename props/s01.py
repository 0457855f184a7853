"""S01: a saved spectrum loads back as the same spectrum."""
from . import common
from .storelib import StoreSim

ID = "S01"
TITLE = "A saved spectrum loads back as the same spectrum"
LEVEL = "exploration"
RULE = ("A run builds spectra, changes them, saves them and loads them back "
        "in the same or a later process, under read errors, interrupts, "
        "memory failures, crashes and clock jumps during loads; it counts as "
        "nontrivial if a saved spectrum was loaded and compared, or a fault "
        "hit the load.")
REAL = ["echidna.output.store", "echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "json", "numpy"]
STUB = ["h5py (in-memory model on the simulated disk)", "os", "time",
        "logging handlers write to the simulated terminal"]
ASSUMPTIONS = [
    "The h5py stand-in stores and returns values as h5py 2.x does; HDF5 "
    "itself and gzip are not exercised.",
    "Python 2 semantics are emulated on CPython 3.12 by source translation.",
    "An empty style is documented to load as the default style; it is not "
    "generated."]
SIZES = {"quick": (2500, 2), "thorough": (40000, 4)}
LINES = True


def generate(rng, tier):
    steps, fault = [], []
    n = rng.randint(1, 3)
    jump = 0
    for k in range(n):
        spec = common.rand_spectrum(rng, tier)
        axes = spec["config"]["pars"]
        path = "/work/s%d.hdf5" % (k if rng.random() < 0.8 else 0)
        group = rng.choice([None, None, "other", "a b"])
        steps.append({"op": "new", "id": k, "p": 0, "kind": "spectrum",
                      "spec": spec})
        ops = common.rand_ops(rng, rng.randint(0, 5), axes, spec["shape"])
        if ops:
            steps.append({"op": "ops", "id": k, "list": ops})
        steps.append({"op": "save", "id": k, "path": path, "group": group})
        if rng.random() < 0.4:
            steps.append({"op": "ops", "id": k, "list": common.rand_ops(
                rng, rng.randint(1, 3), axes, spec["shape"])})
        if rng.random() < 0.5:
            steps.append({"op": "jump", "dt": rng.choice(
                [-86400., 3600., 1e7])})
        gone = rng.random() < 0.35
        if gone:
            steps.append({"op": "restart", "p": 0,
                          "how": rng.choice(["exit", "kill"])})
        fault.append({"step": len(steps), "kinds": [
            "EIO", "EIO", "EACCES", "interrupt", "nomem", "kill",
            "clock_jump", "stall"], "ons": None})
        steps.append({"op": "load", "path": path, "group": group,
                      "kind": "spectrum", "p": 0 if rng.random() < 0.8 else 1,
                      "as": 10 + k, "twin": k,
                      "then": common.rand_ops(rng, rng.randint(1, 3), axes,
                                              spec["shape"])})
        # a second generation: change what was loaded, save and load again
        if rng.random() < 0.5:
            steps.append({"op": "ops", "id": 10 + k, "list": common.rand_ops(
                rng, rng.randint(1, 3), axes, spec["shape"])})
            steps.append({"op": "save", "id": 10 + k, "path": path,
                          "group": group})
            fault.append({"step": len(steps), "kinds": [
                "EIO", "EACCES", "interrupt", "nomem"], "ons": None})
            steps.append({"op": "load", "path": path, "group": group,
                          "kind": "spectrum", "p": 0, "as": 20 + k,
                          "twin": 10 + k, "then": common.rand_ops(
                              rng, 2, axes, spec["shape"])})
    for f in fault:
        f.pop("ons")
    return {"steps": steps, "faultable": fault}


def execute(run):
    StoreSim(run, ID).execute(run.plan["steps"])
