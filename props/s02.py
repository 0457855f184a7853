"""S02: a failed or interrupted save or load never yields wrong contents."""
from . import common
from .storelib import StoreSim, rand_grid, rand_limit

ID = "S02"
TITLE = "An interrupted save or load never yields wrong contents"
LEVEL = "exploration"
RULE = ("A run saves spectra, fit results and limit results, fresh or over "
        "existing files, and a fault (crash with torn file states, full "
        "disk, I/O or permission error, short write, interrupt, memory "
        "failure) hits a save or a load; a fresh process then loads "
        "everything. It counts as nontrivial if a save or load was "
        "interrupted by a fault.")
REAL = ["echidna.output.store", "echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "echidna.fit.minimise",
        "echidna.fit.fit_results", "json", "numpy"]
STUB = ["h5py (in-memory model with torn file states)", "os", "time"]
ASSUMPTIONS = [
    "A killed process leaves a file it had open for writing unopenable, as "
    "it was before, or holding a prefix of the operations issued.",
    "Process death is simulated, not power loss; HDF5's own consistency "
    "inside one operation is not.",
    "Interrupts arrive at the simulated operations only."]
SIZES = {"quick": (1400, 4), "thorough": (20000, 8)}
SAVE_FAULTS = ["kill", "kill", "kill", "EIO", "EACCES", "ENOSPC", "short",
               "interrupt", "nomem"]


def generate(rng, tier):
    steps, fault = [], []
    kinds = rng.choice([["spectrum"], ["spectrum"], ["spectrum", "fit"],
                        ["fit"], ["limit"], ["limit", "fit"],
                        ["spectrum", "limit"]])
    if rng.random() < 0.5:
        steps.append({"op": "other", "path": rng.choice(
            ["/work/a.hdf5.tmp", "/work/notes.txt", "/work/b.hdf5.bak"])})
    ids = []
    for k in range(rng.randint(1, 3)):
        kind = kinds[k % len(kinds)]
        spec = {"spectrum": common.rand_spectrum, "fit": rand_grid,
                "limit": rand_limit}[kind](rng, tier)
        if kind == "spectrum" and rng.random() < 0.15:
            spec["name"] = "NoBackgroundName"
            spec.pop("background", None)
        steps.append({"op": "new", "id": k, "p": 0, "kind": kind,
                      "spec": spec})
        ids.append((k, kind, spec))
    paths = ["/work/a.hdf5", "/work/b.hdf5"][:rng.choice([1, 1, 2])]
    saved = []
    for _ in range(rng.randint(1, 4)):
        k, kind, spec = rng.choice(ids)
        path = rng.choice(paths)
        mode = rng.choice(["w", "w", "a", "a", "o"])
        g = rng.choice([None, None, "second", "third"])
        if kind == "spectrum" and rng.random() < 0.5:
            steps.append({"op": "ops", "id": k, "list": common.rand_ops(
                rng, 1, spec["config"]["pars"], spec["shape"])})
        fault.append({"step": len(steps), "kinds": SAVE_FAULTS})
        steps.append({"op": "save", "id": k, "path": path,
                      "append": mode != "w", "overwrite": mode == "o",
                      "group": g, "retry": rng.random() < 0.5})
        saved.append((path, kind, g))
    for path, kind, g in saved[-2:]:
        fault.append({"step": len(steps), "kinds": [
            "EIO", "EACCES", "interrupt", "nomem"]})
        steps.append({"op": "load", "path": path, "kind": kind, "group": g,
                      "p": 1})
    return {"steps": steps, "faultable": fault}


def execute(run):
    StoreSim(run, ID).execute(run.plan["steps"])
