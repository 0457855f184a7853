"""S03: adding to a file leaves everything else in it as it was."""
from . import common
from .storelib import StoreSim, rand_grid, rand_limit

ID = "S03"
TITLE = "Adding to a file leaves its other contents as they were"
LEVEL = "exploration"
RULE = ("A run appends several spectra and results to shared files, with and "
        "without overwrite, from several processes with restarts, some saves "
        "failing part way; after every save a fresh process loads every "
        "group of every file. It counts as nontrivial if a file held two or "
        "more groups when it was changed or a save was refused or failed.")
REAL = ["echidna.output.store", "echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "echidna.fit.minimise",
        "echidna.fit.fit_results", "json", "numpy"]
STUB = ["h5py (in-memory model with torn file states)", "os", "time"]
ASSUMPTIONS = [
    "After a crash, or an error when the file is opened or closed, the "
    "HDF5 library may leave the file unreadable; then only refusal to load "
    "is accepted, never other contents.",
    "A file another process holds open for writing cannot be opened."]
SIZES = {"quick": (900, 3), "thorough": (12000, 6)}


def generate(rng, tier):
    steps, fault = [], []
    nobj = rng.randint(2, 4)
    ids = []
    for k in range(nobj):
        kind = rng.choice(["spectrum", "spectrum", "spectrum", "fit",
                           "limit"])
        spec = {"spectrum": common.rand_spectrum, "fit": rand_grid,
                "limit": rand_limit}[kind](rng, tier)
        p = rng.choice([0, 0, 1])
        steps.append({"op": "new", "id": k, "p": p, "kind": kind,
                      "spec": spec})
        ids.append((k, kind, spec))
    paths = ["/work/a.hdf5", "/work/b.hdf5"][:rng.choice([1, 1, 2])]
    for _ in range(rng.randint(3, 7)):
        k, kind, spec = rng.choice(ids)
        if rng.random() < 0.15:
            steps.append({"op": "restart", "p": rng.choice([0, 1]),
                          "how": rng.choice(["exit", "kill"])})
            nk = 50 + len(steps)
            steps.append({"op": "new", "id": nk, "p": 0, "kind": kind,
                          "spec": spec})
            k = nk
        mode = rng.choice(["a", "a", "a", "o", "o", "w"] if len(steps) > nobj
                          else ["w", "a"])
        fault.append({"step": len(steps), "kinds": [
            "EIO", "EIO", "ENOSPC", "ENOSPC", "short", "interrupt", "nomem",
            "EACCES", "kill"]})
        steps.append({"op": "save", "id": k, "path": rng.choice(paths),
                      "append": mode != "w", "overwrite": mode == "o",
                      "group": rng.choice([None, None, "g1", "g1", "g2", "g11",
                                           "spectrum2", "Tl208_mc"])})
    for path in paths:
        for kind, g in (("spectrum", None), ("spectrum", "g1"),
                        ("fit", None)):
            steps.append({"op": "load", "path": path, "kind": kind,
                          "group": g, "p": 2})
    return {"steps": steps, "faultable": fault}


def execute(run):
    sim = StoreSim(run, ID)
    sim.execute(run.plan["steps"])
    if any(len(v) > 1 for v in sim.files.values()):
        run.nontrivial = True
