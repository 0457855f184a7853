"""S05: Saved limit results load back complete."""
from ._results import plan
from .storelib import StoreSim, rand_limit

ID = "S05"
TITLE = "Saved limit results load back complete"
LEVEL = "exploration"
RULE = ("A run builds limit results (several parameters and scales, per-bin or "
        "not), changes them, saves them and loads them in the same or a later"
        " process while faults hit saves and loads, then asks original and "
        "loaded results the same questions. It counts as nontrivial if saved "
        "results were loaded and compared or a fault interrupted a step.")
REAL = ["echidna.output.store", "echidna.fit.fit_results",
        "echidna.fit.minimise", "echidna.core.config",
        "echidna.core.parameter", "json", "numpy"]
STUB = ["h5py (in-memory model with torn file states)", "os", "time"]
ASSUMPTIONS = [
    "The h5py stand-in stores and returns values as h5py 2.x does.",
    "Process death is simulated, not power loss."]
SIZES = {"quick": (1300, 2), "thorough": (20000, 4)}
LINES = True


def generate(rng, tier):
    return plan(rng, "limit", rand_limit, tier)


def execute(run):
    StoreSim(run, ID).execute(run.plan["steps"])
