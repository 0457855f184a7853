"""H01: a spectrum stays the histogram of its history."""
from .histlib import HistSim, rand_hist_op, rand_hist_spec

ID = "H01"
LEVEL = "exploration"
RULE = ("A run makes one or two spectra and performs a random history of "
        "fills, additions, scalings, shrinks, cuts, regions of interest, "
        "rebinnings, projections, interpolations, refused calls and restarts "
        "(save, kill, load in another process) on them, with interrupts and "
        "memory failures in the queries, comparing every spectrum with the "
        "reference after each operation. It counts as nontrivial if at least "
        "three operations were made.")
REAL = ["echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "echidna.output.store", "numpy", "scipy"]
STUB = ["h5py", "os", "time"]
ASSUMPTIONS = [
    "Bounds are given at a bin edge or at 10%-90% of a bin: within 1% of an "
    "edge the code takes the edge itself.",
    "Spectra have one axis per dimension."]
SIZES = {"quick": (10000, 2), "thorough": (200000, 4)}
LINES = True

CHANGES = ("fill", "scale", "shrink", "cut", "roi", "rebin", "add")


def generate(rng, tier):
    steps = [{"op": "new", "id": "a", "spec": rand_hist_spec(rng)}]
    ids = ["a"]
    if rng.random() < 0.5:
        spec = rand_hist_spec(rng)
        if rng.random() < 0.7:
            if rng.random() < 0.6:
                spec["config_of"] = "a"       # the same config object
            spec["config"]["pars"] = [list(x) for x in
                                      steps[0]["spec"]["config"]["pars"]]
        steps.append({"op": "new", "id": "b", "spec": spec})
        ids.append("b")
    fault = []
    for _ in range(rng.randint(4, 14)):
        k = rng.choice(ids)
        st = rand_hist_op(rng, k, [x for x in ids if x != k])
        if st["k"] in ("project", "interpolate"):
            fault.append({"step": len(steps), "kinds": [
                "interrupt", "nomem"]})
        elif st["k"] == "rebin" or (tier == "thorough" and
                                    st["k"] in CHANGES):
            fault.append({"step": len(steps), "kinds": ["nomem"],
                          "ons": ["alloc"]})
        steps.append(st)
    return {"steps": steps, "faultable": fault}


def execute(run):
    sim = HistSim(run)
    for i, st in enumerate(run.plan["steps"]):
        if st["op"] == "new":
            sim.new(i, st["id"], st["spec"])
            continue
        sim.op(i, st)
        sim.check_all("%s (step %d)" % (st["k"], i))
        if st["id"] in sim.pool:
            m = sim.pool[st["id"]][1]
            run.state(st["k"], m.data.shape)
    if sim.ops >= 3:
        run.nontrivial = True
