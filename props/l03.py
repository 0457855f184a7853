"""L03: limits saved without a file name never replace one another."""
import random

import numpy

from . import common
from .common import diff, obs_limit
from .fitlib import make_stat
from sim.world import Scheduler, SimKilled

ID = "L03"
LEVEL = "exploration"
RULE = ("A run has several processes, on one or more hosts that share a disk,"
        " set limits of the same name without giving a file name, interleaved"
        " at every system call by a seeded scheduler, while clocks stand "
        "still, jump and processes stall, fail or are killed. Afterwards "
        "every completed limit must be in a file of its own. It counts as "
        "nontrivial if two limits were set within the same second or a fault "
        "fired.")
REAL = ["echidna.limit.limit", "echidna.output.store", "echidna.fit.*",
        "echidna.core.*", "numpy", "json"]
STUB = ["h5py (in-memory model with torn file states)", "os (file creation "
        "with O_EXCL is atomic)", "time, datetime (one simulated clock per "
        "run)", "logging output"]
ASSUMPTIONS = [
    "The shared disk creates files atomically (local disk, or NFS 3 and "
    "later).",
    "All processes read the same clock."]
SIZES = {"quick": (900, 3), "thorough": (12000, 6)}
LINES = True


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    procs = []
    for k in range(n):
        procs.append({"host": "node%d" % rng.choice([0, 0, 1]),
                      "limits": rng.choice([1, 1, 2, 3] if n > 1
                                           else [2, 3, 4]),
                      "data": rng.randrange(10 ** 6),
                      "none": rng.random() < 0.3,
                      "name": rng.choice(["signal", "signal", "other"]),
                      "named": rng.random() < 0.15})
    fault = []
    for k in range(n):
        fault.append({"step": 0, "pid": 1000 + k, "kinds": [
            "clock_jump", "clock_jump", "stall", "kill", "EIO", "ENOSPC",
            "interrupt", "nomem"]})
        fault.append({"step": 0, "pid": 1000 + k, "kinds": [
            "clock_jump", "kill", "EIO", "EACCES", "short"],
            "ons": ["w", "clock.read"]})
    return {"procs": procs, "steps": [{"op": "run"}],
            "tick": rng.choice([0., 1e-6, 1e-3, 0.05]),
            "start_time": 1.45e9 + rng.choice([0., 0.5, 0.999]),
            "faultable": fault}


def build(run, p, spec):
    """A fitter with one fixed background and a limit on it."""
    def spectrum(name, seed, fit=None):
        return common.make_spectrum(p, {
            "name": name, "decays": 10., "background": name,
            "config": {"name": "config", "pars": [["energy_mc", 0., 4., 4]]},
            "data": seed, "shape": "uniform", "fit": fit})
    from collections import OrderedDict
    rate = {"cls": "Rate", "name": "rate", "args": {
        "prior": 5., "sigma": None, "low": 0., "high": 10., "bins": 3}}
    stat = make_stat(run, p, "BakerCousinsChi", False)
    f = p.imp("echidna.fit.fit").Fit(
        {"energy": (0., 4.)}, stat, data=spectrum("data", spec["data"]),
        fixed_backgrounds=OrderedDict(
            [(spectrum("bg", spec["data"] + 1), 20.)]))
    x = spectrum(spec["name"], spec["data"] + 2,
                 {"name": "fc", "pars": [rate]})
    return p.imp("echidna.limit.limit").Limit(x, f)


def execute(run):
    plan = run.plan
    run.w.tick = plan["tick"]
    procs, limits = [], []
    for spec in plan["procs"]:
        p = run.proc(host=spec["host"])
        procs.append(p)
        limits.append(run.must(-1, "setup", lambda: build(run, p,
                                                          spec)).value)
    done, stopped = [], []
    base = procs[0].imp("echidna.output").__default_save_path__ + "/"
    times = []

    def job(k):
        def go():
            spec, lim = plan["procs"][k], limits[k]
            none = procs[k].imp("echidna.errors.custom_errors").LimitError
            for j in range(spec["limits"]):
                try:
                    times.append(run.w.now)
                    lim.get_limit(
                        limit=1e30 if spec["none"] else 0.5,
                        limit_fname="/work/mine%d.hdf5" % k
                        if spec["named"] else None)
                except none:
                    pass
                obs = obs_limit(lim._limit_results)
                if not spec["named"]:
                    done.append((k, j, obs))
        return go

    def steps():
        res = Scheduler(run.w, random.Random("s-%s" % plan["seed"])).run(
            [job(k) for k in range(len(procs))])
        for k, (ok, value) in enumerate(res):
            if not ok:
                stopped.append((k, value))
        return res
    out = run.must(0, "limits", steps)
    faulted = set()
    for k, exc in stopped:
        if isinstance(exc, SimKilled) or out.faults or run.w.full:
            faulted.add(k)
            continue
        raise exc
    run.w.full = False
    # every completed limit is in a file of its own
    run.w.tick = 1e-6
    aud = run.proc(host="audit")
    store = aud.imp("echidna.output.store")
    left = {}
    for path, n in sorted(run.disk.files.items()):
        if not path.startswith(base) or not path.endswith(".hdf5"):
            continue
        got = run.step(-1, lambda: store.load_limit_results(path))
        left[path] = obs_limit(got.value) if got.ok else None
    total = len(left)
    for k, j, obs in done:
        hits = [q for q, o in left.items()
                if o is not None and diff(obs, o) is None]
        run.check(hits, "results-lost", "limit %d of process %d was saved, "
                  "but no file of its own holds its results (files: %s)"
                  % (j, k, sorted(left)))
        left.pop(hits[0])
    run.check(len(left) <= len(stopped), "extra-files",
              "%d completed limits made %d files" % (len(done), total))
    run.state("l03", len(procs), len(done), len(stopped), total,
              len(set(int(t) for t in times)))
    if len(times) > len(set(int(t) for t in times)) or run.w.fired:
        run.nontrivial = True
    run.probe("saved-%d" % len(done))
