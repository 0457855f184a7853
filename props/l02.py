"""L02: what limit setting writes to disk is what it found."""
import random

import numpy

from .common import diff, obs_limit, obs_spectrum, plain
from .fitlib import FitSim, rand_spectrum
from .l01 import small_spec
from .limitlib import LimitSim, rand_limit_signal

ID = "L02"
LEVEL = "exploration"
RULE = ("A run sets limits that save results, stored fits and spectra to "
        "named or default files, while errors, full disks, interrupts and "
        "crashes hit the fits and the saves, changes inputs in between, and "
        "has a fresh process load every file. Results are compared with "
        "those in memory, stored fits and spectra with a reference made from "
        "the inputs. It counts as nontrivial if a file of a completed limit "
        "was compared and another limit or a fault came before it.")
REAL = ["echidna.limit.limit", "echidna.output.store", "echidna.fit.*",
        "echidna.core.*", "numpy", "yaml", "json"]
STUB = ["h5py (in-memory model with torn file states)", "os", "time",
        "logging output"]
ASSUMPTIONS = [
    "Convolution with one global parameter is taken from echidna itself "
    "(made from scratch in a fresh process).",
    "Process death is simulated, not power loss."]
SIZES = {"quick": (160, 3), "thorough": (4000, 6)}
LINES = True


def generate(rng, tier):
    spec = small_spec(rng, tier)
    names = ["Te130_0n2b_signal", "other_signal"]
    signals = [rand_limit_signal(rng, names[k])
               for k in range(rng.choice([1, 1, 2]))]
    steps = []
    n = rng.randint(2, 4)
    for k in range(n):
        if rng.random() < 0.3:
            steps.append({"op": rng.choice(["set_data", "fixed", "fit"]),
                          "r": rng.randrange(10 ** 9)})
        steps.append({
            "op": "limit", "which": rng.randrange(len(signals)),
            "args": {"threshold": rng.choice([2.71, 0.1, 10., 300., 1e30]),
                     "store_fits": rng.random() < 0.5,
                     "store_spectra": rng.random() < 0.4,
                     "limit_fname": rng.choice([
                         None, None, "/work/l1.hdf5", "/work/l1",
                         "/work/l2.hdf5", "/work/dir.x/l3", "/work/l1.x",
                        "/work/l1.hdf5.x", "/work/l 1.HDF5"])}})
    kinds = ["interrupt", "nomem", "EIO", "ENOSPC", "short", "EACCES", "kill"]
    fault = []
    for i, s in enumerate(steps):
        if s["op"] == "limit":
            fault.append({"step": i, "kinds": kinds})
            fault.append({"step": i, "kinds": ["EIO", "ENOSPC", "short",
                                               "EACCES", "kill", "interrupt",
                                               "nomem"],
                          "ons": ["w"]})
    return {"spec": spec, "signals": signals, "steps": steps,
            "faultable": fault}


class Files(object):
    def __init__(self, run):
        self.run = run
        self.limits = {}         # path -> (observation, stored fits) or None
        self.spectra = {}        # path -> (group, contents, decays) or None

    def load(self, aud, path):
        store = aud.imp("echidna.output.store")
        return self.run.must(-1, "load_limit_results",
                             lambda: store.load_limit_results(path)).value

    def audit(self):
        """A fresh process loads all files of limits that completed."""
        run = self.run
        aud = run.proc(host="audit")
        store = aud.imp("echidna.output.store")
        for path, want in sorted(self.limits.items()):
            if want is None:
                continue
            d = diff(want[0], obs_limit(self.load(aud, path)))
            run.check(d is None, "file-differs", "%s does not hold the "
                      "results of the limit that was saved there: %s"
                      % (path, d))
        for path, want in sorted(self.spectra.items()):
            if want is None:
                continue
            for group, data, decays in want:
                x = run.must(-1, "load", lambda: store.load(
                    path, group_name=group)).value
                d = diff(plain(data), plain(numpy.array(x.get_data())), 1e-9)
                run.check(d is None, "spectra-differ", "the spectrum stored "
                          "in %s is not the one that was fitted: %s"
                          % (path, d))
                if decays is not None:
                    d = diff(decays, float(x.get_num_decays()), 1e-12)
                    run.check(d is None, "spectra-differ", "decays of the "
                              "spectrum stored in %s: %s" % (path, d))
        aud.exit()


def listing(run, base):
    return set(p for p, n in run.disk.files.items()
               if p.startswith(base) and p.endswith(".hdf5"))


def execute(run):
    run.disk.mkdirs("/work/dir.x")
    sim = FitSim(run, run.plan["spec"])
    run.must(-1, "setup", sim.setup)
    files = Files(run)
    limits, before = {}, 0
    for i, st in enumerate(run.plan["steps"]):
        op = st["op"]
        rng = random.Random("op-%s" % st.get("r"))
        if op == "limit":
            k = st["which"]
            if k not in limits:
                limits[k] = run.must(-1, "Limit", lambda: LimitSim(
                    sim, run.plan["signals"][k])).value
            one(run, sim, limits[k], i, st["args"], files, before)
            if sim.p.dead:
                return
        elif op == "fit":
            sim.fit(i)
        elif op == "set_data":
            s = dict(rand_spectrum(rng, "data%d" % i), decays=1.)
            run.must(i, op, lambda: sim.set_data(s))
        elif op == "fixed":
            s = [[rand_spectrum(rng, "nf%d" % i), rng.choice([10., 3., 0.])]]
            run.must(i, op, lambda: sim.fixed(s))
        before += 1


def one(run, sim, lim, i, args, files, before):
    p = sim.p
    base = p.imp("echidna.output").__default_save_path__ + "/"
    name = args["limit_fname"]
    full = None
    if name:
        full = name if name.endswith(".hdf5") else name + ".hdf5"
    seen = listing(run, base)
    roles = spectra_files(sim, lim, base) if args["store_spectra"] else {}
    out = lim.limit(i, **args)
    new = sorted(q for q in listing(run, base) - seen if q not in roles)
    if not out.ok:
        # what this call was writing may be gone; nothing else
        if full:
            files.limits[full] = None
        for q in roles:
            files.spectra[q] = None
        files.audit()
        if p.dead:
            return
        run.w.full = False
        for q in roles:
            # what can no longer be opened cannot be added to
            if q in run.disk.files and run.disk.files[q].torn:
                run.disk.files.pop(q)
        out = lim.limit(i + 1000, **args)
        new = [q for q in sorted(listing(run, base) - seen)
               if q not in roles and q not in new]
        before += 1
    if full is None:
        run.check(len(new) == 1, "default-file", "a limit without a file "
                  "name made the files %s" % new)
        full = new[0]
    else:
        run.check(not new, "default-file", "a limit with a file name also "
                  "made %s" % new)
        run.check(full in run.disk.files, "no-file",
                  "there is no file %s" % full)
    files.limits[full] = (obs_limit(lim.obj._limit_results),
                          args["store_fits"])
    for q, v in (spectra_files(sim, lim, base) if args["store_spectra"]
                 else {}).items():
        files.spectra[q] = v
    files.audit()
    stored_fits(run, sim, lim, full, args["store_fits"])
    run.probe("saved")
    if before:
        run.nontrivial = True


def spectra_files(sim, lim, base):
    """{path: [(group, contents, decays)]} that store_spectra makes"""
    m = sim.model
    out = {base + m.data["name"] + "_data.hdf5":
           [("data", m.in_roi(m.data), None)]}
    if m.fixed:
        out[base + "Fixed Background_fixed.hdf5"] = [
            ("fixed", sum(m.in_roi(s) * (f / s["decays"])
                          for s, f in m.fixed), None)]
    for s in m.floating:
        if not s.get("rate") and not sim.spec["globals"]:
            # rebinned in place by the fit
            out[base + s["name"] + "_float.hdf5"] = None
            continue
        out[base + s["name"] + "_float.hdf5"] = [
            (s["name"], m.in_roi(s), float(s["decays"]))]
    d = float(lim.x.get_num_decays())
    out[base + lim.spec["name"] + "_signal.hdf5"] = [
        ("signal", m.in_roi(lim.spec) * (d / lim.spec["decays"]), d)]
    return out


def stored_fits(run, sim, lim, path, stored):
    """The stored fits are those of the scales they are stored for."""
    aud = run.proc(host="audit")
    r = aud.imp("echidna.output.store").load_limit_results(path)
    m = sim.model
    keep = m.signal, m.state
    for k, v in enumerate(lim.scales()):
        f = r._fit_results[k]
        run.check((f is not None) == stored, "stored-fits",
                  "with store_fits=%s, the fit at scale %r is %s"
                  % (stored, v, "missing" if stored else "stored"))
        if not stored or not m.floating:
            continue
        lim.at(v)
        _, raw, pen, _ = sim.reference()
        if sim.ill and sim.spec["stat"] not in ("Neyman", "custom"):
            run.probe("ill-conditioned")
            continue
        d = diff(plain(raw + pen), plain(numpy.array(f.get_stats())), 1e-9)
        run.check(d is None, "stored-fit-differs", "the fit stored for scale "
                  "%r is not the one at that scale: %s" % (v, d))
    m.signal, m.state = keep
    aud.exit()
