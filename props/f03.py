"""F03: a fit with pre-made convolved spectra uses the right file."""
import itertools
import random

from . import fitlib
from .fitlib import FitSim, pre_made_path, pre_made_spec, rand_global, \
    rand_rate, rand_spec, rand_spectrum
from sim.runner import PlanInvalid

ID = "F03"
LEVEL = "exploration"
RULE = ("A run has a producer store every spectrum and, for every point of "
        "the grid of global parameters, a convolved spectrum with contents "
        "that only its file name determines. Another process fits with them "
        "while files are missing or damaged, reads fail and the directory is"
        " changed, and every completed fit is compared with a reference. It "
        "counts as nontrivial if a fit was compared after a file was missing,"
        " damaged or unreadable, or after a change.")
REAL = ["echidna.fit.fit", "echidna.fit.minimise", "echidna.output.store",
        "echidna.core.*", "numpy", "json"]
STUB = ["h5py (in-memory model)", "os", "time", "logging output"]
ASSUMPTIONS = [
    "Names of spectra do not end in sc, sh, ly or rs (the tokens of the file"
    " names).",
    "All systematics of one dimension are listed together.",
    "Files do not change while a fitter uses them, except for being missing "
    "or damaged."]
SIZES = {"quick": (800, 2), "thorough": (9000, 4)}
LINES = True

WHOLE = {"Resolution": [[150, 200, 250], [20, 200], [100, 1000], [10, 100]],
         "Scale": [[1, 2], [1, 10], [10, 11, 20]],
         "Shift": [[10, 100], [0, 1], [0, 10], [-10, 1, 5]]}


def generate(rng, tier):
    while True:
        spec = rand_spec(rng, tier, globals_=rng.choice([1, 1, 2, 3]))
        # more than one dimension of systematics
        if len(spec["axes"]) == 2 and rng.random() < 0.5:
            have = set(g["cls"] for g in spec["globals"])
            spec["globals"] += [
                g for g in [rand_global(rng, "radial3_" +
                                        spec["types"]["data"][1],
                                        rng.choice([1, 2]))]
                if g["cls"] not in have]
        rng.shuffle(spec["globals"])
        for g in spec["globals"]:
            if rng.random() < 0.2:
                # an array of whole numbers, given as the values to test
                v = rng.choice(WHOLE[g["cls"]])
                g["args"].update(values=v, low=float(v[0]), prior=float(v[0]),
                                 high=float(v[-1]), bins=len(v))
        spec["globals"].sort(key=lambda g: g["args"]["dimension"])
        n = 1
        for s in spec["floating"]:
            if s.get("rate"):
                n *= s["rate"]["args"]["bins"]
        for g in spec["globals"]:
            n *= g["args"]["bins"]
        if n <= 80:
            break
    gdim = spec["globals"][0]["args"]["dimension"]
    home = rng.choice(["/data/base", "/data", "/data/%s/smear" % gdim,
                       "/data/unsmeared", "/data/rescale/" + gdim,
                       "/data/%s/upshifted" % gdim, "/data/smear",
                       "/shift/scale/%s_old" % gdim])
    token = "_210ly" if home.endswith("smear") else rng.choice(
        ["", "", "_1.5sc"])
    for s in spec["floating"] + ([spec["signal"]] if spec.get("signal")
                                 else []):
        s["stored"] = "%s/%s%s.hdf5" % (home, s["name"], token)
    spec["pre_made"] = {"base": rng.choice([
        None, None, "/data/pm", "/data/pm/", "/smeared/%s/" % gdim,
        "/scale/%s" % gdim])}
    steps = []
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["fit", "fit", "fit", "missing", "damaged", "dir",
                         "bad_dir", "scale", "signal", "set_data"])
        steps.append({"op": op, "r": rng.randrange(10 ** 9)})
    steps.append({"op": "fit"})
    return {"spec": spec, "steps": steps,
            "faultable": [{"step": i, "kinds": ["EIO", "EACCES", "interrupt",
                                                "nomem"], "ons": ons}
                          for i, s in enumerate(steps[:-1])
                          if s["op"] == "fit"
                          for ons in (None, ["r", "h5.open_r"])]}


class Producer(object):
    def __init__(self, run, sim):
        self.run, self.sim = run, sim
        self.p = run.proc(host="producer")
        self.store = self.p.imp("echidna.output.store")
        self.paths = {}

    def dump(self, path, s, kind):
        x = fitlib.build(self.run, self.p, self.sim.spec, s, kind)
        self.run.disk.mkdirs(path.rpartition("/")[0])
        self.store.dump(path, x)

    def grid(self):
        out = []
        for g in self.sim.spec["globals"]:
            par = fitlib.common.make_par(self.p, g)
            out.append([float(v) for v in par.get_values()])
        return itertools.product(*out)

    def produce(self, s, kind, base, version):
        if not s["stored"] in self.run.disk.files:
            self.dump(s["stored"], s, kind)
        for values in self.grid():
            path = pre_made_path(s["stored"], base, [
                (g["cls"], g["args"]["dimension"], v)
                for g, v in zip(self.sim.spec["globals"], values)])
            if path == s["stored"] or path in self.run.disk.files:
                raise PlanInvalid("two spectra in one file")
            self.dump(path, pre_made_spec(s, version, values), kind)
            self.paths[path] = (version, s["name"])


def known_plan(key):
    """Shifts in energy and in radius: the name of the file has the last of
    the two values only."""
    def shift(dim):
        return {"cls": "Shift", "name": dim + "_shift", "args": {
            "prior": 0., "low": -0.5, "high": 0.5, "bins": 3, "sigma": None,
            "dimension": dim}}
    bg = {"name": "B8_Solar", "decays": 100., "data": 1, "shape": "uniform",
          "fine": [1, 1], "stored": "/data/B8_Solar.hdf5"}
    return {"known": key, "spec": {
        "axes": [["energy", 0., 5., 5], ["radial3", 0., 5., 5]],
        "types": {"data": ["mc", "mc"]}, "roi": {"energy": [0., 5.]},
        "data": {"name": "data", "decays": 1., "data": 2,
                 "shape": "uniform"},
        "fixed": [], "floating": [bg], "stat": "BakerCousinsChi",
        "globals": [shift("energy_mc"), shift("radial3_mc")],
        "per_bin": False, "stat_per_bin": False, "single_bin": False,
        "pre_made": {"base": None}}}


def one_file(run, sim, prod):
    """No two points of the grid may read one file."""
    bg = sim.spec["floating"][0]
    prod.dump(bg["stored"], bg, "floating")
    vals = ["%.12gsh" % v for v in (-0.5, 0., 0.5)]
    for k, a in enumerate(vals):
        for words in [[a]] + [[b, a] for b in vals]:
            prod.dump("/data/energy_mc/shift/radial3_mc/shift/" +
                      "_".join([bg["name"]] + words) + ".hdf5",
                      dict(bg, data=10 * k + len(words)), "floating")
    run.must(-1, "setup", sim.setup)
    n = len(run.w.log)
    out = run.step(0, sim.fitter.fit)
    if not out.ok:
        return
    read = [e[2] for e in run.w.log[n:] if len(e) > 2 and
            e[1] == "h5.open_r"]
    run.check(len(read) == 9 == len(set(read)), "one-file-for-two-points",
              "a fit of 9 combinations of systematics read %d files: %s"
              % (len(set(read)), sorted(set(read))))


def execute(run):
    spec = run.plan["spec"]
    if run.plan.get("known"):
        sim = FitSim(run, spec)
        return one_file(run, sim, Producer(run, sim))
    sim = FitSim(run, spec)
    prod = Producer(run, sim)
    every = [(s, "floating") for s in spec["floating"]]
    if spec.get("signal"):
        every.append((spec["signal"], "signal"))
    base = spec["pre_made"]["base"]
    for s, kind in every:
        prod.produce(s, kind, base, 0)
    run.must(-1, "setup", sim.setup)
    changes = 0
    for i, st in enumerate(run.plan["steps"]):
        op, m = st["op"], sim.model
        rng = random.Random("op-%s" % st.get("r"))
        if op == "fit":
            out = sim.fit(i)
            if out.ok and changes:
                run.nontrivial = True
            if not out.ok:
                changes += 1
        elif op in ("missing", "damaged"):
            changes += broken(run, sim, prod, i, op, rng)
        elif op == "dir":
            base = "/elsewhere/%d%s" % (i, rng.choice(["", "/"]))
            used = list(m.floating) + ([m.signal] if m.signal else [])
            kinds = {s["name"]: "floating" for s in m.floating}
            for s in used:
                prod.produce(s, kinds.get(s["name"], "signal"), base, i + 1)
            run.disk.mkdirs(base)
            run.must(i, op, lambda: sim.fitter.set_pre_made_dir(base))
            sim.version = i + 1
            changes += 1
        elif op == "bad_dir":
            out = run.step(i, lambda: sim.fitter.set_pre_made_dir("/none/x"))
            run.check(out.raised and isinstance(out.exc, ValueError),
                      "bad-directory", "a directory that does not exist was "
                      "accepted: %s" % out.describe())
            changes += 1
        elif op == "scale" and m.signal is not None:
            v = rng.choice([1., 0.25, 10., 300.])
            run.must(i, op, lambda: sim.scale_signal(v))
            changes += 1
        elif op == "signal":
            s = rand_spectrum(rng, "signal%d" % i)
            s["rate"] = rand_rate(rng, 1.)
            s["stored"] = "%s/%s.hdf5" % (
                spec["floating"][0]["stored"].rpartition("/")[0], s["name"])
            prod.produce(s, "signal", base, sim.version)
            run.must(i, op, lambda: sim.set_signal(s))
            changes += 1
        elif op == "set_data":
            s = dict(rand_spectrum(rng, "data%d" % i), decays=1.)
            run.must(i, op, lambda: sim.set_data(s))
            changes += 1


def broken(run, sim, prod, i, op, rng):
    """A fit that needs a file that is missing or damaged is refused; with
    the file back it is right."""
    if sim.fits:
        return 0             # the file may have been read before
    names = [s["name"] for s in sim.model.floating]
    if sim.model.signal:
        names.append(sim.model.signal["name"])
    path = rng.choice(sorted(
        q for q, (v, n) in prod.paths.items() if v == sim.version and
        n in names))
    node = run.disk.files[path]
    if op == "missing":
        run.disk.files.pop(path)
    else:
        run.disk.files[path] = node.clone()
        run.disk.files[path].torn = True
    out = run.step(i, sim.fitter.fit)
    run.check(out.raised, "fit-without-file", "%s is %s, but a fit that "
              "needs it gave a result" % (path, op))
    run.disk.files[path] = node
    run.probe(op)
    run.nontrivial = True
    sim.fit(i + 500)
    return 1
