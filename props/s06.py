"""S06: objects of arrays and files in the old layout load back complete."""
import numpy

from . import common
from .common import diff, plain
from sim.runner import PlanInvalid

ID = "S06"
LEVEL = "exploration"
RULE = ("A run saves objects of arrays and plain values with dump_ndarray, to "
        "new and existing files, changes them, and loads the files into "
        "objects of the same kind in several processes, with restarts, "
        "errors, full disks, interrupts and crashes in saves and loads; and "
        "it loads spectra from files in the layout of older versions. It "
        "counts as nontrivial if a file was loaded after a change, a fault "
        "or an earlier version of it, or an old file was loaded.")
REAL = ["echidna.output.store", "echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "numpy"]
STUB = ["h5py (in-memory model with torn file states)", "os", "time"]
ASSUMPTIONS = [
    "The object that is loaded into has an array wherever the saved one has "
    "one.",
    "Files in the old layout hold their axes in alphabetical order.",
    "Process death is simulated, not power loss."]
SIZES = {"quick": (2500, 3), "thorough": (40000, 6)}

NAMES = ("_name", "_low", "_bins", "_values", "_flag", "_grid", "_errors",
         "_count", "_label", "_empty")
PATHS = ("/work/a.hdf5", "/work/b.hdf5", "c.hdf5")


def rand_value(rng, name):
    if name in ("_name", "_label"):
        return rng.choice(["syst", "Te130_0n2b", "a b", "x"])
    if name in ("_low",):
        return rng.choice([0., -1.5, 1e-300, 1. / 3., 1e22])
    if name in ("_bins", "_count"):
        return rng.choice([0, 1, 7, 2 ** 40])
    if name == "_flag":
        return rng.random() < 0.5
    shape = [rng.choice([1, 2, 3, 5]) for _ in range(rng.choice([1, 1, 2,
                                                                 3]))]
    if name == "_empty":
        shape[0] = 0
    return {"shape": shape, "seed": rng.randrange(10 ** 6),
            "dtype": rng.choice(["float", "float", "int"])}


def rand_object(rng, names=None):
    if names is None:
        names = rng.sample(NAMES, rng.randint(1, len(NAMES)))
    return [[n, rand_value(rng, n)] for n in names]


def generate(rng, tier):
    steps, fault = [], []
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 3)):
            axes = sorted(common.rand_axes(rng))
            spec = {"axes": axes, "name": rng.choice(["Te130_mc", "x"]),
                    "decays": rng.choice([1., 100.5, 0., 7.]),
                    "raw": rng.choice([0, 5, 123456]),
                    "bipo": rng.choice([None, 0, 1, 2]),
                    "data": rng.randrange(10 ** 6),
                    "style": rng.choice([{}, {"color": "blue"}, {
                        "color": "red", "alpha": 0.5, "width": 3}]),
                    "rois": rng.choice([{}, {"low": 1.25}])}
            path = rng.choice(PATHS)
            steps.append({"op": "old", "spec": spec, "path": path})
            fault.append({"step": len(steps), "kinds": [
                "EIO", "EIO", "EACCES", "interrupt", "nomem"]})
            steps.append({"op": "load-old", "path": path})
            steps.append({"op": "load-old", "path": path})
        return {"steps": steps, "faultable": fault}
    n = rng.randint(1, 3)
    names = []
    for k in range(n):
        o = rand_object(rng)
        names.append([a for a, _ in o])
        steps.append({"op": "new", "id": k, "attrs": o})
    for _ in range(rng.randint(3, 9)):
        k = rng.randrange(n)
        op = rng.choice(["dump", "dump", "dump", "load", "load", "change",
                         "none", "restart"])
        st = {"op": op, "id": k, "path": rng.choice(PATHS[:2] if
                                                    rng.random() < 0.8
                                                    else PATHS)}
        if op == "change":
            a = rng.choice(names[k])
            st.update(attr=a, value=rand_value(rng, a))
        elif op == "none":
            st["attr"] = rng.choice(names[k])
        elif op == "load":
            st["seed"] = rng.randrange(10 ** 6)
            st["p"] = rng.randrange(2)
        elif op == "restart":
            st["how"] = rng.choice(["exit", "kill"])
        if op == "dump":
            kinds = ["EIO", "ENOSPC", "short", "EACCES", "kill", "kill",
                     "interrupt", "nomem"]
            fault.append({"step": len(steps), "kinds": kinds, "ons": ["w"]})
            fault.append({"step": len(steps), "kinds": kinds})
        elif op == "load":
            fault.append({"step": len(steps), "kinds": [
                "EIO", "EACCES", "interrupt", "nomem", "kill"]})
        steps.append(st)
    for path in PATHS:
        steps.append({"op": "load", "path": path, "seed": 1, "p": 1, "id": 0})
    return {"steps": steps, "faultable": fault}


class Thing(object):
    """Any class that mainly consists of numpy arrays."""


def value_of(v):
    if isinstance(v, dict):
        r = numpy.random.RandomState(v["seed"])
        if v["dtype"] == "int":
            return r.randint(-9, 9, v["shape"])
        return r.uniform(-1., 1., v["shape"]) * 10. ** r.randint(-5, 5)
    return v


def look(thing):
    return {k: plain(v) for k, v in thing.__dict__.items()}


def dtypes(thing):
    return {k: str(v.dtype) for k, v in thing.__dict__.items()
            if isinstance(v, numpy.ndarray)}


class Sim(object):
    def __init__(self, run):
        self.run = run
        run.disk.mkdirs("/work")
        self.p = [self.proc(0), self.proc(1)]
        self.objs = {}      # id -> Thing
        self.files = {}     # path -> versions it may hold (None: no file)
        self.events = 0

    def proc(self, i):
        p = self.run.proc()
        p.cwd = "/work"
        return p

    def restart(self, i, how="kill"):
        if how == "exit" and not self.p[i].dead:
            self.p[i].exit()
        else:
            self.p[i].kill()
        self.p[i] = self.proc(i)
        self.events += 1

    def versions(self, path):
        return self.files.setdefault(path, [None])

    def dump(self, i, st):
        run, x = self.run, self.objs[st["id"]]
        store = self.p[0].imp("echidna.output.store")
        before = look(x)
        new = {k: v for k, v in before.items() if v is not None}
        kinds = {k: isinstance(v, numpy.ndarray)
                 for k, v in x.__dict__.items()}
        others = self.untouched(st["path"])
        out = run.must(i, "dump_ndarray",
                       lambda: store.dump_ndarray(st["path"], x))
        d = diff(before, look(x))
        run.check(d is None, "dump-changes", "dump_ndarray changes the "
                  "object: %s" % d)
        d = diff(others, self.untouched(st["path"]))
        run.check(d is None, "other-file", "dump_ndarray changes another "
                  "file: %s" % d)
        v = (new, kinds, dtypes(x))
        if out.ok:
            self.files[st["path"]] = [v]
        else:
            self.versions(st["path"]).append(v)
            self.events += 1
        if self.p[0].dead:
            self.restart(0)

    def untouched(self, path):
        full = path if path.startswith("/") else "/work/" + path
        return {q: f.fingerprint() if hasattr(f, "fingerprint") else repr(f)
                for q, f in self.run.disk.files.items()
                if q in self.known() and q != full}

    def known(self):
        return {q if q.startswith("/") else "/work/" + q for q in self.files}

    def load(self, i, st):
        run = self.run
        if self.p[st["p"]].dead:
            return
        store = self.p[st["p"]].imp("echidna.output.store")
        vs = self.versions(st["path"])
        real = [v for v in vs if v is not None]
        # what is loaded into has other values, but arrays where needed
        r = numpy.random.RandomState(st["seed"])
        target = Thing()
        names = sorted({k for v in real for k in v[0]} | {"_extra"})
        for k in names:
            arr = [v[1][k] for v in real if k in v[0]]
            if arr and arr[-1]:
                setattr(target, k, r.uniform(0., 1., (2, 2)))
            else:
                setattr(target, k, [None, "old", 3.5][r.randint(3)])
        was = look(target)
        out = run.step(i, lambda: store.load_ndarray(st["path"], target))
        if self.p[st["p"]].dead:
            self.restart(st["p"])
            return
        now = look(target)
        if not out.ok:
            d = diff(was, now)
            run.check(d is None, "half-loaded", "a load that failed (%s) "
                      "changed the object: %s" % (out.describe(), d))
            sure = len(vs) == 1 and vs[0] is not None
            run.check(out.faults or not sure, "load-raises", lambda:
                      "load_ndarray failed with no fault injected: %s"
                      % out.describe())
            self.events += 1
            return
        fits = []
        for v in real:
            want = dict(was)
            want.update(v[0])
            d = diff(want, now)
            if d is None:
                got = dtypes(target)
                for k, t in v[2].items():
                    if got.get(k) != t:
                        d = "%s: %s, not %s" % (k, got.get(k), t)
            fits.append(d)
        run.check(None in fits, "loads-differently", "%s loads differently: "
                  "%s" % (st["path"], fits))
        run.check(out.value is target, "returned", "load_ndarray does not "
                  "return the object")
        self.files[st["path"]] = [real[fits.index(None)]]
        run.state(len(real), sorted(now), self.events > 0)
        if self.events:
            run.nontrivial = True


def to_string(d):
    return ",".join("%s:%s;%s" % (k, v, type(v).__name__)
                    for k, v in sorted(d.items()))


def write_old(p, path, spec, data):
    with p.imp("h5py").File(path, "w") as f:
        for n, lo, hi, b in spec["axes"]:
            f.attrs["pars:%s:low" % n] = lo
            f.attrs["pars:%s:high" % n] = hi
            f.attrs["pars:%s:bins" % n] = b
        f.attrs["name"] = spec["name"]
        f.attrs["num_decays"] = spec["decays"]
        f.attrs["raw_events"] = spec["raw"]
        if spec["bipo"] is not None:
            f.attrs["bipo"] = spec["bipo"]
        f.attrs["style"] = to_string(spec["style"])
        f.attrs["rois"] = to_string(spec["rois"])
        f.create_dataset("data", data=data, compression="gzip")


def execute(run):
    sim = Sim(run)
    old = {}
    for i, st in enumerate(run.plan["steps"]):
        op = st["op"]
        if op == "new":
            x = sim.objs[st["id"]] = Thing()
            for n, v in st["attrs"]:
                setattr(x, n, value_of(v))
        elif op in ("dump", "load"):
            if op == "dump" and st["id"] not in sim.objs:
                raise PlanInvalid("object")
            getattr(sim, op)(i, st)
        elif op in ("change", "none"):
            if st["id"] not in sim.objs:
                raise PlanInvalid("object")
            setattr(sim.objs[st["id"]], st["attr"],
                    value_of(st["value"]) if op == "change" else None)
            sim.events += 1
        elif op == "restart":
            sim.restart(0, st["how"])
        elif op == "old":
            s = st["spec"]
            data = numpy.random.RandomState(s["data"]).uniform(
                0., 9., [b for _, _, _, b in s["axes"]])
            run.must(i, "write", lambda: write_old(
                run.proc(), "/work/" + st["path"].split("/")[-1], s, data))
            old[st["path"]] = (s, data)
        elif op == "load-old":
            if st["path"] not in old:
                raise PlanInvalid("file")
            load_old(run, sim, i, st["path"], *old[st["path"]])
        else:
            raise PlanInvalid(op)


def load_old(run, sim, i, path, s, data):
    store = sim.p[0].imp("echidna.output.store")
    out = run.must(i, "load", lambda: store.load(path))
    if not out.ok:
        return
    x = out.value
    c = x.get_config()
    got = {"name": x.get_name(), "decays": plain(x.get_num_decays()),
           "raw": plain(x._raw_events), "bipo": int(x.get_bipo()),
           "style": dict(x.get_style()), "rois": dict(x._rois),
           "data": plain(x.get_data()),
           "axes": [[n, plain(c.get_par(n).get_low()),
                     plain(c.get_par(n).get_high()),
                     plain(c.get_par(n).get_bins())] for n in c.get_pars()]}
    new = common.make_spectrum(sim.p[0], {"name": "new", "decays": 1., "data": 0,
                               "config": {"name": "c", "pars": s["axes"]}})
    want = {"name": s["name"], "decays": s["decays"], "raw": s["raw"],
            "bipo": s["bipo"] or 0, "rois": s["rois"],
            "style": s["style"] or plain(new.get_style()),
            "data": plain(data), "axes": [list(a) for a in s["axes"]]}
    d = diff(want, got)
    run.check(d is None, "old-differs", "a file in the old layout loads "
              "differently: %s" % d)
    run.state("old", len(s["axes"]), s["bipo"] is None)
    run.nontrivial = True
