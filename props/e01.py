"""E01: event files fill a spectrum completely, once, or not at all."""
import numpy

from sim.runner import PlanInvalid
from . import common, filllib
from .common import diff
from .histlib import HistSim, Ref, obs, rand_hist_op, want

ID = "E01"
LEVEL = "exploration"
RULE = ("A run writes event files (ntuples and root files), fills spectra "
        "from them, appends further files, with refused calls, missing and "
        "damaged files, read errors, interrupts, memory failures and crashes "
        "while reading, repeats what failed, and scales, shrinks, rebins and "
        "restarts in between. It counts as nontrivial if at least one event "
        "was counted.")
REAL = ["echidna.core.fill_spectrum", "echidna.core.dsextract",
        "echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "echidna.output.store",
        "echidna.util.yaml_loader", "numpy"]
STUB = ["ROOT, rat (event files on the simulated disk)", "h5py", "os", "time"]
ASSUMPTIONS = [
    "ROOT and rat are stand-ins: reading an entry raises on an I/O error "
    "(PyROOT), TChain::Add behaves as documented, invalid fits raise when "
    "they are asked for values.",
    "Simulated quantities cut on the reconstructed position have at most one "
    "reconstructed event (else a documented ValueError).",
    "Values that are a matter of rounding (within 1e-9 of a bin edge or the "
    "fiducial volume) are not generated, except exact ones."]
SIZES = {"quick": (4000, 2), "thorough": (80000, 4)}


def rand_file(rng, kind, axes, cut):
    n = rng.choice([0, 1, 2, 4, 6, 10])
    if kind == "ntuple":
        e = filllib.rand_ntuple(rng, n, cut)
    else:
        e = filllib.rand_root(rng, n, axes, cut)
    return filllib.clear(e, kind, axes, cut)


def generate(rng, tier):
    steps, fault = [], []
    external = rng.random() < 0.25
    n_file = 0
    specs = []
    for key in "ab"[:rng.choice([1, 1, 2])]:
        if key == "b" and rng.random() < 0.5:
            axes = [list(a) for a in specs[0]]
            shared = rng.random() < 0.6
        else:
            axes = filllib.rand_axes(rng, external)
            shared = False
        specs.append(axes)
        cut = filllib.rand_cut(rng, external)
        kind = rng.choice(["ntuple", "root"])
        mixed = rng.random() < 0.2
        for k in range(rng.choice([1, 2, 3, 4])):
            kk = rng.choice(["ntuple", "root"]) if mixed else kind
            path = "/work/events%d.root" % n_file
            n_file += 1
            steps.append({"op": "write", "path": path, "kind": kk,
                          "entries": rand_file(rng, kk, axes, cut)})
            if k and rng.random() < 0.25:
                st = rand_hist_op(rng, key)
                while st["k"] not in ("scale", "rebin", "restart", "shrink",
                                      "project", "bipo"):
                    st = rand_hist_op(rng, key)
                if st["k"] == "shrink":
                    for c in st["cuts"]:
                        c["fl"] = c["fh"] = 0.
                steps.append(st)
            if rng.random() < 0.12:
                steps.append({"op": "bad", "id": key, "how": rng.choice(
                    ["missing", "damaged", "external", "noname", "noconfig",
                     "dimension", "manyevs"]), "kind": kk, "path": path})
            if rng.random() < 0.25:
                steps.append({"op": "extract", "path": path, "kind": kk,
                              "name": rng.choice(sorted(filllib.CLASSES)),
                              "cut": filllib.rand_cut(
                                  rng, rng.random() < 0.3),
                              "other": rng.random() < 0.6})
            fault.append({"step": len(steps), "kinds": [
                "EIO", "EIO", "interrupt", "nomem", "kill", "stall"]})
            st = {"op": "fill", "id": key, "path": path, "kind": kk,
                  "cut": cut}
            if k == 0:
                st.update(new=True, axes=axes, name=rng.choice(
                    common.NAMES) + rng.choice(["_mc", "_reco"]),
                    config=rng.choice(["object", "object", "file"]))
                if key == "b" and shared:
                    st["config"] = "shared"
            steps.append(st)
    return {"steps": steps, "faultable": fault}


class FillSim(HistSim):
    def __init__(self, run):
        super(FillSim, self).__init__(run)
        self.saved = {}
        self.pending = {}

    def mod(self):
        return self.p.imp("echidna.core.fill_spectrum")

    def recover(self):
        """After a crash: a new process, with what was saved before."""
        run = self.run
        self.p = run.proc()
        self.configs = {}
        self.pool = {}
        for key, (path, m) in sorted(self.saved.items()):
            out = run.must(-2, "load", lambda: self.p.imp(
                "echidna.output.store").load(path))
            if not out.ok:
                raise PlanInvalid("load")
            self.pool[key] = [out.value, m.copy()]

    def save_all(self, i):
        for key, (s, m) in sorted(self.pool.items()):
            path = "/work/save_%s.hdf5" % key
            self.run.must(i, "save", lambda: self.p.imp(
                "echidna.output.store").dump(path, s))
            self.saved[key] = (path, m.copy())

    def fill(self, i, st):
        run, key = self.run, st["id"]
        entries = self.files[st["path"]][1]
        if st["kind"] != self.files[st["path"]][0]:
            raise PlanInvalid("kind")
        if not st.get("new") and key not in self.pool:
            return
        if st.get("new") and key in self.pool:
            raise PlanInvalid("again")
        for tries in range(3):
            self.save_all(-2)
            call, m = self.prepare(st, key)
            # faults hit the first try only
            out = run.must(i if tries == 0 else -2, "fill", call)
            if out.killed:
                self.p.kill()
                self.recover()
                self.check_all("a crash during fill")
                run.nontrivial = True
                continue
            if not out.ok:
                # nothing was added, and it can be repeated
                self.check_all("a failed fill (%s)" % out.describe())
                run.probe("failed-fill")
                continue
            break
        else:
            raise PlanInvalid("never filled")
        s = out.value
        if st.get("new"):
            self.pool[key] = [s, m]
        else:
            run.check(s is self.pool[key][0], "other-object",
                      "appending returned another spectrum")
        m = self.pool[key][1]
        names = [a[0] for a in m.axes]
        sel = filllib.select_ntuple if st["kind"] == "ntuple" else \
            filllib.select_root
        try:
            rows = sel(entries, names, st["cut"])
            filllib.check_rows(rows, m.axes)
        except filllib.Unclear:
            raise PlanInvalid("unclear")
        if not st.get("new"):
            m.decays += len(entries)
        m.data = m.data.copy()
        n = filllib.fill(m.data, m.axes, rows)
        m.raw += n
        if st["cut"]["bipo"]:
            m.bipo = 1
        if n:
            run.nontrivial = True
            run.probe("counted")
        if len(rows) > n:
            run.probe("out-of-range")
        if len(rows) < len(entries):
            run.probe("not-selected")
        run.state(st["kind"], tuple(names), len(rows), n, bool(st.get("new")),
                  st["cut"]["bipo"], st["cut"]["external"])

    def prepare(self, st, key):
        kw = filllib.kwargs(st["cut"])
        fn = getattr(self.mod(), "fill_from_" + st["kind"])
        if not st.get("new"):
            s = self.pool[key][0]
            return (lambda: fn(st["path"], spectrum=s, **kw)), None
        spec = {"name": st["name"], "decays": len(self.files[st["path"]][1]),
                "config": {"name": "config", "pars": st["axes"]}, "data": 0}
        m = Ref(spec)
        m.data = numpy.zeros(m.data.shape)
        if st["config"] == "shared" and "a" in self.configs:
            c = self.configs["a"]
        else:
            c = common.make_config(self.p, spec["config"])
        self.configs[key] = c
        if st["config"] == "file":
            path = "/work/config_%s.yml" % key
            c.dump_to_file(path="/work/", filename="config_%s" % key)
            c = path
        return (lambda: fn(st["path"], st["name"], c, **kw)), m

    def extract(self, i, st):
        """An extractor on its own, with any of its options."""
        run, name, cut, other = self.run, st["name"], st["cut"], st["other"]
        entries, kind = self.files[st["path"]][1], st["kind"]
        cls = getattr(self.p.imp("echidna.core.dsextract"),
                      filllib.CLASSES[name])
        kw = filllib.kwargs(dict(cut, bipo=False))
        if name.startswith(("energy", "radial_")):
            kw.pop("outer_radius", None)
            cut = dict(cut, outer_radius=None)
        if other:
            kw["mc_pos" if name.endswith("_reco") else "reco_pos"] = True
        if filllib.refused_options(name, cut, other):
            return self.refused(i, "extractor (%s, %s)" % (name, kw),
                                lambda: cls(**kw))
        x = run.must(i, "extractor", lambda: cls(**kw)).value
        if kind == "ntuple":
            chain = self.p.imp("ROOT").TChain("output")
            chain.Add(st["path"], 0)
            got = iter(chain)
        else:
            reader = self.p.imp("rat").RAT.DU.DSReader(st["path"])
        for k, e in enumerate(entries):
            if kind == "root" and e["mc"]["particles"] < 1 and other and \
                    name.endswith("_reco"):
                continue
            if kind == "root" and cut["fv_radius"] and not all(
                    ev["has_p"] and ev["ok_p"] for ev in e["evs"]):
                continue  # positions are used without asking for them
            try:
                ref = [filllib.extract_ntuple(e, name, cut, other)] \
                    if kind == "ntuple" else \
                    filllib.extract_root(e, name, cut, other)
            except filllib.Unclear:
                ref = None

            def one():
                if kind == "ntuple":
                    entry = next(got)
                    return [x.get_value_ntuple(entry)
                            if x.get_valid_ntuple(entry) else None]
                ds = reader.GetEntry(k)
                of = [ds.GetMC()] if not name.endswith("_reco") else \
                    [ds.GetEV(j) for j in range(ds.GetEVCount())]
                return [x.get_value_root(o) if x.get_valid_root(o, ds)
                        else None for o in of]
            if ref == "refused":
                self.refused(i, "a cut on one of several evs", one)
                continue
            out = run.must(-2, "extract", one)
            if ref is None:
                continue
            run.check(common.diff(ref, out.value, 1e-12) is None,
                      "extractor-%s" % name, lambda: "%s with %s gives %s for "
                      "%s, not %s" % (name, kw, out.value, e, ref))
            run.probe("extracted-other" if other else "extracted")
            run.state("extract", name, kind, other, cut["external"],
                      bool(cut["fv_radius"]), [v is None for v in ref])

    def bad(self, i, st):
        """A call that has to be refused."""
        key, how = st["id"], st["how"]
        fn = getattr(self.mod(), "fill_from_" + st["kind"])
        path, kw = st["path"], {}
        if how in ("missing", "damaged"):
            path = "/work/none.root"
            if how == "damaged":
                filllib.write(self.run.disk, path, [{}] * 3)
                self.run.disk.corrupt(path, "unopenable")
        c = common.make_config(self.p, {"name": "c", "pars": [
            ["energy_mc", 0., 10., 4]]})
        if how == "external":
            kw = {"external": True}
            c = common.make_config(self.p, {"name": "c", "pars": [
                ["energy_mc", 0., 10., 4], ["radial_mc", 0., 6000., 2]]})
        elif how == "dimension":
            c = common.make_config(self.p, {"name": "c", "pars": [
                ["energy_mc", 0., 10., 4], ["angle_reco", 0., 1., 2]]})
        elif how == "manyevs":
            # which of the evs has the position to cut on?
            fn = self.mod().fill_from_root
            path = "/work/none.root"
            ev = {"fit": True, "has_e": True, "ok_e": True, "has_p": True,
                  "ok_p": True, "energy": 2., "pos": [0., 0., 500.]}
            filllib.write(self.run.disk, path, [
                {"mc": {"particles": 1, "pos": [0., 0., 500.],
                        "quenched": 2., "edep": 2.}, "evs": [ev] * n}
                for n in (0, 1, 2 + i % 2)])
            kw = {"external": True, "fv_radius": 3000.}
            c = common.make_config(self.p, {"name": "c", "pars": [
                ["energy_" + ("mc", "truth")[i // 2 % 2], 0., 10., 4]]})
        if key in self.pool and how in ("missing", "damaged", "external"):
            s = self.pool[key][0]
            if how == "external" and not any(
                    a[0] in ("radial_mc", "radial3_mc", "zradial3_mc")
                    for a in self.pool[key][1].axes):
                return
            self.refused(i, "appending (%s)" % how,
                         lambda: fn(path, spectrum=s, **kw))
        elif how == "noname":
            self.refused(i, "filling without a name",
                         lambda: fn(path, config=c))
        elif how == "noconfig":
            self.refused(i, "filling without a config",
                         lambda: fn(path, "name_mc"))
        else:
            self.refused(i, "filling (%s)" % how,
                         lambda: fn(path, "name_mc", c, **kw))
        self.run.disk.files.pop("/work/none.root", None)


def execute(run):
    sim = FillSim(run)
    sim.files = {}
    for i, st in enumerate(run.plan["steps"]):
        if st["op"] == "write":
            filllib.write(run.disk, st["path"], st["entries"])
            sim.files[st["path"]] = (st["kind"], st["entries"])
            continue
        if st["op"] in ("fill", "bad", "extract") and \
                st["path"] not in sim.files:
            raise PlanInvalid("no file")
        if st["op"] == "fill":
            sim.fill(i, st)
        elif st["op"] == "bad":
            sim.bad(i, st)
        elif st["op"] == "extract":
            sim.extract(i, st)
        else:
            sim.op(i, st)
        sim.check_all("%s (step %d)" % (st.get("k", st["op"]), i))
