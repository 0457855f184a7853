"""C01: configurations written to YAML load back the same."""
import copy
import math
import os
import random

import numpy

from . import common
from .common import diff, obs_config, obs_fit_config, obs_global, plain
from sim.runner import PlanInvalid
from sim.world import Scheduler, SimKilled

ID = "C01"
LEVEL = "exploration"
RULE = ("A run builds spectral, spectral-fit and global-fit configs, changes "
        "their parameters, writes them to YAML files (default, named and "
        "blank file names; new and existing files; alone and concurrently "
        "with other writers and readers) and loads the files in several "
        "processes, while errors, full disks, short writes, interrupts and "
        "crashes hit the writes and reads. It counts as nontrivial if a file "
        "was loaded after a change, a fault or an earlier version of the "
        "file.")
REAL = ["echidna.core.config", "echidna.core.parameter",
        "echidna.util.yaml_loader", "yaml", "numpy"]
STUB = ["open/os (simulated disk; rename is atomic)", "logging output"]
ASSUMPTIONS = [
    "Processes that write the same file run on one host.",
    "Process death is simulated, not power loss.",
    "Parameters of one dimension load next to each other, global before "
    "spectral, as the files are laid out."]
SIZES = {"quick": (2500, 2), "thorough": (40000, 4)}
LINES = True

KINDS = ("spectra", "specfit", "global")
DIRS = ("", "/work/", "/work/out", "/work/out/", "out", "/work/a.b/")
FNAMES = {"spectra": [None, None, "", "x.yml", "y"],
          "specfit": [None, None, "", "x.yml", "s"],
          "global": [None, None, "", "g.yml", "h"]}


def rand_fit_par(rng, name):
    s = common.rand_rate(rng, name)
    return s


def new_spec(rng, kind):
    name = rng.choice(["config", "fit config", "det_v1", "a"])
    if kind == "spectra":
        return {"name": name, "pars": common.rand_axes(rng)}
    if kind == "specfit":
        names = rng.sample(["rate", "rate_two", "alt_rate", "rate_z"],
                           rng.choice([1, 1, 2, 3]))
        return {"name": name, "pars": [common.rand_rate(rng, n)
                                       for n in names]}
    spec = common.rand_global_config(rng, name, 0, 5)
    return spec


def rand_change(rng, kind):
    if kind == "spectra":
        return rng.choice([{"low": -3.5}, {"bins": 7}, {"high": 1234.5},
                           {"low": 0.1, "high": 0.7, "bins": 3},
                           {"bins": 20}])
    return rng.choice([{"prior": 0.35}, {"sigma": None}, {"sigma": 0.07},
                       {"high": 2e3}, {"bins": 9}, {"bins": 1},
                       {"low": 0.001}, {"low": 1e-07, "high": 1e5},
                       {"logscale": True, "low": 0.5, "high": 8.},
                       {"logscale": True, "base": 10., "low": 1e-3},
                       {"logscale": False},
                       {"sigma": None, "bins": 4, "prior": 1e10},
                       {"prior": 1. / 3.}])


def generate(rng, tier):
    steps, fault = [], []
    n = rng.randint(1, 3)
    objs = []
    for k in range(n):
        kind = rng.choice(KINDS)
        objs.append(kind)
        steps.append({"op": "new", "id": k, "kind": kind, "p": 0,
                      "spec": new_spec(rng, kind)})
    for _ in range(rng.randint(3, 9 if tier == "quick" else 14)):
        op = rng.choice(["change", "change", "state", "dump", "dump", "dump",
                         "load", "load", "both", "restart", "grow",
                         "shipped", "query"])
        k = rng.randrange(len(objs))
        st = {"op": op, "id": k, "r": rng.randrange(10 ** 9)}
        if op == "change":
            st["set"] = rand_change(rng, objs[k])
        elif op == "state":
            st["state"] = [rng.choice([None, 0., 3.7, 1e-5]) for _ in "abc"]
        elif op in ("dump", "both"):
            st.update(dir=rng.choice(DIRS),
                      fname=rng.choice(FNAMES[objs[k]]),
                      sname=rng.choice(FNAMES["specfit"]),
                      basic=rng.random() < 0.3)
            if op == "both":
                st["other"] = rng.randrange(len(objs))
        elif op == "load":
            st.update(p=rng.randrange(2), adopt=rng.random() < 0.3,
                      name=rng.choice([None, "", "given"]))
        elif op == "restart":
            st["how"] = rng.choice(["exit", "kill"])
        if op == "dump":
            kinds = ["EIO", "ENOSPC", "short", "EACCES", "kill", "interrupt",
                     "nomem"]
            fault.append({"step": len(steps), "kinds": kinds, "ons": ["w"]})
            fault.append({"step": len(steps), "kinds": kinds})
        elif op == "load":
            fault.append({"step": len(steps), "kinds": [
                "EIO", "EACCES", "interrupt", "nomem", "kill"]})
        elif op == "both":
            for pid in (1000, 1001):
                fault.append({"step": len(steps), "pid": pid, "kinds": [
                    "EIO", "ENOSPC", "short", "kill", "interrupt"],
                    "ons": ["w"]})
        steps.append(st)
    return {"steps": steps, "faultable": fault}


# -- what a config is -----------------------------------------------------

def obs(kind, c):
    if kind == "spectra":
        return obs_config(c)
    if kind == "specfit":
        out = obs_fit_config(c)
        for n, o in out["pars"]:
            o["state"] = common.par_state(c.get_par(n))
        return out
    out = obs_global(c)
    for i, (n, g, o) in enumerate(out["pars"]):
        o["state"] = common.par_state(c.get_par(n))
    return out


STATE = ("current_value", "best_fit", "penalty_term")


def as_loaded(kind, o, name, basic, part=None):
    """What a file that this was written to loads as."""
    o = copy.deepcopy(o)
    o["name"] = name
    if kind == "spectra":
        return o
    if kind == "global":
        if part == "global":
            o["pars"] = [x for x in o["pars"] if x[1]]
        dims = []
        for _, g, p in o["pars"]:
            if g and p["dimension"] not in dims:
                dims.append(p["dimension"])
        o["pars"].sort(key=lambda x: dims.index(x[2]["dimension"])
                       if x[1] else len(dims))
    else:
        o["spectra"] = "loaded"
    for x in o["pars"]:
        p = x[-1]
        if basic:
            for k in STATE:
                p[k] = None
            p["state"] = [None, None]
    return o


def make(p, kind, spec):
    if kind == "spectra":
        return common.make_config(p, spec)
    if kind == "specfit":
        return common.make_fit_config(p, spec, "loaded")
    return common.make_global(p, spec)


class Sim(object):
    def __init__(self, run):
        self.run = run
        self.p = [run.proc(), run.proc()]
        self.objs = {}        # id -> [kind, process index, object]
        self.files = {}       # path -> list of possible versions
        self.events = 0
        self.specs = {}

    # a version: (kind, part, observation, basic)

    def paths(self, st, kind, o):
        d, run = st["dir"], self.run
        def full(f):
            if ".yml" not in f:
                f += ".yml"
            return run.disk.norm(os.path.join(d, f))
        f = st["fname"]
        if kind == "spectra":
            return [("spectra", full("spectra_config" if f is None else
                                     f or o["name"]))]
        if kind == "specfit":
            return [("spectral", full("spectral_fit_config" if f is None else
                                      f or o["name"] + "_spectral"))]
        s = st["sname"]
        return [("global", full("global_fit_config" if f is None else
                                f or o["name"] + "_global")),
                ("spectral", full("spectral_fit_config" if s is None else
                                  s or o["name"] + "_spectral"))]

    def dumper(self, st, k):
        kind, pi, c = self.objs[k]
        o = obs(kind, c)
        paths = self.paths(st, kind, o)
        if len(set(q for _, q in paths)) < len(paths):
            raise PlanInvalid("one name for two files")
        d = st["dir"]

        def go():
            if kind == "spectra":
                c.dump_to_file(d, st["fname"])
            elif kind == "specfit":
                c.dump_to_file(d, st["fname"], st["basic"])
            else:
                c.dump_to_file(d, st["fname"], st["sname"], st["basic"])
        return go, [(q, (kind, part, o, st["basic"])) for part, q in paths]

    def after(self, versions, ok):
        for q, v in versions:
            if ok:
                self.files[q] = [v]
            else:
                self.files.setdefault(q, [None])
                self.files[q].append(v)
                if q not in self.run.disk.files:
                    self.files[q] = [x for x in self.files[q] if x is None]
                    self.run.check(self.files[q], "file-gone", "%s is gone "
                                   "after an interrupted write" % q)

    def audit(self):
        """Every file is one of the versions written there; nothing else is
        left behind by a writer that lived."""
        p = self.run.proc()
        for q, versions in sorted(self.files.items()):
            if versions == [None] or None in versions and \
                    q not in self.run.disk.files:
                continue
            got = self.load(p, q, versions, "")
            self.settle(q, versions, got, "")
        p.exit()

    def settle(self, q, versions, got, name):
        want = [v for v in versions if v is not None]
        hit = [v for v in want if self.matches(q, v, got, name)]
        self.run.check(hit, "file-differs", lambda: "%s loads as something "
                       "that was not written there: %s" % (
                           q, self.explain(q, want[-1], got, name)))
        self.files[q] = [hit[-1]] if len(want) == 1 else hit

    def name_of(self, q, name, kind):
        if name == "":
            return os.path.splitext(os.path.basename(q))[0]
        return name

    def expected(self, q, v, name, kind):
        k, part, o, basic = v
        default = {"spectra": "config", "specfit": "spectral_fit_config",
                   "global": "global_fit_config"}[kind]
        n = default if name is None else self.name_of(q, name, kind)
        if part == "spectral" and k == "global":
            o = {"name": n, "spectra": "loaded",
                 "pars": [[a, b] for a, g, b in o["pars"] if not g]}
            return as_loaded("specfit", o, n, basic)
        return as_loaded(k, o, n, basic, part)

    def matches(self, q, v, got, name):
        kind, o = got
        if o is None:            # no reader accepts it: no parameters
            kind = {"spectra": "spectra", "spectral": "specfit",
                    "global": "global"}[v[1]]
        if {"spectra": "spectra", "spectral": "specfit",
                "global": "global"}[v[1]] != kind:
            return False
        want = self.expected(q, v, name, kind)
        if not want["pars"] and kind != "global":
            return o is None
        return o is not None and diff(want, o) is None

    def explain(self, q, v, got, name):
        if got[1] is None:
            return "a file without parameters"
        return diff(self.expected(q, v, name, got[0]), got[1])

    def load(self, p, q, versions, name, must=True):
        """Load with the reader of the first key in the file."""
        cfg = p.imp("echidna.core.config")
        parts = sorted(set(v[1] for v in versions if v is not None))
        out = None
        for part in parts:
            def go():
                if part == "spectra":
                    return cfg.SpectraConfig.load_from_file(q, name)
                if part == "global":
                    return cfg.GlobalFitConfig.load_from_file(q, name=name)
                return cfg.SpectraFitConfig.load_from_file(q, "loaded", name)
            kind = {"spectra": "spectra", "spectral": "specfit",
                    "global": "global"}[part]
            try:
                c = go()
            except KeyError:
                # the wrong reader, or a file with no parameters
                if out is None:
                    out = (kind, None)
                continue
            return kind, obs(kind, c)
        return out


def execute(run):
    run.disk.mkdirs("/work/out")
    run.disk.mkdirs("/work/a.b")
    sim = Sim(run)
    for i, st in enumerate(run.plan["steps"]):
        one(run, sim, i, st)
    sim.audit()


def one(run, sim, i, st):
    op = st["op"]
    rng = random.Random("op-%s" % st.get("r"))
    if op == "new":
        c = run.must(i, "new", lambda: make(sim.p[st["p"]], st["kind"],
                                            st["spec"])).value
        sim.objs[st["id"]] = [st["kind"], st["p"], c]
        sim.specs[st["id"]] = copy.deepcopy(st["spec"])
        return
    if st["id"] not in sim.objs and op not in ("load", "restart", "shipped"):
        return
    if op == "change":
        kind, pi, c = sim.objs[st["id"]]
        names = list(c.get_pars())
        if not names:
            return
        n = rng.choice(names)
        change(run, sim, i, c.get_par(n), st["set"], kind)
        sim.events += 1
    elif op == "state":
        kind, pi, c = sim.objs[st["id"]]
        names = list(c.get_pars())
        if kind == "spectra" or not names:
            return
        n = rng.choice(names)
        run.must(i, op, lambda: common.set_state(c.get_par(n), st["state"]))
        sim.events += 1
    elif op == "grow":
        grow(run, sim, i, st, rng)
    elif op == "query":
        kind, pi, c = sim.objs[st["id"]]
        query(run, i, kind, c)
    elif op == "dump":
        go, versions = sim.dumper(st, st["id"])
        before = obs(sim.objs[st["id"]][0], sim.objs[st["id"]][2])
        pi = sim.objs[st["id"]][1]
        out = run.must(i, "dump_to_file", go)
        sim.after(versions, out.ok)
        if not out.ok:
            sim.events += 1
            run.w.full = False
        if not sim.p[pi].dead:
            d = diff(before, obs(sim.objs[st["id"]][0],
                                 sim.objs[st["id"]][2]))
            run.check(d is None, "dump-changes-config",
                      "writing a config changed it: %s" % d)
            leftovers(run, sim, out.faults)
        elif sim.p[pi].dead:
            restart(run, sim, pi)
        sim.audit()
        if len(versions) and sim.events:
            run.nontrivial = True
        run.state("c01", op, st["dir"], st["fname"], out.describe()[:30],
                  len(sim.files))
    elif op == "both":
        both(run, sim, i, st)
    elif op == "load":
        load(run, sim, i, st, rng)
    elif op == "restart":
        sim.p[0].kill() if st["how"] == "kill" else sim.p[0].exit()
        restart(run, sim, 0)
        sim.events += 1
    elif op == "shipped":
        shipped(run, sim, i, rng)


def leftovers(run, sim, faults):
    extra = [q for q in run.disk.files if q not in sim.files and
             q.startswith("/work")]
    # with a second fault, the clean-up may have failed as well
    run.check(not extra or len(faults) > 1, "stray-file",
              "writing a config left %s behind" % extra)
    for q in extra:
        run.disk.files.pop(q)


def restart(run, sim, pi):
    for k in [k for k, v in sim.objs.items() if v[1] == pi]:
        sim.objs.pop(k)
    for q in [q for q in run.disk.files if q not in sim.files and
              q.startswith("/work")]:
        run.disk.files.pop(q)         # left by a process that was killed
    sim.p[pi] = run.proc()


def change(run, sim, i, par, what, kind):
    """set_par has the effect of making the parameter with these values."""
    before = common.plain(par.to_dict())
    if what.get("logscale") and "low" not in what and before["low"] <= 0.:
        what = dict(what, low=0.25)
    if kind != "spectra":
        low = what.get("low", before["low"])
        high = what.get("high", before["high"])
        log = what.get("logscale", before.get("logscale"))
        if low >= high or (log and low <= 0.) or \
                (before.get("logscale_deviation") and not log and (
                    what.get("bins", before["bins"]) < 3 or
                    not low < what.get("prior", before["prior"]) < high)):
            return
    elif what.get("low", before["low"]) >= what.get("high", before["high"]):
        return
    run.must(i, "set_par", lambda: par.set_par(**what))
    want = dict(before, **what)
    got = common.plain(par.to_dict())
    for k in ("low", "high", "bins", "prior", "sigma"):
        d = diff(want.get(k), got.get(k), 0., k)
        run.check(d is None, "set-par", "after set_par(%s): %s" % (what, d))
    if kind != "spectra":
        values_right(run, par, want)


def values_right(run, par, want):
    """The values are those of the present bounds and scale."""
    v = numpy.array(par.get_values())
    run.check(len(v) == want["bins"], "values", "%d bins, but %d values"
              % (want["bins"], len(v)))
    low, high, n = float(want["low"]), float(want["high"]), want["bins"]
    if want.get("logscale"):
        exp = numpy.exp(numpy.linspace(math.log(low), math.log(high), n))
    elif not want.get("logscale_deviation"):
        exp = numpy.linspace(low, high, n)
    else:
        prior = want["prior"]
        if low <= prior <= high and low < high:
            run.check(numpy.all(numpy.diff(v) > 0.) and
                      numpy.isclose(v, prior, rtol=1e-9, atol=1e-9).any() and
                      numpy.isclose(v[-1], high) and
                      (n < 3 or numpy.isclose(v[0], low)), "values",
                      "values of a logscale deviation: %s for %s"
                      % (v, want))
        return
    d = diff(plain(exp), plain(v), 1e-9)
    run.check(d is None, "values", "values of %s: %s" % (want, d))
    if len(set(v.tolist())) == n:
        for k in range(n):
            run.check(par.get_value_index(par.get_value_at(k)) == k,
                      "value-index", "index of value %d" % k)


def query(run, i, kind, c):
    names = [str(n) for n in c.get_pars()]
    run.check(tuple(int(x) for x in c.get_shape()) == tuple(
        int(c.get_par(n).get_bins()) for n in names), "shape",
        "shape %s" % (c.get_shape(),))
    for k, n in enumerate(names):
        run.check(c.get_index(n) == k and c.get_par_by_index(k) is
                  c.get_par(n), "index", "index of %s" % n)


def grow(run, sim, i, st, rng):
    """add_par, or add_config of another config to a global one"""
    kind, pi, c = sim.objs[st["id"]]
    before = obs(kind, c)
    p = sim.p[pi]
    if kind == "spectra":
        name = rng.choice(["extra_mc", "late_reco"])
        par = p.imp("echidna.core.parameter").SpectraParameter(
            name, 0., 3., 6)
        run.must(i, "add_par", lambda: c.add_par(par))
        want = [x for x in before["pars"]]
        new = [name, 0., 3., 6]
        names = [x[0] for x in want]
        if name in names:
            want[names.index(name)] = new
        else:
            want.append(new)
        d = diff(want, obs_config(c)["pars"])
        run.check(d is None, "add-par", "after add_par: %s" % d)
    elif kind == "global":
        others = [k for k, v in sim.objs.items() if v[1] == pi and
                  v[0] != "spectra" and k != st["id"]]
        if not others:
            return
        k = rng.choice(others)
        okind, _, oc = sim.objs[k]
        o = obs(okind, oc)
        run.must(i, "add_config", lambda: c.add_config(oc))
        add = []
        if okind == "global":
            add = [x for x in o["pars"] if x[1]] + \
                  [x for x in o["pars"] if not x[1]]
        else:
            for n, x in o["pars"]:
                x = dict(x, name=o["spectra"] + "_" + n)
                add.append([x["name"], False, x])
            # its parameters have become those of the global config
            sim.objs.pop(k)
        want = copy.deepcopy(before["pars"])
        for x in add:
            names = [y[0] for y in want]
            if x[0] in names:
                want[names.index(x[0])] = x
            else:
                want.append(x)
        got = obs(kind, c)["pars"]
        d = diff(want, got)
        run.check(d is None, "add-config", "after add_config: %s" % d)
        if okind == "global":
            sim.objs.pop(k)          # they share parameters from now on
    else:
        par = common.make_par(p, {"cls": "Rate", "name": "late_rate",
                                  "args": {"prior": 1., "sigma": None,
                                           "low": 0., "high": 2.,
                                           "bins": 3}})
        run.must(i, "add_par", lambda: c.add_par(par))
    sim.events += 1


def both(run, sim, i, st):
    """Two processes write, and one of them then reads, at the same time."""
    a, b = st["id"], st["other"]
    if b not in sim.objs or a not in sim.objs:
        return
    kind, pi, c = sim.objs[a]
    # the second writer has its own copy of the other config
    okind, opi, oc = sim.objs[b]
    oo = obs(okind, oc)
    if okind != kind or pi != 0 or opi != 0:
        return
    p1 = sim.p[1]
    twin = make(p1, okind, sim.specs.get(b) or {})
    keep = sim.objs
    go_a, va = sim.dumper(st, a)
    sim.objs = dict(keep)
    sim.objs["twin"] = [okind, 1, twin]
    try:
        go_b, vb = sim.dumper(st, "twin")
    finally:
        sim.objs = keep
    reader = run.proc()
    seen = []

    def read():
        for q, v in va + vb:
            for _ in range(3):
                if q not in run.disk.files:
                    run.w.seam(reader, "fs.stat", q)
                    continue
                seen.append((q, sim.load(reader, q, sim.files.get(q, []) + [
                    x for y, x in va + vb if y == q], "")))

    box = []

    def steps():
        box.extend(Scheduler(run.w, random.Random(st["r"])).run(
            [go_a, go_b, read]))
    out = run.must(i, "concurrent dumps", steps)
    run.w.full = False
    oks = []
    for (ok, value), versions, pidx in zip(box[:2], (va, vb), (0, 1)):
        oks.append(ok)
        if not ok and not (isinstance(value, SimKilled) or out.faults):
            raise value
    if not box[2][0] and not out.faults:
        raise box[2][1]
    possible = {}
    for ok, versions in zip(oks, (va, vb)):
        for q, v in versions:
            possible.setdefault(q, []).append((ok, v))
    for q, got in seen:
        if got[1] is None and len(set(v[1] for v in sim.files.get(
                q, []) + [x for _, x in possible[q]] if v)) > 1:
            continue      # the kind of the file changed between two readers
        old = [v for v in sim.files.get(q, []) if v is not None]
        every = old + [v for _, v in possible[q]]
        run.check(any(sim.matches(q, v, got, "") for v in every),
                  "torn-read", lambda: "%s was read, while it was written, "
                  "as something that was never written: %s"
                  % (q, sim.explain(q, every[-1], got, "")))
    for q, pv in possible.items():
        done = [v for ok, v in pv if ok]
        rest = [v for ok, v in pv if not ok]
        if done:
            # with one writer finished, the file is of any of the two
            self_old = []
        else:
            self_old = sim.files.get(q, [None])
        sim.files[q] = self_old + done + rest
        if q not in run.disk.files:
            run.check(None in sim.files[q], "file-gone",
                      "%s is gone after concurrent writes" % q)
            sim.files[q] = [None]
    for pi in (0, 1):
        if sim.p[pi].dead:
            restart(run, sim, pi)
    if not any(isinstance(v, SimKilled) for _, v in box):
        leftovers(run, sim, out.faults)
    sim.audit()
    run.probe("concurrent")
    run.nontrivial = True


def load(run, sim, i, st, rng):
    have = sorted(q for q, v in sim.files.items()
                  if q in run.disk.files and v[0] is not None)
    if not have:
        return
    q = rng.choice(have)
    p = sim.p[st["p"]]
    if p.dead:
        return
    cfg = p.imp("echidna.core.config")
    versions = sim.files[q]
    name = st["name"]
    # a global file, perhaps together with a spectral one
    second = None
    if versions[-1][1] == "global" and rng.random() < 0.6:
        cand = [x for x in have if sim.files[x][-1][1] == "spectral"]
        if cand:
            second = rng.choice(cand)

    def go():
        if second:
            return ("global", cfg.GlobalFitConfig.load_from_file(
                q, second, name))
        out = sim.load(p, q, versions, name)
        return out
    out = run.must(i, "load_from_file", go)
    if p.dead:
        restart(run, sim, st["p"])
    if not out.ok:
        sim.events += 1
        return
    if not second:
        sim.settle(q, versions, out.value, name)
    else:
        c = out.value[1]
        got = obs("global", c)
        n = sim.name_of(q, name, "global") if name is not None \
            else "global_fit_config"
        fits = []
        for v in sim.files[q]:
            for s in sim.files[second]:
                want = sim.expected(q, v, name, "global")
                more = sim.expected(second, s, name, "specfit")["pars"]
                want["name"] = n
                want["pars"] = want["pars"] + [[a, False, b]
                                               for a, b in more]
                fits.append(diff(want, got))
        run.check(None in fits, "file-differs", "%s with %s loads "
                  "differently: %s" % (q, second, fits[-1]))
        if st["adopt"] and st["p"] in (0, 1) and not sim.p[st["p"]].dead:
            sim.objs[100 + i] = ["global", st["p"], c]
            sim.specs[100 + i] = None
    if sim.events:
        run.nontrivial = True
    run.probe("loaded")


def shipped(run, sim, i, rng):
    """The example files that echidna comes with load and write back."""
    base = "/repo/echidna/config/"
    pairs = {"fit_example.yml": "global", "fit_example2.yml": "global",
             "spectra_example.yml": "spectra",
             "spectra_example2.yml": "spectra",
             "spectra_fit_example.yml": "spectral"}
    name = rng.choice(sorted(pairs))
    if not os.path.exists(base + name):
        return
    with open(base + name, "rb") as f:
        raw = f.read()
    path = "/work/" + name
    run.disk.put_bytes(path, raw)
    p = run.proc()
    part = pairs[name]
    import yaml
    loose = yaml.safe_load(raw)
    kind, o = run.must(i, "load_from_file", lambda: sim.load(
        p, path, [(None, part)], "")).value
    run.check(o is not None, "example", "%s does not load" % name)
    flat = {}
    for top in loose.values():
        for k, v in top.items():
            if part == "global":
                for s, w in v.items():
                    flat[k + "_" + s] = w
            else:
                flat[k] = v
    got = {x[0]: x for x in o["pars"]}
    run.check(sorted(flat) == sorted(got), "example", "%s loads with "
              "parameters %s" % (name, sorted(got)))
    for n, w in flat.items():
        x = got[n]
        have = {"low": x[1], "high": x[2], "bins": x[3]} \
            if kind == "spectra" else x[-1]
        for k, v in w.items():
            if k in have:
                d = diff(plain(v), have[k], 1e-12) if v is not None and \
                    not isinstance(v, str) else None
                run.check(d is None, "example", "%s: %s %s: %s"
                          % (name, n, k, d))
    run.disk.files.pop(path)
    p.exit()
