"""A model of the spectrum/results files, run against echidna.output.store.

Plan steps (executed in order; a step whose process or object is gone is
skipped):

 {"op": "new", "id", "p", "kind", "spec"}        build an object
 {"op": "ops", "id", "list": [...]}              change a spectrum
 {"op": "save", "id", "path", "append", "overwrite", "group"}
 {"op": "load", "path", "group", "kind", "p", "as", "then": [ops]}
 {"op": "restart", "p", "how": "exit"|"kill"}    new process, objects lost
 {"op": "jump", "dt"}                            clock moves
 {"op": "other", "path"}                         unrelated file appears

The model keeps, per file and group, the observations a later load may give
and whether it may fail instead.
"""
import copy

from . import common
from .common import diff, plain

GROUP = {"fit": "fit_results", "limit": "limit_results"}


class Entry(object):
    """What a group may load as."""

    def __init__(self, kind, obs, twin=None):
        self.kind = kind
        self.allowed = [obs]
        self.fail_ok = False      # loading may raise
        self.absent_ok = False


class StoreSim(object):
    def __init__(self, run, name):
        self.run = run
        self.name = name
        self.procs = {}
        self.objs = {}            # id -> (p, kind, object)
        self.files = {}           # path -> {group: Entry}
        self.other = {}           # path -> fingerprint of unrelated files
        self.saves = self.loads = 0
        self.audits = 0

    # -- processes --------------------------------------------------------
    def proc(self, p):
        q = self.procs.get(p)
        if q is None or q.dead:
            if q is not None:
                for k in [k for k, v in self.objs.items() if v[0] == p]:
                    del self.objs[k]
            q = self.procs[p] = self.run.proc(host="node%d" % p)
            q.imp("echidna.output.store")
        return q

    # -- objects ----------------------------------------------------------
    def build(self, p, kind, spec):
        if kind == "spectrum":
            return common.make_spectrum(p, spec)
        if kind == "fit":
            return make_grid(p, spec)
        if kind == "limit":
            return make_limit(p, spec)
        if kind == "ndarray":
            return make_holder(p, spec)
        raise ValueError(kind)

    def observe(self, kind, o):
        return {"spectrum": common.obs_spectrum, "fit": common.obs_grid,
                "limit": common.obs_limit, "ndarray": obs_holder}[kind](o)

    # -- steps ------------------------------------------------------------
    def execute(self, steps):
        for i, st in enumerate(steps):
            getattr(self, "do_" + st["op"])(i, st)

    def do_new(self, i, st):
        p = self.proc(st["p"])
        out = self.run.must(i, "build-" + st["kind"], lambda: self.build(
            p, st["kind"], st["spec"]))
        if out.ok:
            self.objs[st["id"]] = (st["p"], st["kind"], out.value)
            if st["kind"] == "spectrum":
                spec = st["spec"]
                name = spec["name"].rsplit("_", 1)
                want = spec.get("background") or (
                    name[0] if name[-1] in ("mc", "reco", "mix") else None)
                got = self.observe("spectrum", out.value)["background"]
                self.run.check(got == want, "background-name", lambda: "the "
                               "background of %s is called %r"
                               % (spec["name"], got))

    def do_ops(self, i, st):
        if st["id"] not in self.objs:
            return
        pid, kind, o = self.objs[st["id"]]
        p = self.proc(pid)
        if st["id"] not in self.objs:
            return
        for op in st["list"]:
            self.run.must(i, "op-" + op["k"],
                          lambda: APPLY[kind](p, o, op))
            self.run.state("op", op["k"])

    def do_restart(self, i, st):
        p = self.procs.get(st["p"])
        if p is not None and not p.dead:
            p.kill() if st["how"] == "kill" else p.exit()
        self.proc(st["p"])

    def do_jump(self, i, st):
        self.run.w.now += st["dt"]

    def do_other(self, i, st):
        data = ("unrelated %s\n" % st["path"]).encode()
        self.run.disk.put_bytes(st["path"], data)
        self.other[st["path"]] = data

    def group_of(self, kind, st):
        return GROUP.get(kind) or st.get("group") or "spectrum"

    def do_save(self, i, st):
        run = self.run
        if st["id"] not in self.objs:
            return
        pid, kind, o = self.objs[st["id"]]
        p = self.proc(pid)
        if st["id"] not in self.objs:
            return
        store = p.imp("echidna.output.store")
        path = st["path"]
        append = st.get("append", False) and kind != "ndarray"
        over = st.get("overwrite", False) and kind == "spectrum"
        g = self.group_of(kind, st)
        before = self.observe(kind, o)
        old = self.files.get(path)
        torn_before = old is not None and any(e.fail_ok for e in old.values())

        def go():
            if kind == "spectrum":
                kw = {}
                if append:
                    kw["append"] = True
                if over:
                    kw["overwrite"] = True
                if g != "spectrum":
                    kw["group_name"] = g
                store.dump(path, o, **kw)
            elif kind == "fit":
                store.dump_fit_results(path, o, append=append)
            elif kind == "limit":
                store.dump_limit_results(path, o, append=append)
            else:
                store.dump_ndarray(path, o)
        nofile = path not in run.disk.files
        out = run.step(i, go)
        self.saves += 1
        run.state("save", kind, append, over, g != "spectrum",
                  old is not None, out.describe().split(":")[0])
        if not out.killed:
            d = diff(before, self.observe(kind, o))
            run.check(d is None, "save-changes-object",
                      "saving changed the %s itself: %s" % (kind, d))
        clash = (append and not over and old is not None and g in old
                 and not old[g].absent_ok)
        unnamed = kind == "spectrum" and before["background"] is None
        after_close = [f for f in out.faults
                       if f[1] in ("h5.close", "h5.open_a", "h5.open_w")]
        if out.ok:
            run.check(not unnamed, "unnamed-saved",
                      "a spectrum without a background name was saved")
            run.check(not (clash and not old[g].fail_ok), "clash-saved",
                      "saving to the existing group %s of %s without "
                      "overwrite succeeded" % (g, path))
            new = Entry(kind, before)
            if append and old is not None:
                old[g] = new
            else:
                self.files[path] = {g: new}
        elif out.raised and not out.faults:
            run.check(unnamed or clash or (append and torn_before) or
                      before_bad(kind, o), "save-raises-%s"
                      % type(out.exc).__name__,
                      lambda: "saving a %s to %s failed with no fault: %s at"
                      " %s" % (kind, path, out.describe(), where(out.exc)))
            run.probe("save-refused")
            if nofile and path in run.disk.files:
                # an empty file may have been made; nothing may load from it
                self.files.setdefault(path, {})
            elif not append and not unnamed and old is not None:
                for e in old.values():
                    e.fail_ok = True
            elif clash and old is not None and not torn_before:
                pass        # must be as it was
        else:
            # failed or killed part way
            run.nontrivial = True
            run.probe("save-interrupted")
            whole = self.files.setdefault(path, {})
            lossy = out.killed or not append or bool(after_close)
            for h, e in list(whole.items()):
                if lossy:
                    e.fail_ok = True
                    if not append:
                        e.absent_ok = True
            if not append or g not in whole:
                e = whole.get(g)
                if e is None:
                    e = whole[g] = Entry(kind, before)
                else:
                    e.allowed.append(before)
                    e.kind = kind
                e.fail_ok = e.absent_ok = True
            elif over:
                e = whole[g]
                e.allowed.append(before)
                e.fail_ok = e.absent_ok = True
            # (append without overwrite on an existing group: refused, so
            # unless the file was lost that group is as it was)
        self.audit(i)
        if st.get("retry") and not out.ok and not unnamed:
            self.retry(i, st, kind, o, before, path, g)

    def retry(self, i, st, kind, o, before, path, g):
        """After a failure the same object can be saved afresh."""
        run = self.run
        pid = self.objs[st["id"]][0]
        p = self.procs[pid]
        if p.dead:
            return
        store = p.imp("echidna.output.store")

        def go():
            {"spectrum": store.dump, "fit": store.dump_fit_results,
             "limit": store.dump_limit_results,
             "ndarray": store.dump_ndarray}[kind](path, o)
        run.must(20000 + i, "retry-save", go)
        g = GROUP.get(kind, "spectrum")
        self.files[path] = {g: Entry(kind, before)}
        run.probe("save-retried")
        self.audit(i)

    def load(self, p, kind, path, g):
        store = p.imp("echidna.output.store")
        if kind == "spectrum":
            if g != "spectrum":
                return store.load(path, group_name=g)
            return store.load(path)
        if kind == "fit":
            return store.load_fit_results(path)
        if kind == "limit":
            return store.load_limit_results(path)
        return store.load_ndarray(path, empty_holder(p))

    def match(self, e, got, what):
        ds = [diff(a, got) for a in e.allowed]
        self.run.check(any(d is None for d in ds), "loaded-differs",
                       lambda: "%s is not what was saved: %s"
                       % (what, "; ".join(str(d) for d in ds)))

    def audit(self, i):
        """A fresh process loads everything that was ever saved."""
        run = self.run
        self.audits += 1
        aud = run.proc(host="audit")
        aud.imp("echidna.output.store")
        for path, groups in self.files.items():
            for g, e in groups.items():
                out = run.step(10000 + i, lambda: self.load(aud, e.kind,
                                                            path, g))
                if out.ok:
                    self.match(e, self.observe(e.kind, out.value),
                               "group %s of %s" % (g, path))
                    if e.kind == "spectrum":
                        run.check(plain(out.value._location) == path,
                                  "location", "a loaded spectrum does not "
                                  "know its file %s" % path)
                elif not e.fail_ok:
                    run.check(False, "saved-data-lost",
                              lambda: "group %s of %s cannot be loaded: %s at"
                              " %s" % (g, path, out.describe(),
                                       where(out.exc)))
        aud.exit()
        for path, data in self.other.items():
            n = run.disk.files.get(path)
            run.check(n is not None and n.data == data, "other-file-touched",
                      "unrelated file %s was changed" % path)

    def do_load(self, i, st):
        run = self.run
        p = self.proc(st["p"])
        path, kind = st["path"], st["kind"]
        g = self.group_of(kind, st)
        e = self.files.get(path, {}).get(g)
        out = run.step(i, lambda: self.load(p, kind, path, g))
        self.loads += 1
        if e is None or e.kind != kind:
            # nothing of the kind was ever saved there
            if out.ok and kind != "ndarray":
                run.check(False, "loaded-nothing",
                          "loading %s of %s, where no such %s was saved, "
                          "gave one" % (g, path, kind))
            return
        if not out.ok:
            if out.faults:
                run.nontrivial = True
                run.probe("load-interrupted")
                return
            run.check(e.fail_ok or out.killed, "saved-data-lost",
                      lambda: "group %s of %s cannot be loaded: %s at %s"
                      % (g, path, out.describe(), where(out.exc)))
            return
        if out.faults:
            run.nontrivial = True
            run.probe("load-survived-fault")
        got = self.observe(kind, out.value)
        self.match(e, got, "group %s of %s" % (g, path))
        run.state("load", kind, e.fail_ok)
        if not out.faults:
            run.nontrivial = True
        if st.get("as") is not None:
            self.objs[st["as"]] = (st["p"], kind, out.value)
        # the loaded object behaves like the one that was saved
        src = st.get("twin")
        if src in self.objs and self.objs[src][0] == st["p"] and \
                st.get("then"):
            twin = copy.deepcopy(self.objs[src][2])
            if diff(self.observe(kind, twin), got) is None:
                mine = copy.deepcopy(out.value)
                for op in st["then"]:
                    a = run.step(30000 + i, lambda: APPLY[kind](p, twin, op))
                    b = run.step(40000 + i, lambda: APPLY[kind](p, mine, op))
                    run.check(a.ok == b.ok, "loaded-behaves-differently",
                              lambda: "%s on the original %s, on the loaded "
                              "%s %s" % (op, a.describe(), kind,
                                         b.describe()))
                    d = diff(plain(a.value), plain(b.value))
                    run.check(d is None, "loaded-behaves-differently",
                              "%s gives another answer on the loaded %s: %s"
                              % (op, kind, d))
                    d = diff(self.observe(kind, twin),
                             self.observe(kind, mine))
                    run.check(d is None, "loaded-behaves-differently",
                              "after %s the loaded %s differs from the"
                              " original: %s" % (op, kind, d))
                run.probe("twin-compared")


def where(exc):
    import traceback
    if exc is None:
        return "?"
    tb = [t for t in traceback.extract_tb(exc.__traceback__)
          if t.filename.startswith("/repo/")]
    return "%s:%s" % (tb[-1].filename[6:], tb[-1].lineno) if tb else "?"


def before_bad(kind, o):
    return False


# -- other kinds of object ------------------------------------------------

def grid_fn(seed, per_bin, shape, npars):
    """A deterministic objective, different at every point."""
    import numpy
    r = numpy.random.RandomState(seed)
    centre = r.uniform(-2, 60, npars)
    scale = r.uniform(0.5, 3, npars)
    base = r.uniform(0.1, 1., shape) if per_bin else None

    def f(*v):
        t = sum(float(a) * abs(float(x) - float(c))
                for a, x, c in zip(scale, v, centre))
        pen = 0.01 * sum(float(x) for x in v)
        return (base * t if per_bin else t), pen
    return f


class Penalty(object):
    def get_penalty_term(self, value, prior, sigma):
        return ((value - prior) / sigma) ** 2


def _at(shape, fr):
    return tuple(min(int(f * n), n - 1) for f, n in zip(fr, shape))


def grid_op(p, g, op):
    import numpy
    k = op["k"]
    fc = g.get_fit_config()
    shape = fc.get_shape()
    at = _at(shape, op.get("at", [])) if len(op.get("at", [])) >= \
        len(shape) else tuple(0 for _ in shape)
    at = at[:len(shape)]
    if k == "setstat":
        cell = g.get_spectra_config().get_shape() if g._per_bin else ()
        g.set_stat(numpy.array(numpy.ones(cell) * op["v"]), at)
        g.set_penalty_term(op["v"] / 3., at)
    elif k == "reset":
        g.reset_grids()
    elif k == "minimise":
        out = g.minimise(grid_fn(op["seed"], g._per_bin,
                                 g.get_spectra_config().get_shape(),
                                 len(shape)), Penalty())
        return [plain(numpy.array(out[0])), plain(numpy.array(out[1]))]
    elif k == "query":
        vals = {n: fc.get_par(n).get_value_at(i)
                for n, i in zip(fc.get_pars(), at)}
        out = [plain(g.get_stat(at)), plain(g.get_penalty_term(at)),
               plain(numpy.array(g.get_raw_stat(at))),
               plain(g.get_stats()), plain(g.get_raw_stats()),
               plain(g.get_penalty_at(**vals))]
        out += [plain(numpy.array(g.get_scales(n))) for n in fc.get_pars()]
        n = list(fc.get_pars())[op.get("par", 0) % len(shape)]
        out.append(plain(numpy.array(g.get_raw_stats(**{n: vals[n]}))))
        return out
    return None


def limit_op(p, r, op):
    k = op["k"]
    n = len(r.get_scales())
    i = min(int(op.get("at", [0.])[0] * n), n - 1)
    pars = list(r.get_fit_config().get_pars())
    par = pars[op.get("par", 0) % len(pars)]
    if k == "setstat":
        if getattr(r.get_stats(), "ndim", 1) == 1:
            r.set_limit_stat(i, op["v"])
        r.set_best_fit(i, op["v"] + 1., par)
        r.set_penalty_term(i, op["v"] / 2., par)
        f = r._fit_results[i]
        if f is not None:
            q = f.get_fit_config().get_par(par)
            q.set_best_fit(op["v"] + 1.)
            q.set_penalty_term(op["v"] / 2.)
    elif k == "query":
        out = [plain(r.get_full_stat(i)), plain(r.get_full_stats()),
               plain(r.get_best_fit(i, par)), plain(r.get_best_fits(par)),
               plain(r.get_penalty_terms_at_scale(i)),
               plain(r.get_penalty_term(i, par)),
               plain(r.get_penalty_terms(par)), plain(r.get_scales())]
        f = r._fit_results[i]
        if f is not None:
            out.append(grid_op(p, f, op))
        return out
    elif k == "minimise":
        f = r._fit_results[i]
        if f is not None:
            out = grid_op(p, f, op)
            for par in pars:
                q = f.get_fit_config().get_par(par)
                r.set_best_fit(i, q.get_best_fit(), par)
                r.set_penalty_term(i, q.get_penalty_term(), par)
            return out
    return None


APPLY = {"spectrum": common.apply_op, "fit": grid_op, "limit": limit_op,
         "ndarray": lambda p, o, op: None}


def rand_result_ops(rng, n):
    out = []
    for _ in range(n):
        out.append({"k": rng.choice(["query", "query", "setstat", "minimise",
                                     "reset"]),
                    "at": [round(rng.random(), 3) for _ in range(3)],
                    "v": rng.choice([0., 2.5, 1. / 3.]),
                    "par": rng.randrange(3),
                    "seed": rng.randrange(1000)})
    return out

def make_grid(p, spec):
    """spec: global config, spectra config, name, per_bin, seed, resets"""
    mod = p.imp("echidna.fit.minimise")
    fc = common.make_global(p, spec["fit"])
    sc = common.make_config(p, spec["config"])
    kw = {"per_bin": spec.get("per_bin", False)}
    if spec.get("name"):
        kw["name"] = spec["name"]
    g = mod.GridSearch(fc, sc, **kw)
    for _ in range(spec.get("resets", 0)):
        g.reset_grids()
    g.set_stats(common.make_data(g._stats.shape, spec["data"],
                                 spec.get("shape", "uniform")))
    g.set_penalty_terms(common.make_data(g._penalty_terms.shape,
                                         spec["data"] + 1, "uniform"))
    return g


def rand_grid(rng, tier="quick", per_bin=None):
    fit = common.rand_global_config(rng)
    for q in fit["pars"]:
        q["args"]["bins"] = min(q["args"]["bins"], 4)
        if q["args"].get("logscale_deviation"):
            q["args"]["bins"] = 3
    cfg = {"name": "config", "pars": common.rand_axes(rng, tier)}
    for a in cfg["pars"]:
        a[3] = min(a[3], 4)
    return {"fit": fit, "config": cfg,
            "name": rng.choice([None, "grid", "my_fit_1"]),
            "per_bin": rng.random() < 0.4 if per_bin is None else per_bin,
            "resets": rng.choice([0, 0, 1, 3]),
            "data": rng.randrange(10 ** 6),
            "shape": rng.choice(["uniform", "counts", "wide"])}


def make_limit(p, spec):
    mod = p.imp("echidna.fit.fit_results")
    fc = common.make_global(p, spec["fit"])
    sc = common.make_config(p, spec["config"])
    lc = common.make_fit_config(p, spec["limit"], spec["signal"])
    r = mod.LimitResults(fc, sc, lc, spec.get("name"))
    n = lc.get_par("rate").get_bins()
    import numpy
    rs = numpy.random.RandomState(spec["data"])
    for i in range(n):
        r.set_limit_stat(i, float(rs.uniform(0, 9)))
        for par in fc.get_pars():
            if spec.get("best", True):
                r.set_best_fit(i, float(rs.uniform(0, 9)), par)
            if spec.get("pen", True):
                r.set_penalty_term(i, float(rs.uniform(0, 2)), par)
    if spec.get("cancel") and n > 1:
        # values that cancel one another
        for par in fc.get_pars():
            for i in range(n):
                v = [1.5, -1.5][i] if i < 2 else 0.
                r.set_best_fit(i, v, par)
    if spec.get("perbin"):
        r._stats = common.make_data((n,) + sc.get_shape(), spec["data"],
                                    "uniform")
    for i in spec.get("stored", []):
        if i >= n:
            continue
        g = p.imp("echidna.fit.minimise").GridSearch(
            copy.deepcopy(fc), sc, name=fc.get_name(),
            per_bin=spec.get("perbin", False))
        for _ in range(spec.get("resets", 0)):
            g.reset_grids()
        g.set_stats(common.make_data(g._stats.shape, spec["data"] + i,
                                     "uniform"))
        g.set_penalty_terms(common.make_data(
            g._penalty_terms.shape, spec["data"] + 100 + i, "uniform"))
        for par in fc.get_pars():
            q = g.get_fit_config().get_par(par)
            q.set_best_fit(r.get_best_fit(i, par))
            q.set_penalty_term(r.get_penalty_term(i, par))
        r.set_fit_result(i, g)
    return r


def rand_limit(rng, tier="quick"):
    s = rand_grid(rng, tier)
    n = rng.choice([1, 2, 3, 5])
    rate = common.rand_rate(rng)
    rate["args"]["bins"] = n
    if rate["args"].get("logscale_deviation"):
        rate["args"]["bins"] = n = 3
    out = {"fit": s["fit"], "config": s["config"],
           "limit": {"name": rng.choice(["lim", "a limit"]),
                     "pars": [rate]},
           "signal": rng.choice(common.NAMES), "data": s["data"],
           "name": rng.choice([None, "my_limit"]),
           "perbin": rng.random() < 0.3,
           "best": rng.random() < 0.9, "pen": rng.random() < 0.85}
    if rng.random() < 0.15:
        out["cancel"] = True
    out["resets"] = rng.choice([0, 0, 1, 3])
    r = rng.random()
    if r < 0.5:
        out["stored"] = []
    elif r < 0.8:
        out["stored"] = list(range(n))
    else:
        out["stored"] = sorted(rng.sample(range(n), rng.randint(1, n)))
    return out


class Holder(object):
    pass


def make_holder(p, spec):
    h = Holder()
    h._name = spec["name"]
    h._values = common.make_data(tuple(spec["shape"]), spec["data"],
                                 "uniform")
    h._counts = common.make_data((3,), spec["data"] + 1, "counts")
    h._scale = spec["scale"]
    h._flag = spec["flag"]
    h._none = None
    return h


def rand_holder(rng):
    return {"name": rng.choice(["sum", "two words"]),
            "shape": rng.choice([[2], [3, 2], [1, 1, 4]]),
            "data": rng.randrange(10 ** 6),
            "scale": rng.choice([0.1, 3, -1e300]),
            "flag": rng.choice([0, 1])}


def empty_holder(p):
    import numpy
    h = Holder()
    h._name, h._scale, h._flag, h._none = "", 0., 0, None
    h._values = numpy.zeros(1)
    h._counts = numpy.zeros(1)
    return h


def obs_holder(h):
    return {k: plain(v) for k, v in h.__dict__.items()}
