"""Histories of operations on spectra against a reference histogram."""
import math

import numpy

from sim.runner import PlanInvalid
from . import common
from .common import diff, plain


class Ref(object):
    """The reference: edges and contents, nothing else."""

    def __init__(self, spec):
        self.name = spec["name"]
        self.background = spec.get("background")
        self.axes = [list(a) for a in spec["config"]["pars"]]
        self.data = common.make_data(
            tuple(a[3] for a in self.axes), spec["data"],
            spec.get("shape", "counts")) * spec.get("mag", 1.)
        self.decays = float(spec["decays"])
        self.bipo = spec.get("bipo", 0)
        self.raw = spec.get("raw", 0)
        self.rois = {}
        self.style = {"color": "blue"}

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def width(self, k):
        n, lo, hi, b = self.axes[k]
        return (hi - lo) / b

    def edge(self, k, i):
        n, lo, hi, b = self.axes[k]
        return hi if i == b else lo + i * (hi - lo) / b

    def cut_axis(self, k, i, j):
        """Keep bins i..j-1."""
        lo, hi = self.edge(k, i), self.edge(k, j)
        sl = [slice(None)] * len(self.axes)
        sl[k] = slice(i, j)
        self.data = self.data[tuple(sl)].copy()
        self.axes[k] = [self.axes[k][0], lo, hi, j - i]

    def onto(self, ks):
        """Project by adding up, bin by bin."""
        shape = [self.axes[k][3] for k in ks]
        out = numpy.zeros(shape)
        for idx in numpy.ndindex(*self.data.shape):
            out[tuple(idx[k] for k in ks)] += self.data[idx]
        return out


def obs(s):
    c = s.get_config()
    return {"axes": [[str(n), float(c.get_par(n).get_low()),
                      float(c.get_par(n).get_high()),
                      int(c.get_par(n).get_bins())] for n in c.get_pars()],
            "shape": list(numpy.array(s.get_data()).shape),
            "data": plain(numpy.array(s.get_data())),
            "decays": float(s.get_num_decays()),
            "sum": float(s.sum()), "raw": plain(s._raw_events),
            "bipo": int(s.get_bipo()), "rois": plain(s._rois),
            "style": plain(s.get_style())}


def want(m):
    return {"axes": [[a[0], float(a[1]), float(a[2]), a[3]] for a in m.axes],
            "shape": list(m.data.shape), "data": plain(m.data),
            "decays": m.decays, "sum": float(m.data.sum()), "raw": m.raw,
            "bipo": m.bipo, "rois": plain(m.rois), "style": plain(m.style)}


class HistSim(object):
    """A pool of spectra and their references."""

    def __init__(self, run, tol=1e-9):
        self.run = run
        self.tol = tol
        self.p = run.proc()
        self.pool = {}           # id -> [spectrum, Ref]
        self.configs = {}        # id -> config that the caller has kept
        self.ops = 0

    def new(self, i, key, spec):
        run = self.run
        if spec["config"]["pars"] == []:
            raise PlanInvalid("no axes")
        c = self.configs.get(spec.get("config_of"))
        if c is None:
            c = common.make_config(self.p, spec["config"])
        self.configs[key] = c
        out = run.must(i, "new", lambda: common.make_spectrum(
            self.p, spec, c))
        if out.ok:
            self.pool[key] = [out.value, Ref(spec)]

    def check_all(self, what):
        for key, (s, m) in sorted(self.pool.items()):
            d = diff(want(m), obs(s), self.tol)
            self.run.check(d is None, "differs",
                           lambda: "after %s, spectrum %s is not what it "
                           "should be: %s" % (what, key, d))

    def restart(self, i):
        """Everything goes through files to another process."""
        run = self.run
        for key in sorted(self.pool):
            s = self.pool[key][0]
            out = run.must(i, "save", lambda: self.p.imp(
                "echidna.output.store").dump("/work/%s.hdf5" % key, s))
            if not out.ok:
                raise PlanInvalid("save")
        self.p.kill()
        self.p = run.proc()
        self.configs = {}
        for key in sorted(self.pool):
            out = run.must(i, "load", lambda: self.p.imp(
                "echidna.output.store").load("/work/%s.hdf5" % key))
            if not out.ok:
                raise PlanInvalid("load")
            self.pool[key][0] = out.value
        run.probe("restart")

    # -- operations ---------------------------------------------------------
    def op(self, i, st):
        key = st["id"]
        if key not in self.pool:
            return
        s, m = self.pool[key]
        fn = getattr(self, "op_" + st["k"])
        fn(i, st, s, m)
        self.ops += 1

    def refused(self, i, what, fn, only=(Exception,)):
        """A call that must be refused, leaving everything as it was."""
        out = self.run.step(i, fn)
        self.run.check(not out.ok, "accepted",
                       lambda: "%s was accepted" % what)
        self.run.probe("refused")

    def op_fill(self, i, st, s, m):
        idx = [min(int(f * a[3]), a[3] - 1) for f, a in zip(st["at"], m.axes)]
        if len(idx) != len(m.axes):
            return
        kw = {}
        for k, (j, fr, a) in enumerate(zip(idx, st["frac"], m.axes)):
            v = a[1] + (j + fr) * m.width(k)
            if fr == 0. and not exact(m, k):
                v = a[1] + (j + 0.5) * m.width(k)
            if st.get("top") and j == a[3] - 1:
                # the bound itself may differ from ours by a rounding
                v = float(numpy.nextafter(
                    s.get_config().get_par(a[0]).get_high(), a[1]))
            kw[a[0]] = v
        out = self.run.must(i, "fill", lambda: s.fill(
            **dict(kw, **({} if st["weight"] is None else
                          {"weight": st["weight"]}))))
        if out.ok:
            m.data[tuple(idx)] += 1. if st["weight"] is None else st["weight"]

    def op_badfill(self, i, st, s, m):
        kw = {a[0]: (a[1] + a[2]) / 2. for a in m.axes}
        k = st["axis"] % len(m.axes)
        a = m.axes[k]
        how = st["how"]
        if how == "above":
            kw[a[0]] = a[2] + st["by"] * m.width(k)
        elif how == "at-high":
            kw[a[0]] = s.get_config().get_par(a[0]).get_high()
        elif how == "below":
            kw[a[0]] = a[1] - (st["by"] + 1e-3) * m.width(k)
        elif how == "missing":
            kw.pop(a[0])
        elif how == "unknown":
            kw["nothing_mc"] = 1.
        self.refused(i, "filling with %s (axis %s)" % (kw, a),
                     lambda: s.fill(**kw))

    def op_scale(self, i, st, s, m):
        if m.decays == 0.:
            return
        out = self.run.must(i, "scale", lambda: s.scale(st["to"]))
        if out.ok:
            m.data = m.data * (st["to"] / m.decays)
            m.decays = float(st["to"])

    def slicing(self, st, m):
        """keyword arguments and the bins they stand for"""
        kw, todo = {}, []
        for c in st["cuts"]:
            k = c["axis"] % len(m.axes)
            if k in [t[0] for t in todo]:
                continue
            n, lo, hi, b = m.axes[k]
            i = min(int(c["lo"] * b), b - 1)
            j = max(i + 1, int(math.ceil(c["hi"] * b)))
            w = m.width(k)
            if c["side"] != "high":
                # anywhere in bin i; its lower edge is where the cut goes
                kw[n + "_low"] = m.edge(k, i) + c["fl"] * w
            else:
                i = 0
            if c["side"] != "low":
                kw[n + "_high"] = m.edge(k, j) - c["fh"] * w
            else:
                j = b
            if not j > i or kw.get(n + "_high", hi) <= kw.get(n + "_low", lo):
                kw.pop(n + "_low", None)
                kw.pop(n + "_high", None)
                continue
            todo.append((k, i, j))
        return kw, todo

    def op_shrink(self, i, st, s, m):
        kw, todo = self.slicing(st, m)
        if not kw:
            return
        out = self.run.must(i, "shrink", lambda: s.shrink(**kw))
        if out.ok:
            for k, a, b in todo:
                m.cut_axis(k, a, b)

    def op_cut(self, i, st, s, m):
        kw, todo = self.slicing(st, m)
        before = m.data.sum()
        if not kw or not before > 0. or not m.decays:
            return
        out = self.run.must(i, "cut", lambda: s.cut(**kw))
        if out.ok:
            for k, a, b in todo:
                m.cut_axis(k, a, b)
            m.decays *= m.data.sum() / before

    def op_roi(self, i, st, s, m):
        c = dict(st["cuts"][0], side="both")
        kw, todo = self.slicing({"cuts": [c]}, m)
        before = m.data.sum()
        if not kw or not before > 0.:
            return
        k, a, b = todo[0]
        n = m.axes[k][0]
        out = self.run.must(i, "shrink_to_roi", lambda: s.shrink_to_roi(
            kw[n + "_low"], kw[n + "_high"], n))
        if out.ok:
            m.cut_axis(k, a, b)
            m.rois[n] = {"low": m.axes[k][1], "high": m.axes[k][2],
                         "efficiency": float(m.data.sum() / before)}
            d = diff(m.rois[n], plain(s.get_roi(n)), self.tol)
            self.run.check(d is None, "roi", "the region of interest is not "
                           "what was asked for: %s" % d)

    def op_badshrink(self, i, st, s, m):
        k = st["axis"] % len(m.axes)
        n, lo, hi, b = m.axes[k]
        w = m.width(k)
        how = st["how"]
        kw = {}
        if len(m.axes) > 1 and st["also"]:
            # a good cut along another axis, which must not be made
            o = m.axes[(k + 1) % len(m.axes)]
            kw[o[0] + "_low"] = m.edge((k + 1) % len(m.axes), o[3] // 2)
        if how == "below":
            kw[n + "_low"] = lo - (st["by"] + 0.2) * w
        elif how == "above":
            kw[n + "_high"] = hi + (st["by"] + 0.2) * w
        elif how == "unknown":
            kw["nothing_mc_low"] = 0.
        elif how == "low-above":
            # the bounds that are not out of range leave no bins at all
            kw[n + "_low"] = hi + (st["by"] + 0.2) * w
        elif how == "high-below":
            kw[n + "_high"] = lo - (st["by"] + 0.2) * w
        elif how == "turned":
            c = int(st["by"]) % b
            kw[n + "_low"] = m.edge(k, c + (1 if b > c else 0))
            kw[n + "_high"] = m.edge(k, c)
        else:
            kw[n + "_middle"] = (lo + hi) / 2.
        if how not in ("unknown", "suffix") and abs(w * (st["by"] + 0.2)) < \
                1e-4 * max(1., abs(lo), abs(hi)):
            return
        meth = s.cut if st["cut"] and m.data.sum() > 0. else s.shrink
        self.refused(i, "shrinking with %s (axis %s)" % (kw, m.axes[k]),
                     lambda: meth(**kw))

    def op_rebin(self, i, st, s, m):
        new = []
        for (n, lo, hi, b), f in zip(m.axes, st["pick"]):
            divs = [x for x in range(1, b + 1) if b % x == 0]
            new.append(divs[min(int(f * len(divs)), len(divs) - 1)])
        if len(new) != len(m.axes):
            return
        out = self.run.must(i, "rebin", lambda: s.rebin(tuple(new)))
        if out.ok:
            data = numpy.zeros(new)
            old = m.data.shape
            for idx in numpy.ndindex(*old):
                at = tuple(j * q // o for j, q, o in zip(idx, new, old))
                data[at] += m.data[idx]
            m.data = data
            for a, q in zip(m.axes, new):
                a[3] = q

    def op_badrebin(self, i, st, s, m):
        new = [a[3] for a in m.axes]
        k = st["axis"] % len(m.axes)
        if st["how"] == "rank":
            new = new + [1] if st["by"] < 1 else new[:-1]
        else:
            # the first axes may well be rebinned, this one can not
            new = [1] * len(new)
            new[k] = m.axes[k][3] + 1 if st["by"] < 1 or m.axes[k][3] < 3 \
                else m.axes[k][3] - 1
        self.refused(i, "rebinning %s to %s" % ([a[3] for a in m.axes], new),
                     lambda: s.rebin(tuple(new)))

    def op_add(self, i, st, s, m):
        order = list(range(len(m.axes)))
        if st.get("other"):
            if st["other"] not in self.pool:
                return
            x, y = self.pool[st["other"]]
            if y is m:
                return
            same = [a[0].split("_")[0] for a in y.axes] == \
                [a[0].split("_")[0] for a in m.axes] and diff(
                    [a[1:] for a in y.axes], [a[1:] for a in m.axes],
                    1e-12) is None
            if not same:
                return
        else:
            axes = [list(a) for a in m.axes]
            if st["types"]:
                # the same type for all axes, or one for each
                own = st["data"] % 2 and ("mc", "reco", "truth")
                axes = [[a[0].rsplit("_", 1)[0] + "_" +
                         (own[(st["data"] // 2 + k) % 3] if own
                          else st["types"])] + a[1:]
                        for k, a in enumerate(axes)]
            if st["turn"]:
                order = order[::-1] if st["data"] % 3 else \
                    order[1:] + order[:1]
            spec = {"name": "other_mc", "decays": st["decays"],
                    "config": {"name": "c", "pars": [axes[k]
                                                     for k in order]},
                    "data": st["data"], "raw": 3}
            x, y = common.make_spectrum(self.p, spec), Ref(spec)
            if y.data.shape != m.data.shape:
                return              # another shape: may be refused
        out = self.run.must(i, "add", lambda: s.add(x))
        if out.ok:
            m.data = m.data + y.data.transpose(numpy.argsort(order))
            m.decays += y.decays
            m.raw += y.raw
            d = diff(want(y), obs(x), self.tol)
            self.run.check(d is None, "added-changed", "add changed the "
                           "spectrum that was added: %s" % d)

    def op_badadd(self, i, st, s, m):
        axes = [list(a) for a in m.axes]
        k = st["axis"] % len(axes)
        a = axes[k]
        w = m.width(k)
        if st["how"] == "dimension":
            a[0] = "angle_mc" if not a[0].startswith("angle") else "phi_mc"
        elif st["how"] == "bins":
            a[3] += 1
        elif st["how"] == "low":
            a[1] -= max(0.3 * w, 1e-3 * abs(a[1]))
        elif st["how"] == "high":
            a[2] += max(0.3 * w, 1e-3 * abs(a[2]))
        elif st["how"] == "rank":
            axes = axes + [["phi_mc", 0., 1., 1]]
        spec = {"name": "other_mc", "decays": 5.,
                "config": {"name": "c", "pars": axes}, "data": 1, "raw": 3}
        x = common.make_spectrum(self.p, spec)
        self.refused(i, "adding %s to %s" % (axes, m.axes),
                     lambda: s.add(x))

    def op_project(self, i, st, s, m):
        """All projections; asking does not change anything."""
        n = len(m.axes)
        ks = sorted(set(k % n for k in st["axes"]))
        names = [m.axes[k][0] for k in ks]
        ref = m.onto(ks)
        calls = [("nd_project", lambda: s.nd_project(names))]
        if len(ks) == 1:
            calls.append(("project", lambda: s.project(names[0])))
        if len(ks) == 2:
            calls.append(("surface", lambda: s.surface(*names)))
        for what, fn in calls:
            out = self.run.must(i, what, fn)
            if not out.ok:
                self.run.nontrivial = True
                continue
            d = diff(plain(ref), plain(numpy.array(out.value)), self.tol)
            self.run.check(d is None, what, lambda: "%s onto %s of axes %s "
                           "is wrong: %s" % (what, names, m.axes, d))
            try:
                out.value += 7.        # what was given is the caller's own
            except ValueError:
                pass

    def op_interpolate(self, i, st, s, m):
        k = st["axes"][0] % len(m.axes)
        n, lo, hi, b = m.axes[k]
        deg = st.get("deg", 3)
        if b <= deg:
            return
        out = self.run.must(i, "interpolate1d",
                            lambda: s.interpolate1d(n, k=deg))
        if not out.ok:
            self.run.nontrivial = True
            return
        at = [lo + (j + 0.5) * m.width(k) for j in range(b)]
        got = [float(out.value(x)) for x in at]
        y = m.onto([k])
        big = max(1., float(abs(y).max()))
        d = diff([float(v) / big for v in y], [v / big for v in got], 1e-9)
        self.run.check(d is None, "interpolate1d", "the interpolation of %s "
                       "does not go through the contents: %s" % (n, d))

    def op_config(self, i, st, s, m):
        """The caller changes the config that the spectrum was made from."""
        c = self.configs.get(st["id"])
        if c is None:
            return
        q = c.get_par(list(c.get_pars())[st["axis"] % len(m.axes)])
        if st["how"] == "bins":
            q.set_par(bins=q.get_bins() + 3)
        else:
            q.set_par(high=q.get_high() + 1.5)
        self.run.probe("config-changed")

    def op_restart(self, i, st, s, m):
        self.restart(i)

    def op_bipo(self, i, st, s, m):
        s._bipo = m.bipo = st["to"]

    def op_style(self, i, st, s, m):
        s.set_style(st["to"])
        m.style = dict(st["to"])


def exact(m, k):
    """Are the edges of this axis exact binary numbers?"""
    n, lo, hi, b = m.axes[k]
    w = (hi - lo) / b
    return lo * 1024 == int(lo * 1024) and w in (0.25, 0.5, 1., 2.) and \
        b in (1, 2, 4, 8, 16)


# -- random histories -----------------------------------------------------

def rand_hist_op(rng, key, others=()):
    f = lambda: rng.randrange(1000) / 1000.
    k = rng.choice(["fill", "fill", "badfill", "scale", "shrink", "shrink",
                    "cut", "roi", "badshrink", "rebin", "badrebin", "add",
                    "badadd", "project", "project", "interpolate", "restart",
                    "bipo", "config"])
    st = {"op": "op", "k": k, "id": key}
    if k == "fill":
        st.update(at=[f(), f(), f()],
                  frac=[rng.choice([0., 0.5, 0.999, f()]) for _ in range(3)],
                  weight=rng.choice([None, 1., 0.25, 3., -1.]),
                  top=rng.random() < 0.15)
    elif k == "badfill":
        st.update(axis=rng.randrange(3), by=rng.choice([0.01, 0.5, 10.]),
                  how=rng.choice(["above", "at-high", "below", "missing",
                                  "unknown"]))
    elif k == "scale":
        st["to"] = rng.choice([1., 50., 3.3, 1e5, 7])
    elif k in ("shrink", "cut", "roi"):
        st["cuts"] = [{"axis": rng.randrange(3), "lo": f() * 0.5,
                       "hi": 0.5 + f() * 0.5,
                       "fl": rng.choice([0., 0., 0.3, 0.9]),
                       "fh": rng.choice([0., 0., 0.3, 0.9]),
                       "side": rng.choice(["both", "both", "low", "high"])}
                      for _ in range(rng.choice([1, 1, 2]))]
    elif k == "badshrink":
        st.update(axis=rng.randrange(3), by=rng.choice([0., 0.5, 10.]),
                  also=rng.random() < 0.7, cut=rng.random() < 0.4,
                  how=rng.choice(["below", "above", "unknown", "suffix",
                                  "low-above", "high-below", "turned"]))
    elif k == "rebin":
        st["pick"] = [f(), f(), f()]
    elif k == "badrebin":
        st.update(axis=rng.randrange(3), by=rng.choice([0, 1]),
                  how=rng.choice(["rank", "bins", "bins"]))
    elif k == "add":
        st.update(data=rng.randrange(10 ** 6), decays=rng.choice([5., 1]),
                  types=rng.choice([None, None, "mc", "reco"]),
                  turn=rng.random() < 0.4)
        if others and rng.random() < 0.4:
            st["other"] = rng.choice(list(others))
    elif k == "badadd":
        st.update(axis=rng.randrange(3), how=rng.choice(
            ["dimension", "bins", "low", "high", "rank"]))
    elif k in ("project", "interpolate"):
        st["axes"] = [rng.randrange(3) for _ in range(rng.choice([1, 2, 3]))]
        st["deg"] = rng.choice([3, 3, 1, 2])
    elif k == "bipo":
        st["to"] = rng.choice([0, 1])
    elif k == "config":
        st.update(axis=rng.randrange(3), how=rng.choice(["bins", "high"]))
    return st


def rand_hist_spec(rng):
    spec = {"name": rng.choice(common.NAMES) + "_mc",
            "decays": rng.choice([1., 100., 1e4, 0.1, 12345.678, 7]),
            "config": {"name": "config", "pars": common.rand_axes(rng)},
            "data": rng.randrange(10 ** 6),
            "shape": rng.choice(["counts", "counts", "sparse", "uniform"]),
            "raw": rng.choice([0, 1, 1000]), "bipo": rng.choice([0, 0, 1])}
    if rng.random() < 0.2:
        # the same binning along every axis
        b, w = rng.choice([2, 3, 4]), rng.choice([0.5, 1., 0.1])
        spec["config"]["pars"] = [[a[0], 0., b * w, b]
                                  for a in spec["config"]["pars"]]
    elif rng.random() < 0.2:
        # narrow and far from zero
        a = rng.choice(spec["config"]["pars"])
        w = rng.choice([0.25, 1., 2.])
        a[1] = rng.choice([1000., 2000., -500.])
        a[2] = a[1] + w * a[3]
    if rng.random() < 0.2:
        spec["mag"] = rng.choice([1e-6, 1e-4, 1e5])
    return spec
