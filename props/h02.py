"""H02: a systematic moves events, and makes or loses none."""
import math

import numpy
from scipy import interpolate

from . import common
from .common import diff, plain
from .histlib import HistSim, rand_hist_op

ID = "H02"
LEVEL = "exploration"
RULE = ("A run makes a spectrum and applies a random history of scalings, "
        "shifts and smearings (with objects that are reused) and ordinary "
        "operations to it and to the spectra made that way, with interrupts "
        "and memory failures in the middle and restarts in between. Every "
        "result is compared with a reference convolution, and every other "
        "spectrum with what it was. It counts as nontrivial if a convolution "
        "was compared.")
REAL = ["echidna.core.scale", "echidna.core.shift", "echidna.core.smear",
        "echidna.core.parameter", "echidna.core.spectra",
        "echidna.core.config", "echidna.output.store", "numpy", "scipy"]
STUB = ["h5py", "os", "time"]
ASSUMPTIONS = [
    "Contents are not negative and energies are positive.",
    "Smeared contents are compared with the full kernel, to the precision "
    "that cutting it off at 5 sigma leaves; contents scaled or shifted by "
    "interpolation are compared with the same interpolation of the "
    "projection."]
SIZES = {"quick": (12000, 2), "thorough": (200000, 4)}
LINES = True

SHAPES = ("uniform", "uniform", "separable", "counts", "sparse")


def rand_spec(rng):
    nd = rng.choice([1, 1, 2, 2, 3])
    b = rng.choice([4, 6, 10, 16, 24] if nd == 1 else [4, 5, 8])
    w = rng.choice([0.5, 0.25, 0.1, 1.])
    lo = rng.choice([0., 0., 0.5, 1.25, 2.])
    axes = [["energy_" + rng.choice(["mc", "reco"]), lo, lo + w * b, b]]
    if nd > 1:
        r = rng.choice([2, 4, 5])
        axes.append(["radial_" + rng.choice(["mc", "reco"]), 0.,
                     r * rng.choice([100., 250.]), r])
    if nd > 2:
        axes.append(["time_mc", 0., 3., rng.choice([1, 2, 3])])
    rng.shuffle(axes)
    mag = rng.choice([1e-6, 1e-3, 1e5]) if rng.random() < 0.25 else 1.
    return {"mag": mag, "name": rng.choice(common.NAMES) + "_mc",
            "decays": rng.choice([1., 100., 12345.678, 7]),
            "config": {"name": "config", "pars": axes},
            "data": rng.randrange(10 ** 6), "shape": rng.choice(SHAPES),
            "raw": rng.choice([0, 1, 1000]), "bipo": rng.choice([0, 0, 1])}


def rand_conv(rng, key, new):
    k = rng.choice(["scale", "shift", "shift", "bins", "bins", "ly", "ly", "res",
                    "res", "radial"])
    st = {"op": "conv", "k": k, "id": key, "new": new,
          "axis": rng.randrange(3), "reuse": rng.random() < 0.7}
    if k == "scale":
        st["by"] = rng.choice([0.9613, 1.0237, 1.11, 0.8571, 1., 1.4142,
                               0.37])
    elif k == "shift":
        # in units of the bin width
        st["by"] = rng.choice([0.31, -0.47, 1.37, -2.21, 0.07, 1.006, -0.991,
                               -1.9943])
    elif k == "bins":
        st["by"] = rng.choice([0, 1, -1, 2, 3, -3, 5, 40])
        st["direct"] = rng.random() < 0.3
    elif k == "ly":
        st.update(by=rng.choice([203.7, 151.3, 51.27, 20.83]),
                  poisson=rng.random() < 0.6)
    elif k == "res":
        st.update(by=rng.choice([0.0527, 0.0713, 0.1234, 0.0131]),
                  poisson=rng.random() < 0.6)
    else:
        st["by"] = rng.choice([100., 35.5, 260., 3.])
    st["sigmas"] = rng.choice([None, None, None, 5., 3., 2.])
    st["par"] = rng.random() < 0.25
    return st


def generate(rng, tier):
    steps = [{"op": "new", "id": "a", "spec": rand_spec(rng)}]
    ids, fault = ["a"], []
    for n in range(rng.randint(2, 7)):
        if rng.random() < 0.6 and len(ids) < 5:
            new = "bcdef"[len(ids) - 1]
            fault.append({"step": len(steps),
                          "kinds": ["interrupt", "nomem"]})
            steps.append(rand_conv(rng, rng.choice(ids), new))
            ids.append(new)
        else:
            k = rng.choice(ids)
            st = rand_hist_op(rng, k)
            while st["k"] in ("badfill", "badadd", "badrebin", "badshrink",
                              "project", "interpolate"):
                st = rand_hist_op(rng, k)
            if st.get("weight") == -1.:
                st["weight"] = 0.5
            steps.append(st)
            if rng.random() < 0.2:
                steps.append({"op": "op", "k": "style", "id": k,
                              "to": {"color": rng.choice(["red", "k"])}})
    return {"steps": steps, "faultable": fault}


# -- the reference --------------------------------------------------------

def along(m, k):
    """Contents with axis k first, flattened: (bins, rest)."""
    a = numpy.moveaxis(m.data, k, 0)
    return a.reshape(a.shape[0], -1)


def centres(m, k):
    n, lo, hi, b = m.axes[k]
    return numpy.array([lo + (j + 0.5) * (hi - lo) / b for j in range(b)])


def gauss(x, mean, sigma):
    return math.exp(-0.5 * ((x - mean) / sigma) ** 2)


def poisson(x, mean, ly):
    n, lam = int(x * ly), mean * ly
    return math.exp(n * math.log(lam) - math.lgamma(n + 1) - lam)


def smeared(m, k, weight):
    x = centres(m, k)
    kern = numpy.array([[weight(a, b) for a in x] for b in x])
    kern = kern / kern.sum(axis=1)[:, None]       # row: from one bin
    return kern.T.dot(along(m, k)), kern


def moved(m, k, where):
    """Contents (axis k first) with the events at x taken from where(x)."""
    n, lo, hi, b = m.axes[k]
    w = (hi - lo) / b
    x = centres(m, k)
    a = along(m, k)
    y = a.sum(axis=1)
    f = interpolate.InterpolatedUnivariateSpline(x, y, k=3)
    out = numpy.zeros(a.shape)

    def area(u, v):
        """Under the curve, as a trapezium; it ends at the last centres."""
        return abs(0.5 * (v - u) * (float(f(u)) + float(f(v))))
    for j in range(b):
        at = where(x[j])
        if at < lo or at >= hi:
            continue
        at = min(max(at, x[0]), x[-1])
        p = (at - lo) / w
        if (y <= 0.).any() and abs(p * 2. - round(p * 2.)) < 1e-4:
            return None            # rounding decides which bins
        # the bin it is taken from covers parts of two bins
        q = min(int(p), b - 1)
        up = p >= q + 0.5
        o = q + 1 if up else q - 1
        if not 0 <= o < b:
            sq, so = 1., 0.
        elif up:
            edge = lo + (q + 1) * w
            sq = area(max(at - 0.5 * w, x[0]), edge)
            so = area(edge, at + 0.5 * w)
        else:
            edge = lo + q * w
            sq = area(edge, min(at + 0.5 * w, x[-1]))
            so = area(at - 0.5 * w, edge)
        v = max(0., float(f(at)))
        yq, yo = y[q], y[o] if 0 <= o < b else 0.
        # nothing comes from two bins that are empty
        if yq <= 0. and yo <= 0. or sq + so == 0.:
            continue
        if yo <= 0.:
            out[j] = v * a[q] / yq
        elif yq <= 0.:
            out[j] = v * a[o] / yo
        else:
            out[j] = v * (sq * a[q] / yq + so * a[o] / yo) / (sq + so)
    if out.sum() > 0.:
        out *= y.sum() / out.sum()
    return out


class ConvSim(HistSim):
    def __init__(self, run):
        HistSim.__init__(self, run)
        self.tools = {}

    def restart(self, i):
        HistSim.restart(self, i)
        self.tools = {}

    def tool(self, st, name):
        key = st["k"], st.get("poisson")
        if st["reuse"] and key in self.tools:
            return self.tools[key]
        if st["k"] == "scale":
            t = self.p.imp("echidna.core.scale").Scale()
        elif st["k"] in ("shift", "bins"):
            t = self.p.imp("echidna.core.shift").Shift()
        else:
            mod = self.p.imp("echidna.core.smear")
            t = mod.RadialSmear() if st["k"] == "radial" else \
                {"ly": mod.EnergySmearLY,
                 "res": mod.EnergySmearRes}[st["k"]](poisson=st["poisson"])
        self.tools[key] = t
        return t

    def conv(self, i, st):
        run = self.run
        if st["id"] not in self.pool or st["new"] in self.pool:
            return
        s, m = self.pool[st["id"]]
        k = st["axis"] % len(m.axes)
        if st["k"] in ("ly", "res", "radial"):
            want = "radial" if st["k"] == "radial" else "energy"
            ks = [j for j, a in enumerate(m.axes)
                  if a[0].split("_")[0] == want]
            if not ks:
                return
            k = ks[0]
        n, lo, hi, b = m.axes[k]
        w = (hi - lo) / b
        if st["k"] in ("scale", "shift") and b < 4:
            return
        if st["k"] == "scale" and lo < 0.:
            return
        by = st["by"]
        if st["k"] == "shift":
            by = by * w
        elif st["k"] == "bins":
            by = by * w
        t = self.tool(st, n)
        sig = st.get("sigmas") or 5.

        def go():
            if st["k"] == "scale":
                t.set_scale_factor(by)
                return t.scale(s, n)
            if st["k"] in ("shift", "bins"):
                t.set_shift(by)
                if st.get("direct"):
                    return t.shift_by_bin(s, n)
                return t.shift(s, n)
            t.set_resolution(by)
            t.set_num_sigma(sig)
            return t.weighted_smear(s, n)

        def by_parameter():
            par = self.p.imp("echidna.core.parameter")
            cls = {"scale": par.ScaleParameter, "shift": par.ShiftParameter,
                   "bins": par.ShiftParameter}.get(
                       st["k"], par.ResolutionParameter)
            q = cls("p", prior=by, sigma=None, low=min(by, 0.),
                    high=by + 1., bins=2, dimension=n)
            q.set_current_value(by)
            return q.apply_to(s)
        fn = go
        if st["par"] and st["k"] != "radial" and st.get("poisson", True):
            fn, sig = by_parameter, 5.
        out = run.must(i, st["k"], fn)
        if not out.ok:
            run.nontrivial = True
            run.probe("convolution-interrupted")
            self.check_all("a failed %s" % st["k"])
            # what is left behind in reused objects must not matter
            out = run.must(i + 1000, st["k"], fn)
        x = out.value
        self.compare(st, m, k, by, sig, x)
        r = m.copy()
        r.data = numpy.array(x.get_data(), dtype=float)
        self.pool[st["new"]] = [x, r]
        run.nontrivial = True
        run.state("conv", st["k"], m.data.shape, k, st["reuse"])

    def compare(self, st, m, k, by, sig, x):
        run = self.run
        what = "%s of %s by %r" % (st["k"], m.axes[k], by)
        got = numpy.array(x.get_data(), dtype=float)
        run.check(got.shape == m.data.shape, "shape",
                  "%s: another shape" % what)
        total = float(m.data.sum())
        g = got.copy()
        g = numpy.moveaxis(g, k, 0).reshape(m.data.shape[k], -1)
        run.check((got >= 0.).all(), "negative",
                  "%s made negative contents" % what)
        big = total or 1.
        if st["k"] == "bins":
            ref = numpy.zeros(g.shape)
            a = along(m, k)
            n = st["by"]
            for j in range(len(a)):
                if 0 <= j + n < len(a):
                    ref[j + n] = a[j]
            self.same(ref, g, 1e-9 * big, what)
            return
        if st["k"] in ("scale", "shift"):
            y = along(m, k).sum(axis=1)
            where = (lambda v: v / by) if st["k"] == "scale" else \
                (lambda v: v - by)
            run.check(g.sum() == 0. or abs(g.sum() - total) <= 1e-9 * big,
                      "not-conserved", "%s: %r events, of %r"
                      % (what, float(g.sum()), total))
            ref = moved(m, k, where)
            if ref is None:
                run.probe("ambiguous")
                return
            if (y <= 0.).any():
                run.probe("with-gaps")
            self.same(ref, g, 2e-4 * big, what)
            return
        # smearing
        run.check(abs(g.sum() - total) <= 1e-9 * big, "not-conserved",
                  "%s: %r events, of %r" % (what, float(g.sum()), total))
        if st["k"] == "radial":
            spread = lambda e: by
            weight = lambda v, e: gauss(v, e, by)
        else:
            ly = by if st["k"] == "ly" else 1. / by ** 2
            spread = lambda e: math.sqrt(e / ly)
            if st["poisson"]:
                weight = lambda v, e: poisson(v, e, ly)
            else:
                weight = lambda v, e: gauss(v, e, math.sqrt(e / ly))
        ref, kern = smeared(m, k, weight)
        # what the window of some sigma around each bin leaves out
        c = centres(m, k)
        w = m.width(k)
        out = sum(float(along(m, k)[j].sum()) *
                  kern[j][abs(c - c[j]) > sig * spread(c[j]) - w].sum()
                  for j in range(len(c)))
        self.same(ref, g, 3. * out + 1e-9 * big, what)

    def same(self, ref, got, tol, what):
        d = abs(numpy.asarray(ref) - numpy.asarray(got))
        self.run.check((d <= tol).all(), "wrong-contents",
                       lambda: "%s gave %s, not %s" % (
                           what, plain(numpy.asarray(got)),
                           plain(numpy.asarray(ref))))


def execute(run):
    sim = ConvSim(run)
    for i, st in enumerate(run.plan["steps"]):
        if st["op"] == "new":
            sim.new(i, st["id"], st["spec"])
        elif st["op"] == "conv":
            sim.conv(i, st)
            sim.check_all("%s (step %d)" % (st["k"], i))
        else:
            sim.op(i, st)
            sim.check_all("%s (step %d)" % (st["k"], i))
