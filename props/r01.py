"""R01: random smearing moves every event exactly once, by its resolution."""
import math

import numpy

from . import common
from .common import plain
from .h02 import along, rand_spec as rand_hist
from .histlib import HistSim, rand_hist_op

ID = "R01"
LEVEL = "exploration"
RULE = ("A run smears spectra of whole events at random, by light yield, "
        "energy resolution or radius, with simulated randomness, with "
        "interrupts and memory failures between draws, restarts and ordinary "
        "operations in between, and compares the number of events and their "
        "distribution with the exact one; it counts as nontrivial if a "
        "random smearing was compared.")
REAL = ["echidna.core.smear", "echidna.core.spectra", "echidna.core.config",
        "echidna.core.parameter", "echidna.output.store", "numpy"]
STUB = ["numpy.random (seeded by the simulator)", "h5py", "os", "time"]
ASSUMPTIONS = [
    "Counts are compared with their expectation to 7 standard deviations; "
    "randomness is the generator of numpy."]
SIZES = {"quick": (3000, 2), "thorough": (40000, 4)}
LINES = True


def rand_spec(rng):
    s = rand_hist(rng)
    s["mag"] = 1.                       # whole events
    s["shape"] = rng.choice(["counts", "counts", "sparse", "peak"])
    return s


def rand_smear(rng, key, new):
    k = rng.choice(["ly", "res", "radial"])
    st = {"op": "smear", "k": k, "id": key, "new": new,
          "reuse": rng.random() < 0.5, "poisson": rng.random() < 0.5,
          "twice": rng.random() < 0.3}
    st["by"] = {"ly": rng.choice([203.7, 151.3, 51.27, 20.83, 4.17]),
                "res": rng.choice([0.0527, 0.0713, 0.1234, 0.341]),
                "radial": rng.choice([100., 35.5, 260., 3.])}[k]
    return st


def generate(rng, tier):
    steps = [{"op": "new", "id": "a", "spec": rand_spec(rng)}]
    ids, fault = ["a"], []
    for n in range(rng.randint(1, 6)):
        if rng.random() < 0.6 and len(ids) < 4:
            new = "bcd"[len(ids) - 1]
            fault.append({"step": len(steps),
                          "kinds": ["interrupt", "interrupt", "nomem"]})
            steps.append(rand_smear(rng, rng.choice(ids), new))
            ids.append(new)
        else:
            k = rng.choice(ids)
            st = rand_hist_op(rng, k)
            while st["k"] not in ("fill", "shrink", "roi", "rebin",
                                  "restart", "bipo"):
                st = rand_hist_op(rng, k)
            if st.get("weight") not in (None, 1., 3.):
                st["weight"] = 2.
            steps.append(st)
    return {"steps": steps, "faultable": fault}


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.))


def gauss_bins(mean, sigma, edges):
    """Probabilities of |N(mean, sigma)| in each bin."""
    def below(x):
        return 0. if x <= 0. else phi((x - mean) / sigma) - \
            phi((-x - mean) / sigma)
    c = [below(x) for x in edges]
    return numpy.diff(c)


def poisson_bins(mean, ly, lo, hi, b):
    """[least, most] probability of Poisson(mean * ly) / ly in each bin;
    counts that are at an edge may fall on either side of it."""
    lam = mean * ly
    least, most = numpy.zeros(b), numpy.zeros(b)
    top = int(lam + 12. * math.sqrt(lam) + 20)
    for n in range(top):
        p = math.exp(n * math.log(lam) - math.lgamma(n + 1) - lam)
        at = (n / ly - lo) / (hi - lo) * b
        j = int(math.floor(at))
        near = abs(at - round(at)) < 1e-9
        for q in ([int(round(at)) - 1, int(round(at))] if near else [j]):
            if 0 <= q < b:
                most[q] += p
                if not near:
                    least[q] += p
    return least, most


class SmearSim(HistSim):
    def __init__(self, run):
        HistSim.__init__(self, run)
        self.tools = {}

    def restart(self, i):
        HistSim.restart(self, i)
        self.tools = {}

    def smear(self, i, st):
        run = self.run
        if st["id"] not in self.pool or st["new"] in self.pool:
            return
        s, m = self.pool[st["id"]]
        dim = "radial" if st["k"] == "radial" else "energy"
        ks = [j for j, a in enumerate(m.axes) if a[0].startswith(dim + "_")]
        if not ks:
            return
        k = ks[0]
        n = m.axes[k][0]
        if m.data.sum() > 3000:
            return
        key = st["k"], st["poisson"]
        t = self.tools.get(key) if st["reuse"] else None
        if t is None:
            mod = self.p.imp("echidna.core.smear")
            if st["k"] == "radial":
                t = mod.RadialSmear()
            else:
                t = {"ly": mod.EnergySmearLY, "res": mod.EnergySmearRes}[
                    st["k"]](poisson=st["poisson"])
            self.tools[key] = t

        def fn():
            t.set_resolution(st["by"])
            return t.random_smear(s, n)
        out = run.must(i, "random_smear", fn)
        if not out.ok:
            run.nontrivial = True
            run.probe("smearing-interrupted")
            self.check_all("a failed smearing")
            out = run.must(i + 1000, "random_smear", fn)
        x = out.value
        wide = self.compare(st, m, k, x)
        if st["twice"] and wide:
            y = run.must(i + 2000, "random_smear", fn).value
            self.compare(st, m, k, y)
            run.check(plain(numpy.array(x.get_data())) !=
                      plain(numpy.array(y.get_data())), "same-twice",
                      "smearing %s twice moved every event the same way"
                      % (m.axes[k],))
        r = m.copy()
        r.data = numpy.array(x.get_data(), dtype=float)
        self.pool[st["new"]] = [x, r]
        run.nontrivial = True
        run.state("smear", st["k"], st["poisson"], m.data.shape, k)

    def compare(self, st, m, k, x):
        """Returns True if another smearing is bound to differ."""
        run = self.run
        name, lo, hi, b = m.axes[k]
        what = "random smearing of %s by %s %r" % (m.axes[k], st["k"],
                                                   st["by"])
        got = numpy.array(x.get_data(), dtype=float)
        run.check(got.shape == m.data.shape, "shape", "another shape")
        run.check((got >= 0.).all() and (got == numpy.floor(got)).all(),
                  "not-whole", "%s: contents are not whole events" % what)
        r = m.copy()
        r.data = got
        new, old = along(r, k), along(m, k)
        w = (hi - lo) / b
        least, most = numpy.zeros((b, b)), numpy.zeros((b, b))
        ly = st["by"] if st["k"] == "ly" else st["by"] ** -2.
        for j in range(b):
            mean = lo + (j + 0.5) * w
            edges = [lo + q * w for q in range(b)] + [hi]
            if st["k"] == "radial":
                least[j] = most[j] = gauss_bins(mean, st["by"], edges)
            elif st["poisson"]:
                least[j], most[j] = poisson_bins(mean, ly, lo, hi, b)
            else:
                least[j] = most[j] = gauss_bins(
                    mean, math.sqrt(mean / ly), edges)
        # events stay in their slice of the other axes
        for q in range(old.shape[1]):
            run.check(new[:, q].sum() <= old[:, q].sum(), "made-events",
                      "%s: %r events of %r" % (
                          what, float(new[:, q].sum()),
                          float(old[:, q].sum())))
            self.counts(old[:, q], new[:, q], least, most, what)
        self.counts(old.sum(axis=1), new.sum(axis=1), least, most, what)
        inside = least.sum(axis=1)
        if (inside[old.sum(axis=1) > 0] > 1. - 1e-13).all():
            run.probe("all-inside")
            run.check(new.sum() == old.sum(), "lost-events",
                      "%s: %r events, of %r" % (what, float(new.sum()),
                                                float(old.sum())))
        y = old.sum(axis=1)
        var = sum(y[j] * (least[j] * (1. - most[j])).sum() for j in range(b))
        return var > 60.

    def counts(self, old, new, least, most, what):
        """Each count within 7 standard deviations of its expectation."""
        lo, hi = old.dot(least), old.dot(most)
        dev = numpy.sqrt(old.dot(most * (1. - numpy.minimum(least, 1.))))
        tol = 7. * dev + 8.
        # tails of small expectations
        ok = numpy.logical_and(new >= lo - tol, new <= hi + tol)
        self.run.check(ok.all(), "distribution", lambda: "%s: counts %s, "
                       "expected %s" % (what, new.tolist(), lo.tolist()))
        n = old.sum()
        p = numpy.concatenate([lo, [max(0., n - hi.sum())]])
        if numpy.array_equal(least, most) and n >= 30:
            # all bins together
            q = numpy.concatenate([new, [n - new.sum()]])
            use = p >= 8.
            if use.sum() >= 3:
                chi = ((q[use] - p[use]) ** 2 / p[use]).sum()
                self.run.check(
                    chi <= use.sum() + 12. * math.sqrt(2. * use.sum()) + 40.,
                    "distribution", lambda: "%s: counts %s, expected %s"
                    % (what, q.tolist(), p.tolist()))


def execute(run):
    sim = SmearSim(run)
    for i, st in enumerate(run.plan["steps"]):
        if st["op"] == "new":
            sim.new(i, st["id"], st["spec"])
            continue
        if st["op"] == "smear":
            sim.smear(i, st)
        else:
            sim.op(i, st)
        sim.check_all("%s (step %d)" % (st["k"], i))
