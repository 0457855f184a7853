"""Limits against the model of the fit."""
import numpy

from .common import diff, plain
from .fitlib import build, rand_rate, rand_spectrum, ref_values

NEAR = 1e-7


def listen(p):
    """A list that gets what is logged from now on."""
    logging = p.imp("logging")
    out = []

    class Keep(logging.Handler):
        def emit(self, record):
            out.append(record.getMessage())
    log = logging.getLogger("extra")
    log.addHandler(Keep())
    log.setLevel(logging.INFO)
    return out


def number(text):
    return float(text.strip())


def close(a, b):
    """To the digits of a log line."""
    return abs(a - b) <= 2e-3 * abs(b) or abs(a - b) < 1e-9


class LimitSim(object):
    """One Limit on the fitter of a FitSim."""

    def __init__(self, sim, spec):
        self.sim = sim
        self.spec = spec
        self.x = build(sim.run, sim.p, sim.spec, spec, "signal")
        mod = sim.p.imp("echidna.limit.limit")
        self.obj = mod.Limit(self.x, sim.fitter)
        self.error = sim.p.imp("echidna.errors.custom_errors").LimitError
        self.ill = False
        self.last = None        # the full statistics of the last limit
        self.logged = listen(sim.p)
        self.sync()

    def sync(self):
        """Make the model use the signal the fitter has now."""
        m = self.sim.model
        f = self.sim.fitter
        if f.get_signal() is None:
            m.signal, m.state = None, {}
        elif f.get_signal() is self.x:
            m.signal = self.spec
            m.state = {"decays": float(self.x.get_num_decays())}

    def at(self, v):
        m = self.sim.model
        if v is None or abs(v) <= 1e-8:
            m.signal, m.state = None, {}
        else:
            m.signal, m.state = self.spec, {"decays": v}

    def scales(self):
        par = self.x.get_fit_config().get_par("rate")
        vals = [float(v) for v in par.get_values()]
        if not self.spec["rate"]["args"].get("logscale_deviation"):
            d = diff(plain(ref_values(self.spec["rate"])),
                     plain(numpy.array(vals)), 1e-9)
            self.sim.run.check(d is None, "scales", "the signal scales are "
                               "not those asked for: %s" % d)
        return vals

    def best(self, v):
        """Reference at scale v: (names, [(best fits, statistic, penalty,
        penalties, bins)]), all equally good."""
        self.at(v)
        sim = self.sim
        m = sim.model
        if not m.floating:
            obs = m.project(m.in_roi(m.data))
            b = sim.stat_of(obs, sim.expected_at({}))
            return [], [([], float(b.sum()), 0., b)]
        grids, raw, pen, cells = sim.reference()
        self.ill = self.ill or sim.ill
        total = raw + pen
        lowest = total.min()
        out = []
        for idx in zip(*numpy.where(
                total <= lowest + NEAR * max(1., abs(lowest)))):
            idx = tuple(int(k) for k in idx)
            out.append(([g[1][k] for g, k in zip(grids, idx)],
                        float(raw[idx]), float(pen[idx]),
                        cells.get(idx)))
        return [g[0] for g in grids], out

    # -- one limit --------------------------------------------------------
    def limit(self, i, threshold=2.71, min_stat=None, check=True, **kw):
        """Set a limit; the outcome is a value or "none"."""
        run, sim = self.sim.run, self.sim
        given = min_stat
        if min_stat is not None and sim.spec["stat_per_bin"]:
            # one value for each bin
            n = int(numpy.prod(sim.model.project(
                sim.model.in_roi(sim.model.data)).shape))
            given = numpy.arange(n) * 0.25
            if sim.spec["per_bin"] and sim.model.floating:
                given = given.reshape(sim.fitter.get_data()._data.shape)

        def go():
            del self.logged[:]
            try:
                return float(self.obj.get_limit(
                    limit=threshold, min_stat=given, **kw))
            except self.error as e:
                self.message = str(e)
                return "none"
        out = run.must(i, "get_limit", go)
        self.sync()
        if not out.ok:
            run.nontrivial = True
            run.probe("limit-interrupted")
            return out
        if out.value == "none" and "Limit:" in self.message:
            run.check(close(number(self.message.split("Limit:")[1]),
                            threshold), "limit-message", lambda: "there is no "
                      "limit at %r: %s" % (threshold, self.message))
        if check:
            self.verify(out.value, threshold, given)
        return out

    def verify(self, value, threshold, given):
        run, sim = self.sim.run, self.sim
        m = sim.model
        keep = m.signal, m.state
        r = self.obj._limit_results
        scales = self.scales()
        d = diff(plain(numpy.array(scales)), plain(numpy.array(
            r.get_scales())))
        run.check(d is None, "result-scales",
                  "the results have other signal scales: %s" % d)
        self.ill = False
        if given is None:
            mins = [c[3] if sim.spec["stat_per_bin"] else c[1]
                    for c in self.best(None)[1]]
        else:
            mins = [given]
        stats = numpy.array(r.get_stats())
        refs = [self.best(v) for v in scales]
        m.signal, m.state = keep
        if self.ill and sim.spec["stat"] not in ("Neyman", "custom"):
            run.probe("ill-conditioned")
            return
        bad = None
        for least in mins:
            bad = self.mismatch(r, stats, scales, refs, least)
            if bad is None:
                break
        run.check(bad is None, "limit-" + (bad or ["?"])[0],
                  lambda: bad[1])
        # the limit, from the statistics the results have
        raw = numpy.array([float(numpy.sum(s)) for s in stats])
        full = numpy.array([
            raw[k] + sum(float(r.get_penalty_term(k, n)) for n in refs[k][0])
            for k in range(len(scales))])
        if not sim.spec["stat_per_bin"]:
            d = diff(plain(full), plain(numpy.array(r.get_full_stats())),
                     1e-9)
            run.check(d is None, "limit-full-statistics",
                      "the full statistics are not the sum of statistic and "
                      "penalties: %s" % d)
        self.last = full
        if raw.argmin() != full.argmin():
            run.probe("least-raw-not-least-full")
        for k in range(len(scales)):
            # next to the threshold only what is exact is certain: one
            # statistic without penalties
            if abs(full[k] - threshold) <= 1e-9 * max(1., abs(threshold)) \
                    and (sim.spec["stat_per_bin"] or full[k] != raw[k]):
                run.probe("limit-near-threshold")
                return
        if (full == threshold).any():
            run.probe("limit-on-threshold")
        self.getters(r, stats, full, refs[0][0], len(scales))
        low = raw.min()
        want = set()
        for k in range(len(scales)):
            if raw[k] <= low + 1e-9 * max(1., abs(low)):
                above = [scales[j] for j in range(k, len(scales))
                         if full[j] > threshold]
                want.add(above[0] if above else "none")
        run.check(value in want, "limit-value",
                  "the limit is %r; the statistics %s at scales %s above %r "
                  "give %s" % (value, full.tolist(), scales, threshold,
                               sorted(want, key=str)))
        if value in want:
            self.summary(r, value, full, low, raw, refs[0][0], scales)
        run.state("limit", value == "none", len(scales), len(refs[0][0]),
                  given is None, sim.spec["stat"], sim.spec["per_bin"])
        run.probe("no-limit" if value == "none" else "limit-found")
        if not sim.spec["stat_per_bin"]:
            self.array_limit(full, threshold, scales)

    def getters(self, r, stats, full, names, n):
        """The same numbers, however they are asked for."""
        for k in range(n):
            one = [float(r.get_penalty_term(k, q)) for q in names]
            want = [float(full[k]), plain(numpy.array(stats[k])), one,
                    [[float(r.get_best_fit(k, q)), p]
                     for q, p in zip(names, one)]]
            got = [float(r.get_full_stat(k)),
                   plain(numpy.array(r.get_limit_stat(k))),
                   [float(v) for v in r.get_penalty_terms_at_scale(k)],
                   [[float(r.get_best_fits(q)[k]),
                     float(r.get_penalty_terms(q)[k])] for q in names]]
            if not self.sim.model.floating:
                want[2] = got[2] = None
            d = diff(want, got, 1e-9)
            self.sim.run.check(d is None, "limit-answers", lambda: "the "
                               "results at scale %d differ with how they are "
                               "asked for: %s" % (k, d))

    def summary(self, r, value, full, low, raw, names, scales):
        """What the log says about the limit."""
        run = self.sim.run
        text = [t for t in self.logged if "Limit Summary" in t]
        if not text:
            return
        run.check(len(text) == 1, "limit-summary", lambda: "one limit logged "
                  "%d summaries" % len(text))
        head, _, rest = text[0].partition("Signal Decays")
        run.check(("No limit" in head) == (value == "none"),
                  "limit-summary", lambda: "the limit is %s; logged: %s"
                  % (value, text[0]))
        at = number(rest.split("\n")[0].split(":")[-1])
        ok = []
        for k in range(len(scales)):
            if not close(at, scales[k]):
                continue
            found = True
            for q in names:
                part = rest.partition("systematic: %s ---" % q)[2]
                part = part.partition("--- systematic")[0]
                for name, v in (("Best fit", r.get_best_fit(k, q)),
                                ("Penalty term", r.get_penalty_term(k, q))):
                    w = part.partition(name + ":")[2].split("\n")[0]
                    found = found and (not w.strip() or
                                       close(number(w), float(v)))
            w = rest.partition("Test statistic:")[2].split("\n")[0]
            found = found and (not w.strip() or abs(
                number(w) - full[k]) <= 1e-3 * max(1., abs(full[k])))
            ok.append(found)
        run.check(any(ok), "limit-summary", lambda: "the summary is of no "
                  "scale: %s" % text[0])
        if value != "none":
            run.check(close(at, value), "limit-summary", lambda: "the limit "
                      "is %s; logged: %s" % (value, text[0]))
        run.probe("summary")

    def array_limit(self, full, threshold, scales):
        for x in [threshold] + full[:3].tolist():
            self.array_limit_at(full, x, scales)

    def array_limit_at(self, full, threshold, scales):
        above = [s for s, x in zip(scales, full) if x > threshold]
        try:
            got = float(self.obj.get_array_limit(full, threshold))
        except self.error:
            got = "none"
        self.sim.run.check(got == (above[0] if above else "none"),
                           "array-limit", "the limit from an array is %r, "
                           "not the first of %s" % (got, above))

    def mismatch(self, r, stats, scales, refs, least):
        sim = self.sim
        for k, (names, cands) in enumerate(refs):
            got = [float(r.get_best_fit(k, n)) for n in names]
            pens = [float(r.get_penalty_term(k, n)) for n in names]
            why = None
            for fits, raw, pen, cells in cands:
                d = diff(fits, got, 1e-12)
                if d:
                    why = why or ("best-fits", d)
                    continue
                d = diff(pen, float(sum(pens)), 1e-7)
                if d:
                    why = ("penalties", d)
                    continue
                if sim.spec["stat_per_bin"]:
                    want = numpy.array(cells).ravel() - numpy.ravel(least)
                    d = diff(plain(want), plain(numpy.ravel(stats[k])), 1e-7)
                else:
                    # the difference of two large numbers
                    big = max(1., abs(raw), abs(float(least)))
                    x = float(stats[k])
                    d = None if abs(raw - least - x) <= 1e-9 * big else \
                        "%r != %r" % (x, raw - float(least))
                if d:
                    why = ("statistics", d)
                    continue
                why = None
                break
            if why:
                return why[0], "at scale %r (number %d): %s" % (
                    scales[k], k, why[1])
        return None


def rand_limit_signal(rng, name="Te130_0n2b_signal"):
    s = rand_spectrum(rng, name, sparse=False)
    s["rate"] = rand_rate(rng, 1.)
    a = s["rate"]["args"]
    if rng.random() < 0.5:
        a["bins"] = rng.choice([3, 5, 7])
    if rng.random() < 0.3:
        a["high"] = a["low"] + rng.choice([1., 300.])
        a["prior"] = (a["low"] + a["high"]) / 2.
    if rng.random() < 0.25 and not a.get("logscale_deviation"):
        # scales that are small but not zero
        a["low"] = rng.choice([1e-3, 1e-5, 1e-7])
    return s
