"""L01: a limit is the one its statistics define."""
import random

from .fitlib import FitSim, rand_spec, rand_spectrum
from .limitlib import LimitSim, rand_limit_signal

ID = "L01"
LEVEL = "exploration"
RULE = ("A run builds a fitter and one or two limits on it, then sets limits "
        "(some interrupted), changes data and backgrounds and runs fits in "
        "between. Every completed limit is compared, scale by scale and in "
        "its value, with a reference that knows only the present inputs. It "
        "counts as nontrivial if a limit was compared after an earlier limit,"
        " fit or interruption.")
REAL = ["echidna.limit.limit", "echidna.fit.fit", "echidna.fit.minimise",
        "echidna.fit.fit_results", "echidna.fit.test_statistic",
        "echidna.core.*", "numpy", "yaml"]
STUB = ["os", "time", "logging output", "h5py"]
ASSUMPTIONS = [
    "Convolution with one global parameter is taken from echidna itself "
    "(made from scratch in a fresh process).",
    "With equal minima any of them may be reported."]
SIZES = {"quick": (500, 2), "thorough": (6000, 4)}
LINES = True


def small_spec(rng, tier):
    while True:
        spec = rand_spec(rng, tier)
        spec.pop("signal", None)
        n = 1
        for s in spec["floating"]:
            if s.get("rate"):
                n *= s["rate"]["args"]["bins"]
        for g in spec["globals"]:
            n *= g["args"]["bins"]
        if n <= 30:
            return spec


def rand_args(rng):
    out = {"threshold": rng.choice([2.71, 2.71, 0.1, 0., 10., 300., 1e30,
                                    -1.])}
    if rng.random() < 0.35:
        out["min_stat"] = rng.choice([0., 1.5, 5., 100.])
    return out


def generate(rng, tier):
    spec = small_spec(rng, tier)
    names = ["Te130_0n2b_signal", "other_signal"]
    signals = [rand_limit_signal(rng, names[k])
               for k in range(rng.choice([1, 1, 2]))]
    alike = [f for f in spec["floating"] if f.get("rate")
             and f["shape"] != "sparse"]
    if alike and rng.random() < 0.35:
        # a signal that looks like a background: the more there is of it the
        # less of the other, which its penalty tells from one another
        f, s = rng.choice(alike), signals[0]
        f.pop("fine", None)
        s.update({k: f[k] for k in ("data", "shape", "decays")})
        hi = f["rate"]["args"]["high"]
        s["rate"]["args"] = {"prior": hi / 2., "sigma": None, "low": rng.choice(
            [0., hi / 20.]), "high": hi, "bins": rng.choice([3, 4, 6, 9])}
        f["rate"]["args"]["sigma"] = rng.choice([30., 10., 3.3])
    steps = []
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["limit"] * 5 + ["fit", "statistics", "set_data",
                                         "fixed"])
        st = {"op": op, "r": rng.randrange(10 ** 9),
              "which": rng.randrange(len(signals))}
        if op == "limit":
            st["args"] = rand_args(rng)
            st["args"]["store_fits"] = rng.random() < 0.2
        steps.append(st)
        if op == "limit" and rng.random() < 0.5:
            # with a threshold on, or next to, one of these statistics
            again = dict(st, args=dict(st["args"]),
                         near=rng.choice(["on", "on", "below", "above"]),
                         at=rng.randrange(8))
            again["args"]["store_fits"] = False
            steps.append(again)
    steps.append({"op": "limit", "which": rng.randrange(len(signals)),
                  "args": rand_args(rng)})
    return {"spec": spec, "signals": signals, "steps": steps,
            "faultable": [{"step": i, "kinds": ["interrupt", "nomem"]}
                          for i, s in enumerate(steps[:-1])
                          if s["op"] in ("limit", "fit", "statistics")]}


def execute(run):
    sim = FitSim(run, run.plan["spec"])
    run.must(-1, "setup", sim.setup)
    limits = {}
    before = 0
    for i, st in enumerate(run.plan["steps"]):
        op = st["op"]
        rng = random.Random("op-%s" % st.get("r"))
        k = st.get("which")
        if op in ("limit", "statistics") and k not in limits:
            limits[k] = run.must(-1, "Limit", lambda: LimitSim(
                sim, run.plan["signals"][k])).value
        if op == "limit":
            args = dict(st["args"])
            if st.get("near") and limits[k].last is not None:
                v = float(limits[k].last[st["at"] % len(limits[k].last)])
                d = {"on": 0., "below": -1e-6, "above": 1e-6}[st["near"]]
                args["threshold"] = v + d * max(1., abs(v))
            out = limits[k].limit(i, store_limit=False, **args)
            if before and out.ok:
                run.nontrivial = True
        elif op == "statistics":
            statistics(run, sim, limits[k], i)
        elif op == "fit":
            sim.fit(i)
        elif op == "set_data":
            s = dict(rand_spectrum(rng, "data%d" % i), decays=1.)
            run.must(i, op, lambda: sim.set_data(s))
        elif op == "fixed":
            s = [[rand_spectrum(rng, "nf%d" % i), rng.choice([10., 3., 0.])]]
            run.must(i, op, lambda: sim.fixed(s))
        before += 1


def statistics(run, sim, lim, i):
    if sim.spec["stat_per_bin"]:
        return
    out = run.must(i, "get_statistics", lim.obj.get_statistics)
    if out.ok:
        got = out.value
        for v, g in zip(lim.scales(), got):
            _, cands = lim.best(v)
            raw, pen = (float(g[0]), float(g[1])) if sim.model.floating \
                else (float(g), 0.)
            run.check(any(abs(raw - c[1]) <= 1e-7 * max(1., abs(raw)) and
                          abs(pen - c[2]) <= 1e-7 * max(1., abs(pen))
                          for c in cands),
                      "get-statistics", "get_statistics gives %r, %r at %r, "
                      "not one of %s" % (raw, pen, v,
                                         [c[1:3] for c in cands]))
    lim.sync()
