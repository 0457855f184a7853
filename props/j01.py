"""J01: the conversion scripts do to files what their options say."""
import posixpath
import random
import re

from sim.runner import PlanInvalid
from sim.world import Scheduler, SimKilled
from . import common, filllib
from .common import diff, obs_spectrum

ID = "J01"
LEVEL = "exploration"
RULE = ("A run writes spectra, event files and configs, then runs the "
        "repository's conversion scripts on them as programs, one after "
        "another or two at the same time, with disk errors, interrupts, "
        "memory failures and crashes, and repeats what failed. After each "
        "script every file on the disk is compared with what it should be. "
        "It counts as nontrivial if the output of a script was compared.")
REAL = ["echidna.scripts.*", "echidna.output.store", "echidna.output.plot",
        "echidna.output.plot_root", "echidna.core.*", "echidna.utilities",
        "argparse", "logging", "numpy", "scipy"]
STUB = ["h5py", "ROOT, rat, matplotlib (plots are drawn on nothing)", "os",
        "time", "socket", "terminal"]
ASSUMPTIONS = [
    "The transformations themselves are judged in H01, H02, R01 and E01; "
    "here they are taken from the library.",
    "Input files have the extension .hdf5 or .root, as the scripts' "
    "documentation has them."]
SIZES = {"quick": (750, 2), "thorough": (25000, 4)}
LINES = True

CWD = "/work"
DIRS = ["/work", "/work/data.v1", "/data", "/work/a b"]
OUT = ["/work/out", "/data/out"]


def rand_spec(rng):
    nd = rng.choice([1, 1, 2])
    b = rng.choice([4, 6, 8])
    w = rng.choice([0.5, 0.25, 1.])
    lo = rng.choice([0., 0., 0.5])
    axes = [["energy_" + rng.choice(["mc", "reco", "truth"]), lo,
             lo + w * b, b]]
    if nd > 1:
        axes.append(["radial_" + rng.choice(["mc", "reco"]), 0., 2000., 4])
    rng.shuffle(axes)
    return {"name": rng.choice(common.NAMES) + "_mc",
            "decays": rng.choice([1., 100., 7]),
            "config": {"name": "config", "pars": axes},
            "data": rng.randrange(10 ** 6), "shape": "uniform",
            "raw": rng.choice([0, 5, 1000]), "bipo": rng.choice([0, 1])}


def shown(rng, path):
    """One of the ways to name a file on the command line."""
    if path.startswith(CWD + "/") and rng.random() < 0.7:
        rel = path[len(CWD) + 1:]
        return rng.choice([rel, rel, "./" + rel])
    return path


def num(x):
    """As Python 2 shows a float."""
    return "%.12g" % x if x != int(x) else "%d" % x


def rand_job(rng, files, tag):
    """files: path -> spec of the spectra that are there."""
    path = rng.choice(sorted(files))
    axes = files[path]["config"]["pars"]
    arg = shown(rng, path)
    stem = posixpath.splitext(posixpath.basename(path))[0]
    home = posixpath.dirname(path)
    ax = rng.choice(axes)
    w = (ax[2] - ax[1]) / ax[3]
    k = rng.choice(["scaled", "shifted", "smeared", "energy", "shrink",
                    "rebin", "combine", "scaled", "shrink"])
    dest = rng.choice([None, None] + OUT)
    job = {"script": k, "input": path}
    if k == "scaled":
        by = rng.choice([1.1, 0.95, 2., 1.25, 0.5])
        argv = ["-p", ax[0], "-f", arg, "-s", num(by)]
        if dest:
            argv += ["-d", dest + rng.choice(["", "/"])]
        out = "%s/%s_%ssc.hdf5" % (dest or home, stem, num(by))
        job["do"] = {"k": k, "par": ax[0], "by": by}
    elif k == "shifted":
        by = rng.choice([0.31, 1.37, -0.47, 1., -1., 2.]) * w
        argv = ["-d", ax[0], "-f", arg, "-s", repr(by)]
        out = "%s/%s_shifted.hdf5" % (home, stem)
        job["do"] = {"k": k, "par": ax[0], "by": by}
    elif k in ("smeared", "energy"):
        res = rng.choice([None, None, 0.05, 0.0713])
        argv = [arg]
        meth = rng.choice([None, "weight", "random"])
        if meth:
            argv += ["-m", meth]
        if res:
            argv += ["-r", num(res)]
        job["do"] = {"k": k, "res": res, "random": meth == "random",
                     "ly": 200.}
        if k == "smeared":
            out = "%s/%s_smeared.hdf5" % (home, stem)
            if rng.random() < 0.5:
                argv = argv[1:] + argv[:1]
        else:
            if rng.random() < 0.5 and not res:
                job["do"]["ly"] = rng.choice([150., 300., 203.7])
                argv += ["-l", num(job["do"]["ly"])]
            if rng.random() < 0.5:
                argv += ["-g"]
                job["do"]["gaus"] = True
            if dest:
                argv += ["-d", dest + rng.choice(["", "/"])]
            out = "%s/%s_%s.hdf5" % (
                dest or home, stem, num(res) + "rs" if res else
                num(job["do"]["ly"]) + "ly")
    elif k == "shrink":
        some = rng.sample(axes, rng.randint(1, len(axes)))
        side = rng.choice(["both", "both", "low", "up"])
        argv = ["-i", arg, "-p"] + [a[0] for a in some]
        lows, ups, kw = [], [], {}
        for a in some:
            wa = (a[2] - a[1]) / a[3]
            i = rng.randint(0, a[3] // 2)
            j = rng.randint(i + 1, a[3])
            if side != "up":
                lows.append(repr(a[1] + i * wa))
                kw[a[0] + "_low"] = a[1] + i * wa
            if side != "low":
                ups.append(repr(a[1] + j * wa))
                kw[a[0] + "_high"] = a[1] + j * wa
        if lows:
            argv += ["-l"] + lows
        if ups:
            argv += ["-u"] + ups
        out = "%s/%s_shrunk.hdf5" % (home, stem)
        if rng.random() < 0.5:
            out = rng.choice(OUT + [home]) + "/small%s.hdf5" % tag
            argv += ["-o", shown(rng, out)]
        job["do"] = {"k": k, "kw": kw}
    elif k == "rebin":
        new = []
        for a in axes:
            divs = [x for x in range(1, a[3] + 1) if a[3] % x == 0]
            new.append(rng.choice(divs))
        argv = ["-i", arg, "-b"] + [str(x) for x in new]
        out = "%s/%s_rebin.hdf5" % (home, stem)
        if rng.random() < 0.5:
            out = rng.choice(OUT + [home]) + "/coarse%s.hdf5" % tag
            argv += ["-o", shown(rng, out)]
        job["do"] = {"k": k, "to": new}
    else:
        same = [p for p in sorted(files) if files[p]["config"]["pars"] ==
                files[path]["config"]["pars"] and p != path]
        more = [path] + rng.sample(same, rng.randint(0, len(same)))
        if len(more) < 2:
            more.append(path)
        argv = ["-f"] + [shown(rng, p) for p in more]
        out = CWD + "/combined.hdf5"
        job["do"] = {"k": k, "files": more}
    if rng.random() < 0.08:
        # a call that cannot work
        job["broken"] = rng.choice(["missing", "damaged"])
        argv = [a.replace(arg, "/work/none.hdf5") if a == arg else a
                for a in argv]
        if argv.count("/work/none.hdf5") == 0:
            job.pop("broken")
    elif rng.random() < 0.08:
        argv = misuse(rng, k, argv, axes)
        job["broken"] = "usage"
    job.update(argv=argv, out=out)
    return job


def misuse(rng, k, argv, axes):
    """Options that the script has to refuse."""
    def without(*opts):
        out, skip = [], False
        for a in argv:
            if a[:1] == "-" and not a[1:2].isdigit():
                skip = a in opts
            if not skip:
                out.append(a)
        return out
    if k == "scaled":
        return rng.choice([without("-p"), without("-f"), without("-s"),
                           without("-d") + ["-d", "/nowhere"]])
    if k == "shifted":
        return rng.choice([without("-d"), without("-f"), without("-s")])
    if k == "combine":
        return rng.choice([argv[:2], []])
    if k == "shrink":
        bound = "-l" if "-l" in argv else "-u"
        i = argv.index(bound) + 1
        return rng.choice([without("-i"), without("-p"), without("-l", "-u"),
                           argv[:i] + [argv[i]] + argv[i:]])
    if k == "rebin":
        some = [a[3] for a in axes]
        i = rng.randrange(len(some))
        wrong = list(some)
        wrong[i] += 1
        return rng.choice([without("-i"), without("-b") + ["-b"] + [
            str(x) for x in some + [1]], without("-b") + ["-b"] + [
                str(x) for x in wrong]])
    return ["-m", "neither"] + without("-m") if argv[0] == "-m" \
        else without("-m") + ["-m", "neither"]


def rand_fill_job(rng, n):
    external = rng.random() < 0.2
    axes = filllib.rand_axes(rng, external=False)
    cut = dict(filllib.rand_cut(rng, False))
    if not any(a[0].startswith("radial3") for a in axes):
        cut["outer_radius"] = None
    kind = rng.choice(["root", "ntuple", "multi"])
    k = rng.choice([1, 1, 2, 3])
    home = rng.choice(DIRS)
    # the name of a spectrum has to tell the name of the background
    stem = rng.choice(["events_mc", "Tl208_mc", "Te130_0n2b_mc.ntuple"])
    files = []
    for j in range(k):
        d = home if kind != "multi" else home + "/evts_mc%d" % n
        raw = filllib.rand_ntuple(rng, rng.choice([0, 2, 6, 10]), cut) \
            if kind != "root" else filllib.rand_root(
                rng, rng.choice([0, 2, 6]), axes, cut)
        files.append([d + "/%s_%d_%d.root" % (stem, n, j), filllib.clear(
            raw, "root" if kind == "root" else "ntuple", axes, cut)])
    save = rng.choice([None, CWD] + OUT)
    argv = ["-c", "/work/config%d.yml" % n]
    job = {"script": kind, "axes": axes, "cut": cut, "files": files,
           "config": "/work/config%d.yml" % n}
    if cut["bipo"]:
        argv += ["--bipo"]
    if cut["fv_radius"]:
        argv += ["-v", num(cut["fv_radius"])]
    if cut["outer_radius"]:
        argv += ["-o", num(cut["outer_radius"])]
    if save:
        argv += ["-s", shown(rng, save) + rng.choice(["", "/"])]
    base = save or CWD
    if kind == "multi":
        if rng.random() < 0.5:
            argv += ["-n", "Summed_mc"]
            name = "Summed_mc"
        else:
            name = "evts_mc%d" % n
        argv += ["-p", shown(rng, home + "/evts_mc%d" % n) +
                 rng.choice(["", "/"])]
        job["outs"] = [["%s/%s.hdf5" % (base, name), list(range(k))]]
    else:
        if k > 1 or rng.random() < 0.3:
            job["list"] = "/work/list%d.txt" % n
            job["tabs"] = rng.choice([0, 0, 1])
            job["blank"] = rng.random() < 0.3
            argv += ["-r", shown(rng, job["list"])]
        else:
            argv += ["-f", shown(rng, files[0][0])]
        job["outs"] = [["%s/%s.hdf5" % (base, posixpath.basename(f[0])), [j]]
                       for j, f in enumerate(files)]
    job["argv"] = argv
    return job


def generate(rng, tier):
    steps, fault, files = [], [], {}
    for j in range(rng.randint(1, 3)):
        spec = rand_spec(rng)
        if files and rng.random() < 0.6:
            spec["config"] = files[sorted(files)[0]]["config"]
        path = "%s/%s.hdf5" % (rng.choice(DIRS), rng.choice(
            ["spec%d" % j, "Te130.0n2b_%d" % j, "s %d" % j]))
        files[path] = spec
        steps.append({"op": "spectrum", "path": path, "spec": spec})
    kinds = ["EIO", "ENOSPC", "EACCES", "short", "interrupt", "nomem",
             "kill", "kill", "stall", "clock_jump"]
    for n in range(rng.randint(1, 4)):
        if rng.random() < 0.3:
            job = rand_fill_job(rng, n)
            st = {"op": "run", "jobs": [job]}
        else:
            jobs = [rand_job(rng, files, "%d" % n)]
            if rng.random() < 0.3:
                other = rand_job(rng, files, "%db" % n)
                if other["out"] != jobs[0]["out"]:
                    jobs.append(other)
            st = {"op": "run", "jobs": jobs}
        if rng.random() < 0.5:
            fault.append({"step": len(steps), "kinds": kinds})
        else:
            fault.append({"step": len(steps), "kinds": [
                "EIO", "ENOSPC", "short", "kill"], "ons": ["w"]})
        steps.append(st)
    return {"steps": steps, "faultable": fault}


SCRIPTS = {"scaled": "dump_scaled", "shifted": "dump_shifted",
           "smeared": "dump_smeared", "energy": "dump_smeared_energy",
           "shrink": "dump_shrink", "rebin": "rebin",
           "combine": "combine_hdf5", "root": "dump_spectra_root",
           "ntuple": "dump_spectra_ntuple", "multi": "multi_ntuple_spectrum"}


class ScriptSim(object):
    def __init__(self, run):
        self.run = run
        self.files = {}           # path -> observation
        self.plainfiles = {}      # path -> bytes
        for d in DIRS + OUT + ["/repo/output/logs", "/repo/output/hdf5"]:
            run.disk.mkdirs(d)
        self.lib = run.proc(host="library")
        self.hosts = 0

    def spectrum(self, st):
        store = self.lib.imp("echidna.output.store")
        s = common.make_spectrum(self.lib, st["spec"])
        store.dump(st["path"], s)
        self.files[st["path"]] = obs_spectrum(store.load(st["path"]))

    # -- what a job should make -------------------------------------------
    def expect(self, job):
        """path -> observation (None: not compared in detail)"""
        lib = self.lib
        store = lib.imp("echidna.output.store")
        if "files" in job:
            out = {}
            for path, which in job["outs"]:
                out[path] = self.expect_fill(job, which)
            return out
        do = job["do"]
        if job["input"] not in self.files:
            raise PlanInvalid("input")
        s = store.load(job["input"])
        if do["k"] == "scaled":
            x = lib.imp("echidna.core.scale").Scale()
            x.set_scale_factor(do["by"])
            s = x.scale(s, do["par"])
        elif do["k"] == "shifted":
            x = lib.imp("echidna.core.shift").Shift()
            x.set_shift(do["by"])
            s = x.shift(s, do["par"])
        elif do["k"] in ("smeared", "energy"):
            smear = lib.imp("echidna.core.smear")
            kw = {} if do["k"] == "smeared" else {
                "poisson": not do.get("gaus")}
            if do["res"]:
                e = smear.EnergySmearRes(**kw)
                e.set_resolution(do["res"])
            else:
                e = smear.EnergySmearLY(**kw)
                e.set_resolution(do["ly"])
            r = smear.RadialSmear()
            total = float(s.sum())
            for n in list(s.get_config().get_pars()):
                x = e if n.startswith("energy") else r if \
                    n.startswith("radial") and do["k"] == "smeared" else None
                if x is not None:
                    s = (x.random_smear if do["random"] else
                         x.weighted_smear)(s, par=n)
            if do["random"]:
                return {job["out"]: dict(obs_spectrum(s), random=total)}
        elif do["k"] == "shrink":
            s.shrink(**do["kw"])
        elif do["k"] == "rebin":
            s.rebin(tuple(do["to"]))
        else:
            for f in do["files"]:
                if f not in self.files:
                    raise PlanInvalid("input")
            s = store.load(do["files"][0])
            for f in do["files"][1:]:
                s.add(store.load(f))
        return {job["out"]: obs_spectrum(s)}

    def expect_fill(self, job, which):
        import numpy
        axes = job["axes"]
        data = numpy.zeros([a[3] for a in axes])
        raw = n = 0
        sel = filllib.select_root if job["script"] == "root" else \
            filllib.select_ntuple
        for j in which:
            try:
                rows = sel(job["files"][j][1], [a[0] for a in axes],
                           job["cut"])
                filllib.check_rows(rows, axes)
            except filllib.Unclear:
                raise PlanInvalid("unclear")
            raw += filllib.fill(data, axes, rows)
            n += len(job["files"][j][1])
        return {"fill": common.plain(data), "raw": raw, "decays": float(n),
                "bipo": int(job["cut"]["bipo"]),
                "pars": [[a[0], float(a[1]), float(a[2]), a[3]]
                         for a in axes]}

    def compare(self, want, got):
        if "fill" in want:
            got = {"fill": got["data"], "raw": got["raw"],
                   "decays": got["decays"], "bipo": got["bipo"],
                   "pars": got["config"]["pars"]}
            return diff(want, got, 1e-9)
        want, got = dict(want), dict(got)
        for o in (want, got):       # 200 and 200.0 are the same light yield
            o["name"] = re.sub(r"\.0(?=_|$)", "", o["name"])
        if "random" in want:
            total = want.pop("random")
            s = sum(got["data"][2])
            if not -1e-6 <= s <= total * (1. + 1e-6):
                return "%r events where there were %r" % (s, total)
            want["data"], got["data"] = want["data"][:2], got["data"][:2]
        return diff(want, got, 1e-9)

    # -- running ------------------------------------------------------------
    def prepare(self, job):
        if job.get("broken") == "damaged":
            self.run.disk.put_bytes("/work/none.hdf5", b"x")
            self.run.disk.corrupt("/work/none.hdf5", "unopenable")
        if "files" not in job:
            return
        for path, entries in job["files"]:
            filllib.write(self.run.disk, path, entries)
        if "list" in job:
            lines = [f[0] + "\t1.0e9" * job["tabs"] for f in job["files"]]
            if job["blank"]:
                lines.append("")
            self.run.disk.put_bytes(job["list"], "".join(
                x + "\n" for x in lines).encode())
        c = common.make_config(self.lib, {"name": "config",
                                          "pars": job["axes"]})
        c.dump_to_file(path=posixpath.dirname(job["config"]) + "/",
                       filename=posixpath.basename(job["config"])[:-4])

    def start(self, job):
        p = self.run.proc(host="node%d" % self.hosts, cwd=CWD)
        self.hosts += 1
        return p, lambda: p.run_script(
            "echidna/scripts/%s.py" % SCRIPTS[job["script"]], job["argv"])

    def step(self, i, st):
        run = self.run
        jobs = st["jobs"]
        for job in jobs:
            self.prepare(job)
        wants = [self.expect(job) if not job.get("broken") else {}
                 for job in jobs]
        for tries in range(2):
            before = self.snapshot()
            procs = [self.start(job) for job in jobs]

            def go():
                if len(procs) == 1:
                    try:
                        return [(True, procs[0][1]())]
                    except (Exception, KeyboardInterrupt) as e:
                        return [(False, e)]
                return Scheduler(run.w, random.Random(
                    "j-%s-%d" % (run.plan["seed"], i))).run(
                        [p[1] for p in procs])
            out = run.step(i if tries == 0 else -2, go)
            run.w.full = False
            if out.killed:
                res = [(False, SimKilled())]
            elif not out.ok:
                raise out.exc
            else:
                res = out.value
            again = self.judge(jobs, wants, procs, res, out.faults, before)
            for p, fn in procs:
                if not p.dead:
                    p.exit()
            if not again:
                return
            run.probe("repeated")
            jobs = [j for j, a in zip(jobs, again) if a]
            wants = [w for w, a in zip(wants, again) if a]
            if not jobs:
                return
        raise PlanInvalid("failed twice")

    def snapshot(self):
        """What every file on the disk holds, as a new process sees it."""
        aud = self.run.proc(host="audit")
        store = aud.imp("echidna.output.store")
        out = {}
        for path, n in sorted(self.run.disk.files.items()):
            if path.startswith("/repo/output/logs/") or \
                    posixpath.basename(path).startswith("none."):
                continue
            if n.kind != "h5":
                out[path] = ("bytes", n.data)
                continue
            got = self.run.step(-1, lambda: store.load(path))
            out[path] = obs_spectrum(got.value) if got.ok else None
        aud.exit()
        return out

    def judge(self, jobs, wants, procs, res, faults, before):
        """Which jobs have to be run again."""
        run = self.run
        after = self.snapshot()
        outs = {}
        again = []
        for job, want, (p, fn), (ok, value) in zip(jobs, wants, procs, res):
            what = "%s %s" % (SCRIPTS[job["script"]], " ".join(job["argv"]))
            failed = not ok or value not in (None, 0)
            said = p.stderr.getvalue() + p.stdout.getvalue()
            if isinstance(value, SimKilled):
                run.probe("killed")
            if job.get("broken"):
                run.check(failed or "terminated" in said or
                          "Error" in said or faults, "silent",
                          lambda: "%s did not say that it failed" % what)
                run.probe("refused " + job["broken"])
                again.append(False)
                continue
            good = True
            for path, w in sorted(want.items()):
                outs[path] = what
                got = after.get(path)
                d = self.compare(w, got) if isinstance(got, dict) else \
                    "not there"
                if d is None:
                    run.probe("output")
                    run.nontrivial = True
                    continue
                good = False
                if faults:
                    # absent or unopenable, or what was there before
                    run.check(after.get(path) is None or diff(
                        before.get(path), after[path]) is None,
                        "wrong-output", lambda: "%s was hit by a fault and "
                        "left wrong contents in %s: %s" % (what, path, d))
                    continue
                run.check(False, "output", lambda: "%s: %s is not what it "
                          "should be: %s (%s)%s" % (
                              what, path, d, "raised %r" % value if not ok
                              else "returned %r" % value,
                              "; new files: %s" % sorted(
                                  set(after) - set(before)) +
                              "; said: " + said[-300:]))
            if failed and not faults:
                run.check(False, "failed", lambda: "%s failed with no fault "
                          "injected: %r %s" % (what, value, said[-300:]))
            if not good and not isinstance(value, SimKilled):
                run.check(failed or "terminated" in said or "Error" in said
                          or "Traceback" in said, "silent",
                          lambda: "%s did not make %s and did not say so: %s"
                          % (what, sorted(want), said[-300:]))
            again.append(not good)
        for path in sorted(set(before) | set(after)):
            if path in outs:
                continue
            if path not in before:
                run.check(faults and not path.endswith(".hdf5"),
                          "extra-file", lambda: "%s also made %s" % (
                              [j["argv"] for j in jobs], path))
                continue
            run.check(path in after and diff(before[path], after[path])
                      is None, "other-file", lambda: "%s changed %s" % (
                          [j["argv"] for j in jobs], path))
        run.state(tuple(j["script"] for j in jobs), len(faults),
                  tuple(again), len(after))
        return again if any(again) else None


def execute(run):
    sim = ScriptSim(run)
    for i, st in enumerate(run.plan["steps"]):
        if st["op"] == "spectrum":
            sim.spectrum(st)
        else:
            for job in st["jobs"]:
                if "input" in job and job["input"] not in sim.files:
                    raise PlanInvalid("input")
            sim.step(i, st)
