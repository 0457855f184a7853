"""Seeded search over simulated runs: batches, minimisation, replay, evidence.

A property module provides

  ID, TITLE, RULE, REAL, STUB, ASSUMPTIONS, LEVEL
  generate(rng, tier)  -> plan (JSON-able dict with "steps" and "faultable")
  execute(run)         -> runs plan["steps"] on a fresh World, raising
                          Violation when the property is broken
  SIZES = {"quick": (runs, variants), "thorough": (runs, variants)}

Optional: draw_faults(rng, plan, hist), shrink(plan) -> candidate plans.

A plan plus the code decides an execution completely: the plan is the replay
file.  Run number i of a batch derives everything from (VERIF_SEED, ID, i),
whatever the number of worker processes.
"""
import copy
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
import types
import warnings

import numpy

from .disk import Disk
from .process import SimProcess, preload
from .world import HarnessError, SimKilled, StepLimit, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 30.0          # CPU seconds one execution may take


class Violation(Exception):
    """The property is broken. `key` names what failed, stably."""

    def __init__(self, key, message=""):
        super(Violation, self).__init__(key, message)
        self.key = key
        self.message = message


class PlanInvalid(Exception):
    """The plan makes no sense (only the minimiser produces these)."""


class RunTimeout(BaseException):
    pass


class Outcome(object):
    __slots__ = ("ok", "value", "exc", "killed", "faults")

    def __init__(self, ok=False, value=None, exc=None, killed=False,
                 faults=()):
        self.ok, self.value, self.exc = ok, value, exc
        self.killed, self.faults = killed, faults

    @property
    def raised(self):
        return self.exc is not None

    def describe(self):
        if self.ok:
            return "returned"
        if self.killed:
            return "killed"
        return "raised %s: %s" % (type(self.exc).__name__,
                                  str(self.exc)[:200])


# faults that do not make an operation fail
BENIGN = ("clock_jump", "stall")


def watch_lines(plan):
    """The steps in which every line is a point where a fault may come: with
    faults, those that have one there; without, those that may get one."""
    if plan.get("faults"):
        return set(f["step"] for f in plan["faults"]
                   if f.get("on") in ("line", "alloc"))
    every = plan.get("lines") or os.environ.get("VERIF_LINES")
    return set(s["step"] for s in plan.get("faultable", ())
               if "alloc" in (s.get("ons") or ()) or
               (every and set(s["kinds"]) & set(LINE_KINDS)))


LINE_KINDS = ("interrupt", "nomem")
_FUNCTION = 1            # CO_OPTIMIZED
# what makes an array
MAKES = ("zeros", "ones", "empty", "full", "zeros_like", "ones_like",
         "empty_like", "array", "append", "concatenate", "multiply", "divide",
         "add", "subtract", "tile", "repeat", "linspace", "arange", "astype",
         "copy", "deepcopy", "sum", "outer", "dot", "tensordot", "true_divide",
         "where", "cumsum", "stack")


def allocates(code, at, fn, arg):
    """Does this call allocate an array? (A sum over all axes does not.)"""
    name = getattr(fn, "__name__", None)
    if name not in MAKES:
        return False
    array = isinstance(arg, numpy.ndarray)
    if name in ("copy", "deepcopy"):
        return array
    method = array and (isinstance(fn, types.MethodDescriptorType) or
                        isinstance(getattr(fn, "__self__", None),
                                   numpy.ndarray))
    if not method and not isinstance(fn, numpy.ufunc) and \
            not (getattr(fn, "__module__", None) or "").startswith("numpy"):
        return False
    if name == "sum":
        return code.co_code[at + 1] >= (1 if method else 2)
    return True


class Lines(object):
    """Shows the lines of the code under test to the world."""

    def __init__(self, world, step):
        self.w = world
        self.on = step in world.lines and world.sched is None

    def __enter__(self):
        if not self.on:
            return
        m = sys.monitoring
        if m.get_tool(m.DEBUGGER_ID) is None:
            m.use_tool_id(m.DEBUGGER_ID, "verif")
        line, call = self.w.line, self.w.alloc

        def called(code, at, fn, arg):
            if not code.co_flags & _FUNCTION or \
                    not code.co_filename.startswith("/repo/"):
                return m.DISABLE
            if allocates(code, at, fn, arg):
                call(code)

        def seen(code, number):
            if not code.co_flags & _FUNCTION or \
                    not code.co_filename.startswith("/repo/"):
                return m.DISABLE
            line(code, number)
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, seen)
        m.register_callback(m.DEBUGGER_ID, m.events.CALL, called)
        m.set_events(m.DEBUGGER_ID, m.events.LINE | m.events.CALL)

    def __exit__(self, *a):
        if self.on:
            m = sys.monitoring
            m.set_events(m.DEBUGGER_ID, 0)
            m.register_callback(m.DEBUGGER_ID, m.events.LINE, None)
            m.register_callback(m.DEBUGGER_ID, m.events.CALL, None)


class Run(object):
    """One execution of one plan."""

    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan["seed"], plan.get("faults", ()),
                       start_time=plan.get("start_time", 1.45e9))
        self.disk = Disk(self.w)
        self.rng = random.Random("run-%s" % (plan["seed"],))
        self.states = set()
        self.nontrivial = False
        self.checks = 0
        self.w.lines = watch_lines(plan)

    def proc(self, **k):
        return SimProcess(self.w, **k)

    def step(self, i, fn):
        """Run fn as step i; report what happened to it."""
        self.w.begin_step(i)
        n = len(self.w.fired)
        try:
            with Lines(self.w, i):
                value = fn()
            out = Outcome(ok=True, value=value)
        except SimKilled:
            out = Outcome(killed=True)
        except (HarnessError, PlanInvalid, Violation, StepLimit, RunTimeout):
            raise
        except BaseException as e:
            out = Outcome(exc=e)
        finally:
            self.w.begin_step(-1)      # nothing is injected between steps
        out.faults = [f for f in self.w.fired[n:] if f[2] not in BENIGN]
        self.w.event("STEP", i, out.describe())
        return out

    def must(self, i, what, fn):
        """A step that has to succeed unless a fault hit it."""
        out = self.step(i, fn)
        if out.raised and not out.faults:
            tb = traceback.extract_tb(out.exc.__traceback__)
            where = [t for t in tb if t.filename.startswith("/repo/")]
            at = "%s:%s" % (where[-1].filename[6:], where[-1].lineno) \
                if where else "?"
            raise Violation("%s-raises-%s" % (what, type(out.exc).__name__),
                            "%s failed with no fault injected: %s at %s"
                            % (what, out.describe(), at))
        return out

    def check(self, cond, key, message=""):
        self.checks += 1
        if not cond:
            if callable(message):
                message = message()
            raise Violation(key, message)

    def state(self, *token):
        self.states.add(hashlib.md5(repr(token).encode()).hexdigest()[:12])

    def probe(self, name):
        self.w.probe(name)


class Result(object):
    """What is kept of one execution (picklable)."""

    def __init__(self):
        self.violation = None        # (key, message)
        self.harness = None
        self.digest = None
        self.invalid = False
        self.probes = {}
        self.fault_counts = {}
        self.fired = []
        self.sim = 0.0
        self.hist = {}
        self.states = ()
        self.nontrivial = False
        self.checks = 0
        self.seams = 0
        self.switches = 0
        self.tail = []


def _alarm(signum, frame):
    raise RunTimeout()


def execute(prop, plan, keep_log=False):
    plan = json.loads(json.dumps(plan))     # exactly what a replay would read
    res = Result()
    run = Run(plan)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 1.0)
    try:
        try:
            prop.execute(run)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as v:
        res.violation = (v.key, v.message)
    except PlanInvalid:
        res.invalid = True
    except StepLimit:
        res.violation = ("no-progress", "a step made more than %d operations "
                         "without finishing" % run.w.max_seams)
    except RunTimeout:
        res.violation = ("hang", "no answer within %g CPU seconds"
                         % CPU_LIMIT)
    except HarnessError:
        res.harness = traceback.format_exc()
    except BaseException as e:
        # raised by the code under test while the oracle used its public API
        # with no fault around: the answer itself is broken
        tb = traceback.extract_tb(e.__traceback__)
        inside = tb and tb[-1].filename.startswith("/repo/")
        through = any(t.filename.startswith("/repo/") for t in tb)
        if inside or (through and not isinstance(e, SimKilled)):
            at = [t for t in tb if t.filename.startswith("/repo/")][-1]
            res.violation = ("unexpected-%s" % type(e).__name__,
                             "%s: %s at %s:%s" % (
                                 type(e).__name__, str(e)[:200],
                                 at.filename[6:], at.lineno))
        elif isinstance(e, (TypeError, ValueError, IndexError, KeyError,
                            AttributeError, ArithmeticError)):
            # the oracle cannot read an answer: it has not the type, the
            # shape or the parts that it has to have
            res.violation = ("unreadable-%s" % type(e).__name__,
                             "an answer cannot be read: %s: %s (%s)" % (
                                 type(e).__name__, str(e)[:200],
                                 (tb[-1].line or "?") if tb else "?"))
        else:
            res.harness = traceback.format_exc()
    finally:
        signal.signal(signal.SIGPROF, old)
    w = run.w
    if res.violation:
        w.event("VIOLATION", res.violation[0])
    res.digest = w.digest()
    res.probes = w.probes
    res.fault_counts = w.fault_counts
    res.fired = list(w.fired)
    res.sim = w.sim_elapsed
    res.hist = w.step_hist
    res.states = run.states
    res.nontrivial = run.nontrivial
    res.checks = run.checks
    res.seams = sum(w.seam_counts.values())
    res.switches = sum(1 for e in w.log if e[0] == "SWITCH")
    if res.violation or keep_log:
        res.tail = [repr(e) for e in w.log[-60:]]
    if keep_log:
        res.log = [repr(e) for e in w.log]
    return res


# -- faults ---------------------------------------------------------------

CLASS_OF = {"ENOSPC": ("w",), "EIO": ("r", "w", "any"),
            "EACCES": ("h5.open_w", "h5.open_a", "h5.open_r", "fs.open_w",
                       "fs.open_r"),
            "short": ("fs.write", "h5.data", "h5.attr"),
            "kill": ("any", "w"), "interrupt": ("any",), "nomem": ("any",),
            "clock_jump": ("any",), "stall": ("any",)}


def one_fault(rng, step, kind, hist, ons=None, pid=None):
    """A fault of `kind` at some operation that step really performed."""
    counts = {}
    for (p, key), n in sorted(hist.get(step, {}).items()):
        if pid in (None, p):
            counts[key] = max(n, counts.get(key, 0))
    if ons is None and counts.get("line") and kind in LINE_KINDS and \
            rng.random() < 0.7:
        ons = ("line",)
        if kind == "nomem" and counts.get("alloc"):
            ons = ("line", "alloc")
    choices = [o for o in (ons or CLASS_OF[kind]) if counts.get(o)]
    if not choices:
        return None
    on = rng.choice(choices)
    n = counts[on]
    r = rng.random()
    if r < 0.7:
        nth = rng.randint(1, n)
    elif r < 0.85:
        nth = rng.randint(max(1, n - 3), n)
    else:
        nth = rng.randint(1, min(n, 4))
    f = {"step": step, "nth": nth, "on": on, "kind": kind}
    if pid is not None:
        f["pid"] = pid
    if kind == "kill":
        f["torn"] = rng.choice(["unopenable", "old", "prefix", "prefix"])
    elif kind == "short":
        f["frac"] = round(rng.random(), 3)
    elif kind == "clock_jump":
        f["delta"] = rng.choice([-7200., -60., -1., 1., 3600., 86400.])
    elif kind == "stall":
        f["delta"] = rng.choice([0.1, 5., 600.])
    return f


def default_draw(rng, plan, hist):
    """One or (less often) two faults inside the plan's faultable steps."""
    out = []
    spots = plan.get("faultable", [])
    if not spots:
        return out
    for _ in range(1 if rng.random() < 0.75 else 2):
        spot = rng.choice(spots)
        kind = rng.choice(spot["kinds"])
        f = one_fault(rng, spot["step"], kind, hist, spot.get("ons"),
                      spot.get("pid"))
        if f:
            out.append(f)
    return out


# -- batches --------------------------------------------------------------

class Tally(object):
    def __init__(self):
        self.runs = 0            # plans generated
        self.executions = 0
        self.digests = set()
        self.nontrivial = set()
        self.states = set()
        self.faults = {}
        self.positions = set()
        self.probes = {}
        self.sim = 0.0
        self.checks = 0
        self.seams = 0
        self.switches = 0
        self.faulted = 0
        self.samples = []
        self.index_digests = {}

    def add(self, res):
        self.executions += 1
        self.digests.add(res.digest[:16])
        if res.nontrivial:
            self.nontrivial.add(res.digest[:16])
        self.states |= set(res.states)
        for k, v in res.fault_counts.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for step, seam, kind in res.fired:
            self.positions.add((step, seam, kind))
        for k, v in res.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.sim += res.sim
        self.checks += res.checks
        self.seams += res.seams
        self.switches += res.switches
        if res.fired:
            self.faulted += 1

    def merge(self, o):
        self.runs += o.runs
        self.executions += o.executions
        for n in ("digests", "nontrivial", "states", "positions"):
            getattr(self, n).update(getattr(o, n))
        for a, b in ((self.faults, o.faults), (self.probes, o.probes)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        for n in ("sim", "checks", "seams", "switches", "faulted"):
            setattr(self, n, getattr(self, n) + getattr(o, n))
        self.samples += o.samples
        self.index_digests.update(o.index_digests)


def plans_of(prop, seed, i, tier, variants):
    """The plans of run i: fault-free first, then with faults drawn from the
    operations the fault-free execution really performed. A generator: send
    back the Result of the fault-free execution."""
    rng = random.Random("%s/%s/%s" % (seed, prop.ID, i))
    plan = prop.generate(rng, tier)
    plan.setdefault("seed", "%s/%s/%s" % (seed, prop.ID, i))
    plan.setdefault("faults", [])
    if tier == "thorough" and getattr(prop, "LINES", False) and \
            random.Random("%s/lines" % plan["seed"]).random() < 0.3:
        plan["lines"] = True
    res = yield plan
    draw = getattr(prop, "draw_faults", default_draw)
    for v in range(variants):
        frng = random.Random("%s/%s/%s/f%d" % (seed, prop.ID, i, v))
        p = copy.deepcopy(plan)
        p["seed"] = "%s/v%d" % (plan["seed"], v)
        p["faults"] = draw(frng, p, res.hist) or []
        if not p["faults"] and not p.get("vary"):
            continue
        yield p


def run_index(prop, seed, i, tier, variants, tally, log=None):
    """Returns (plan, Result) of the first violation or harness error."""
    gen = plans_of(prop, seed, i, tier, variants)
    try:
        plan = next(gen)
    except StopIteration:
        return None
    tally.runs += 1
    digests = []
    first = True
    while True:
        res = execute(prop, plan)
        if res.invalid:
            res.harness = "generated plan is invalid"
        tally.add(res)
        digests.append(res.digest[:16])
        if log is not None:
            log(i, plan, res)
        if res.violation or res.harness:
            tally.index_digests[i] = digests
            return plan, res
        if len(tally.samples) < 2 and res.nontrivial and (
                plan["faults"] or not variants):
            tally.samples.append({
                "run": i, "steps": plan["steps"], "faults": plan["faults"],
                "fired": ["step %d: %s at %s" % (s, k, o)
                          for s, o, k in res.fired]})
        try:
            plan = gen.send(res) if first else next(gen)
            first = False
        except StopIteration:
            tally.index_digests[i] = digests
            return None


def _worker(prop, seed, tier, lo, n, stride, variants, deadline, wfd,
            first_bad):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass
    tally = Tally()
    bad = None
    done = 0
    try:
        for i in range(lo, n, stride):
            # runs after the first bad one cannot change the answer
            if time.time() > deadline or \
                    i > struct.unpack("q", first_bad[:8])[0]:
                break
            hit = run_index(prop, seed, i, tier, variants, tally)
            done += 1
            if hit:
                plan, res = hit
                bad = (i, plan, res.violation, res.harness, res.tail)
                if i < struct.unpack("q", first_bad[:8])[0]:
                    first_bad[:8] = struct.pack("q", i)
                break
    except BaseException:
        bad = (-1, None, None, traceback.format_exc(), [])
    tally.states = set(tally.states)
    data = pickle.dumps((tally, bad, done))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def batch(prop, seed, tier, runs, variants, workers, budget):
    preload()
    # warm the real imports once, before forking
    w = World("warm")
    Disk(w)
    try:
        p = SimProcess(w)
        p.imp("yaml")
        p.imp("echidna.output.store")
        p.imp("echidna.fit.fit")
    except BaseException:
        pass        # reported by the runs themselves
    deadline = time.time() + budget
    kids = []
    first_bad = mmap.mmap(-1, 8)
    first_bad[:8] = struct.pack("q", 1 << 60)
    sys.stdout.flush()
    for k in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _worker(prop, seed, tier, k, runs, workers, variants, deadline,
                    wfd, first_bad)
        os.close(wfd)
        kids.append((pid, r))
    tally = Tally()
    bads = []
    bufs = {r: b"" for _, r in kids}
    hard = deadline + CPU_LIMIT * 3 + 60
    open_fds = set(bufs)
    while open_fds and time.time() < hard:
        ready, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                bufs[fd] += chunk
            else:
                open_fds.discard(fd)
                os.close(fd)
    for pid, fd in kids:
        if fd in open_fds:
            os.kill(pid, signal.SIGKILL)
            bads.append((1 << 30, None, None,
                         "worker %d gave no answer" % pid, []))
        os.waitpid(pid, 0)
        if fd not in open_fds:
            if not bufs[fd]:
                bads.append((1 << 30, None, None, "worker %d died" % pid, []))
                continue
            t, bad, done = pickle.loads(bufs[fd])
            tally.merge(t)
            if bad:
                bads.append(bad)
    return tally, bads


# -- minimisation ---------------------------------------------------------

def _without_step(plan, k):
    p = copy.deepcopy(plan)
    del p["steps"][k]
    fs = []
    for f in p["faults"]:
        if f["step"] == k:
            continue
        if f["step"] > k:
            f["step"] -= 1
        fs.append(f)
    p["faults"] = fs
    return p


def minimise(prop, plan, key, budget=45.0):
    end = time.time() + budget
    tries = [0]

    def fails(p):
        if time.time() > end:
            return False
        tries[0] += 1
        r = execute(prop, p)
        return r.violation is not None and r.violation[0] == key

    if key == "hang":
        return plan, 0
    best = plan
    changed = True
    while changed and time.time() < end:
        changed = False
        for k in reversed(range(len(best["faults"]))):
            p = copy.deepcopy(best)
            del p["faults"][k]
            if fails(p):
                best, changed = p, True
        k = len(best["steps"]) - 1
        while k >= 0:
            if len(best["steps"]) > 1:
                p = _without_step(best, k)
                if fails(p):
                    best, changed = p, True
            k -= 1
        for p in (prop.shrink(best) if hasattr(prop, "shrink") else ()):
            if time.time() > end:
                break
            if fails(p):
                best, changed = p, True
                break
    return best, tries[0]


# -- command --------------------------------------------------------------

def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop.ID):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out.append((key.replace("key=", ""), what))
    return out


def replay_file(path):
    with open(path) as f:
        return json.load(f)


def write_evidence(prop, tier, seed, tally, wall, violations, workers, runs,
                   variants):
    ev = {
        "property": prop.ID, "tier": tier, "seed": int(seed),
        "level": prop.LEVEL, "wall_s": round(wall, 3),
        "violations": violations,
        "assumptions": list(prop.ASSUMPTIONS),
        "coverage": {
            "evaluations": tally.executions,
            "distinct_nontrivial": len(tally.nontrivial),
            "rule": prop.RULE + " Distinct = different event log digest (every"
                    " simulated operation, fault, switch and step outcome).",
            "samples": tally.samples[:2],
            "workloads": tally.runs,
            "executions_with_fault_fired": tally.faulted,
            "distinct_histories": len(tally.digests),
            "distinct_states": len(tally.states),
            "distinct_fault_sites": len(tally.positions),
            "faults_injected": dict(sorted(tally.faults.items())),
            "probes": dict(sorted(tally.probes.items())),
            "oracle_checks": tally.checks,
            "simulated_operations": tally.seams,
            "scheduler_switches": tally.switches,
            "simulated_seconds": round(tally.sim, 3),
            "executions_per_hour": int(tally.executions / max(wall, 1e-3)
                                       * 3600),
            "seeds_per_hour": int(tally.runs / max(wall, 1e-3) * 3600),
            "workers": workers,
            "runs_requested": runs, "fault_variants_per_run": variants,
            "real_components": prop.REAL, "stub_components": prop.STUB,
        },
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % prop.ID))


def save_replay(prop, plan, violation, tail, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = hashlib.md5(json.dumps(plan, sort_keys=True).encode()
                       ).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop.ID, name))
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "violation": violation[0],
                   "message": violation[1], "verif_seed": seed,
                   "plan": plan, "trace_tail": tail}, f, indent=1,
                  default=str)
    return path


def main(prop, argv):
    import argparse
    import subprocess
    warnings.simplefilter("ignore")
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count()
                                                       or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--variants", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write every run's digests here")
    ap.add_argument("--log", type=int, help="print the log of one run")
    a = ap.parse_args(argv)
    import numpy
    numpy.seterr(all="ignore")
    if a.replay:
        preload()
        data = replay_file(a.replay)
        res = execute(prop, data["plan"], keep_log=True)
        if a.log:
            print("\n".join(res.log))
        if res.harness or res.invalid:
            print(res.harness or "invalid plan")
            return 2
        if res.violation:
            print("%s: %s" % res.violation)
            print("digest %s" % res.digest)
            print("VIOLATION property=%s replay=%s" % (prop.ID, a.replay))
            return 1
        print("no violation, digest %s" % res.digest)
        return 0
    runs, variants = prop.SIZES[a.tier]
    runs = a.runs or runs
    variants = variants if a.variants is None else a.variants
    budget = a.budget or (420.0 if a.tier == "quick" else 3600.0)
    t0 = time.time()
    print("%s tier=%s seed=%s runs=%d variants=%d workers=%d" % (
        prop.ID, a.tier, a.seed, runs, variants, a.workers))
    sys.stdout.flush()
    tally, bads = batch(prop, a.seed, a.tier, runs, variants, a.workers,
                        budget)
    known = dict(known_findings(prop))
    status = 0
    found = sorted((b for b in bads if b[2]), key=lambda b: b[0])
    harness = [b for b in bads if b[3]]
    # a known finding is one listed execution, not a kind of violation
    for key, what in sorted(known.items()):
        plan = prop.known_plan(key)
        plan.setdefault("seed", "known/%s" % key)
        plan.setdefault("faults", [])
        plan.setdefault("steps", [])
        res = execute(prop, plan)
        if res.harness:
            harness.append((-1, plan, None, res.harness, res.tail))
        elif res.violation and res.violation[0] == key:
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, what))
        elif res.violation:
            found.append((-1, plan, res.violation, None, res.tail))
    fresh = found
    violations = 0
    if fresh:
        i, plan, viol, _, tail = fresh[0]
        violations = len(fresh)
        small, tries = minimise(prop, plan, viol[0])
        res = execute(prop, small)
        if res.violation and res.violation[0] == viol[0]:
            viol, tail = res.violation, res.tail
        else:
            small = plan
        path = save_replay(prop, small, viol, tail, a.seed)
        print("run %d: %s: %s" % (i, viol[0], viol[1]))
        print("minimised to %d steps, %d faults (%d executions)" % (
            len(small["steps"]), len(small["faults"]), tries))
        try:
            r = subprocess.run(
                [sys.executable, os.path.join(VERIF, "check.py"), prop.ID,
                 "--replay", path], stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=150)
            print("replay in a fresh process: exit %d" % r.returncode)
        except subprocess.TimeoutExpired:
            print("replay in a fresh process: timeout")
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        status = 1
    elif harness:
        for b in harness[:2]:
            print("HARNESS ERROR in run %d:\n%s" % (b[0], b[3]))
            if b[1] is not None:
                p = save_replay(prop, b[1], ("harness", ""), b[4], a.seed)
                print("plan: %s" % p)
        status = 2
    wall = time.time() - t0
    write_evidence(prop, a.tier, a.seed, tally, wall, violations, a.workers,
                   runs, variants)
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(tally.index_digests):
                f.write("%d %s\n" % (i, " ".join(tally.index_digests[i])))
    print("%s: %d workloads, %d executions (%d with faults), %d distinct, "
          "%d states, faults %s, %.0f simulated s, %.1f s" % (
              prop.ID, tally.runs, tally.executions, tally.faulted,
              len(tally.nontrivial), len(tally.states), tally.faults,
              tally.sim, wall))
    if status == 0 and tally.runs == 0:
        print("HARNESS ERROR: nothing was executed")
        return 2
    return status
