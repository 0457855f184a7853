"""The simulated world: one PRNG, one clock, one disk, one event log.

Everything that is not a pure function of the program and its inputs goes
through `World.seam`, which logs the event, lets the scheduler switch to
another simulated process, and injects the faults named by the plan.
"""
import errno
import hashlib
import linecache
import random
import sys
import threading


class SimKilled(BaseException):
    """The simulated process is dead (SIGKILL); nothing it does counts."""


class HarnessError(Exception):
    """The simulator (not the code under test) misbehaved."""


class StepLimit(BaseException):
    """A step made more seam calls than any terminating run could."""


READ_KINDS = ("h5.open_r", "h5.read_attr", "h5.read_data", "h5.lookup",
              "fs.open_r", "fs.read", "fs.stat", "fs.list", "root.open",
              "root.entry")
WRITE_KINDS = ("h5.open_w", "h5.open_a", "h5.group", "h5.attr", "h5.data",
               "h5.delete", "h5.close", "h5.flush", "fs.open_w", "fs.write",
               "fs.close", "fs.rename", "fs.remove", "fs.mkdir", "fs.fsync")


# Methods that change a spectrum or parameter in place: not interrupted
# between two lines (what they call is interrupted at its seams)
CHANGES = {"core/spectra.py": (
    "rebin", "shrink", "cut", "shrink_to_roi", "scale", "add", "fill")}


def within(frame, names):
    """Is one of the methods being carried out?"""
    while frame is not None:
        for end, fns in names.items():
            if frame.f_code.co_name in fns and \
                    frame.f_code.co_filename.endswith(end):
                return True
        frame = frame.f_back
    return False


class World(object):
    def __init__(self, seed, faults=(), start_time=1.45e9, max_seams=200000):
        self.seed = seed
        self.rng = random.Random("world-%s" % (seed,))
        self.log = []
        self.now = float(start_time)
        self.mono = 0.0
        self.sim_elapsed = 0.0
        self.faults = [dict(f) for f in faults]
        self.fired = []          # faults that actually happened
        self.fault_counts = {}
        self.seam_counts = {}
        self.step = -1
        self.step_counts = {}
        self.step_total = 0
        self.step_hist = {}      # step -> {(pid, class or kind): seam calls}
        self.max_seams = max_seams
        self.full = False        # disk currently full (sticky ENOSPC)
        self.disk = None
        self.procs = []
        self.sched = None
        self.probes = {}
        self.tick = 1e-3         # simulated cost of one seam call
        self.lines = ()          # steps whose every line is a point for faults

    # -- events -----------------------------------------------------------
    def event(self, *what):
        self.log.append(what)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode("utf-8", "replace"))
            h.update(b"\n")
        return h.hexdigest()

    def begin_step(self, i):
        self.step = i
        self.step_counts = self.step_hist.setdefault(i, {})
        self.step_total = 0
        # a full disk lasts for the step it happened in
        self.full = False

    # -- lines ------------------------------------------------------------
    def line(self, code, number):
        """Called before a line of the code under test is run in a step of
        `lines`; the injected error arrives there. (Not at a with statement:
        leaving its block comes to that line again.)"""
        k = (0, "line")
        n = self.step_counts[k] = self.step_counts.get(k, 0) + 1
        for f in self.faults:
            if f.get("on") == "line" and not f.get("done") and \
                    f["step"] == self.step and f["nth"] <= n and \
                    not linecache.getline(
                        code.co_filename, number).lstrip().startswith(
                            "with ") and \
                    not within(sys._getframe(1), CHANGES):
                f["done"] = True
                self.event("LINE", code.co_name, code.co_filename, number)
                return self._inject(None, "line", f)

    def alloc(self, code):
        """Called before the code under test allocates an array in a step of
        `lines`."""
        k = (0, "alloc")
        n = self.step_counts[k] = self.step_counts.get(k, 0) + 1
        for f in self.faults:
            if f.get("on") == "alloc" and not f.get("done") and \
                    f["step"] == self.step and f["nth"] == n:
                f["done"] = True
                self.event("ALLOC", code.co_name, code.co_filename)
                return self._inject(None, "alloc", f)

    def advance(self, dt):
        self.now += dt
        if dt > 0:
            self.mono += dt
            self.sim_elapsed += dt

    # -- the one gate -----------------------------------------------------
    def seam(self, proc, kind, detail=""):
        """Called before the named operation takes effect.

        May switch process, kill this process, or raise the injected error.
        Returns the fault dict when the operation must be torn rather than
        failed cleanly, else None.
        """
        if proc is not None and proc.dead:
            raise SimKilled()
        if self.sched is not None:
            self.sched.switch()
            if proc is not None and proc.dead:
                raise SimKilled()
        self.advance(self.tick)
        self.seam_counts[kind] = self.seam_counts.get(kind, 0) + 1
        self.step_total += 1
        if self.step_total > self.max_seams:
            raise StepLimit()
        pid = proc.pid if proc is not None else 0
        self.event(pid, kind, detail)
        cls = "r" if kind in READ_KINDS else \
            ("w" if kind in WRITE_KINDS else "x")
        # positions within the step, by class, by exact kind and overall
        for key in ("any", cls, kind):
            k = (pid, key)
            self.step_counts[k] = self.step_counts.get(k, 0) + 1
        for f in self.faults:
            if f.get("done") or f["step"] != self.step:
                continue
            if f.get("pid") not in (None, pid):
                continue
            where = f.get("on", "any")
            if where not in ("any", cls, kind):
                continue
            if self.step_counts[(pid, where)] != f["nth"]:
                continue
            f["done"] = True
            return self._inject(proc, kind, f)
        if self.full and cls == "w" and kind not in (
                "fs.remove", "fs.close", "h5.close", "h5.delete"):
            raise OSError(errno.ENOSPC, "No space left on device")
        return None

    def _count(self, kind, f):
        name = f["kind"]
        self.fault_counts[name] = self.fault_counts.get(name, 0) + 1
        self.fired.append((self.step, kind, name))
        self.event("FAULT", name, kind)

    def _inject(self, proc, kind, f):
        k = f["kind"]
        self._count(kind, f)
        if k == "kill":
            if proc is None:
                return None
            proc.kill(torn=f.get("torn", "unopenable"))
            raise SimKilled()
        if k == "EIO":
            raise OSError(errno.EIO, "Input/output error")
        if k == "EACCES":
            raise OSError(errno.EACCES, "Permission denied")
        if k == "ENOSPC":
            self.full = True
            raise OSError(errno.ENOSPC, "No space left on device")
        if k == "short":          # a torn plain-file write, then an error
            return f
        if k == "interrupt":
            raise KeyboardInterrupt()
        if k == "nomem":
            raise MemoryError("simulated allocation failure")
        if k == "clock_jump":
            self.now += f["delta"]
            return None
        if k == "stall":
            self.advance(f["delta"])
            return None
        raise HarnessError("unknown fault kind %r" % (k,))


class Scheduler(object):
    """Runs simulated processes on parked threads, one at a time.

    The only choice that matters (who runs next at each seam call) is made by
    the PRNG; threads merely hold the stacks.
    """

    def __init__(self, world, rng):
        self.world = world
        self.rng = rng
        self.tasks = []
        self.current = None
        self.main = threading.Semaphore(0)
        self.switches = 0
        self.abort = None

    def run(self, thunks):
        """thunks: list of callables. Returns list of (ok, value/exception)."""
        results = [None] * len(thunks)
        for i, fn in enumerate(thunks):
            t = {"id": i, "sem": threading.Semaphore(0), "done": False}

            def body(i=i, fn=fn, t=t):
                t["sem"].acquire()
                try:
                    results[i] = (True, fn())
                except BaseException as e:  # noqa
                    results[i] = (False, e)
                t["done"] = True
                self._pass_on()

            t["thread"] = threading.Thread(target=body, daemon=True)
            self.tasks.append(t)
        for t in self.tasks:
            t["thread"].start()
        self.world.sched = self
        try:
            self._pass_on()
            self.main.acquire()
        finally:
            self.world.sched = None
        for t in self.tasks:
            t["thread"].join()
        return results

    def _pass_on(self):
        live = [t for t in self.tasks if not t["done"]]
        if not live:
            self.current = None
            self.main.release()
            return
        nxt = live[self.rng.randrange(len(live))]
        self.current = nxt
        nxt["sem"].release()

    def switch(self):
        live = [t for t in self.tasks if not t["done"]]
        if len(live) < 2:
            return
        nxt = live[self.rng.randrange(len(live))]
        me = self.current
        if nxt is me:
            return
        self.switches += 1
        self.world.event("SWITCH", nxt["id"])
        self.current = nxt
        nxt["sem"].release()
        me["sem"].acquire()
