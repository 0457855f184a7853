"""U01: the log of a run holds the messages of that run, all of them."""
import re

from . import common
from sim.runner import PlanInvalid

ID = "U01"
LEVEL = "exploration"
RULE = ("Several processes, on one or more hosts, start logging from scripts "
        "of various names (with and without script and short names, twice, "
        "in normal and cautious mode), log messages of all levels by several "
        "loggers, warn, and do work that logs itself, with restarts, kills, "
        "full disks and write errors. It counts as nontrivial if messages "
        "were compared after a restart, kill, fault or another process's "
        "messages.")
REAL = ["echidna.utilities", "echidna.settings", "echidna.core.parameter",
        "echidna.core.spectra", "logging", "warnings", "inspect"]
STUB = ["open/os (simulated disk)", "os.getpid, socket.gethostname",
        "colorlog", "stderr"]
ASSUMPTIONS = [
    "Log records are flushed one by one, as logging.FileHandler does.",
    "Processes of one host differ in their pid.",
    "A message whose write failed may be missing or cut off."]
SIZES = {"quick": (3000, 2), "thorough": (60000, 4)}

LEVELS = ("debug", "info", "warning", "error", "critical")
RANK = {n: k for k, n in enumerate(LEVELS)}
SCRIPTS = ("fit_all", "dump", "my.study", "x")
LOGGERS = ("spectra", "Fit", "extra", "mine", "mine.sub", "extra.sub", "")
PATHS = (None, "/work/logs/", "/work/")


def generate(rng, tier):
    steps, fault = [], []
    n = rng.randint(1, 3)
    hosts = [rng.choice(["node1", "node1", "node2", "node1.snolab.ca",
                         "node1.cern.ch"]) for _ in range(n)]
    settings = [{"level": rng.choice(["debug", "info", "info", "warning"]),
                 "mode": rng.choice(["normal", "normal", "cautious"]),
                 "path": rng.choice(PATHS),
                 "script": rng.choice(SCRIPTS),
                 "capture": rng.random() < 0.8,
                 "short": rng.random() < 0.2,
                 "named": rng.random() < 0.7} for _ in range(n)]
    started = [False] * n
    for _ in range(rng.randint(6, 20)):
        k = rng.randrange(n)
        if not started[k]:
            fault.append({"step": len(steps), "kinds": ["EACCES", "EIO"],
                          "ons": ["fs.open_w"]})
            steps.append({"op": "start", "p": k})
            started[k] = True
            continue
        op = rng.choice(["log"] * 6 + ["warn", "warn", "again", "work",
                                       "restart"])
        st = {"op": op, "p": k}
        if op == "log":
            st.update(level=rng.choice(LEVELS), logger=rng.choice(LOGGERS))
            fault.append({"step": len(steps), "kinds": [
                "EIO", "ENOSPC", "short", "kill"], "ons": ["w"]})
        elif op == "again":
            st["script"] = rng.choice(SCRIPTS)
        elif op == "restart":
            st["how"] = rng.choice(["exit", "kill"])
            if rng.random() < 0.6:
                started[k] = False
            else:
                st["stay"] = True
        elif op == "work":
            st["r"] = rng.randrange(100)
        steps.append(st)
    return {"hosts": hosts, "settings": settings, "steps": steps,
            "faultable": fault}


class One(object):
    """A run of a script and what its log has to hold."""

    def __init__(self, run, k, host, s, plan):
        self.run, self.host, self.s = run, host, s
        # pids are used once per host
        self.p = run.proc(host=host, pid=100 + sum(
            p.host == host for p in run.w.procs))
        self.path = None
        self.want = []          # (level, text, certain)
        self.shown = []         # (logger, text)
        self.hidden = []
        self.maybe = set()
        self.over = False
        u = self.p.imp("echidna.settings").user_profile
        u["log_level"], u["mode"] = s["level"], s["mode"]
        if s["path"] is not None:
            u["log_save_path"] = s["path"]
        self.base = u["log_save_path"]
        self.utilities = self.p.imp("echidna.utilities")
        self.logging = self.p.imp("logging")

    def call_start(self, script, again=False):
        """From a script of that name."""
        s = self.s
        src = "def go(u):\n    return u.start_logging(%r, %r, %r)\n" % (
            s["capture"], s["short"], s["named"])
        space = {"__builtins__": self.p.builtins}
        exec(compile(src, "/work/study/%s.py" % script, "exec"), space)
        return space["go"](self.utilities)

    def start(self, i):
        s = self.s
        before = {q: f.data for q, f in self.run.disk.files.items()}
        token = "own-%d-" % i
        out = self.run.must(i, "start_logging",
                            lambda: self.call_start(s["script"]))
        if not out.ok:
            # the log could not be opened: try again
            out = self.run.must(i + 1000, "start_logging",
                                lambda: self.call_start(s["script"]))
        out.value.info(token)
        logs = [q for q, f in sorted(self.run.disk.files.items())
                if token.encode() in f.data]
        self.run.check(len(logs) == 1 and logs[0].startswith(self.base),
                       "no-log", lambda: "no log in %s: %s, only %s" % (
                           self.base, logs, sorted(self.run.disk.files)))
        self.path = logs[0]
        if s["short"] and not s["named"]:
            self.run.check(self.path == self.base + "echidna.log",
                           "short-name", "the log is %s" % self.path)
        for q, d in before.items():
            self.run.check((q == self.path and s["short"]) or
                           self.run.disk.files[q].data == d, "other-log",
                           "starting a log changes %s" % q)
        self.expect("info", "Starting script: %s.py" % s["script"], "root")
        self.expect("info", "Use the 'extra' logger at any time", "extra")
        self.expect("info", token, s["script"])

    def expect(self, level, text, logger, certain=True):
        self.want.append((level, text, certain))
        if RANK[level] >= RANK[self.s["level"]]:
            self.shown.append((logger, text))
        else:
            self.hidden.append(text)

    def log(self, i, st):
        text = "message-%d-" % i
        name = st["logger"]
        logger = self.logging.getLogger(name) if name else self.logging
        fn = getattr(logger, st["level"])
        out = self.run.step(i, lambda: fn(text))
        if out.killed:
            return self.end(text)
        self.run.check(out.ok, "log-raises", lambda: "logging a message "
                       "failed: %s" % out.describe())
        self.expect(st["level"], text, name or "root", not out.faults)
        self.run.state(st["level"], name, self.s["level"])

    def warn(self, i):
        text = "warning-%d-" % i
        cautious = self.s["mode"] == "cautious"
        # a module of this process: it remembers what it warned of
        space = {"__builtins__": self.p.builtins, "__name__": "mine"}
        exec(compile("import warnings\ndef warn(text):\n    "
                     "warnings.warn(text)\n", "/work/mine.py", "exec"),
             space)
        out = self.run.step(i, lambda: space["warn"](text))
        self.run.check(out.ok != cautious, "warning", lambda: "a warning in "
                       "%s mode: %s" % (self.s["mode"], out.describe()))
        if cautious:
            self.run.check(isinstance(out.exc, UserWarning) and
                           text in str(out.exc), "warning", lambda:
                           "another error: %s" % out.describe())
        elif self.s["capture"]:
            self.expect("warning", text, "py.warnings")
        else:
            self.run.check(text in self.p.stderr.getvalue(),
                           "warning-lost", "a warning that is not captured "
                           "is not shown")
            self.run.check(text.encode() not in
                           self.run.disk.files[self.path].data,
                           "warning-captured", "a warning is in the log")

    def again(self, i, st):
        out = self.run.must(i, "start_logging",
                            lambda: self.call_start(st["script"], True))
        self.expect("info", "Starting script: %s.py" % st["script"], "root")
        out.value.warning("again-%d" % i)
        self.expect("warning", "again-%d" % i, st["script"])

    def work(self, i, st):
        """The library logs, too."""
        cautious = self.s["mode"] == "cautious"
        par = self.p.imp("echidna.core.parameter")
        bad = self.run.must(i, "parameter", lambda: par.RateParameter(
            "bad%d" % i, 7.7, 0.5, 1., 8., 3)).value
        out = self.run.step(i, bad.check_values)
        self.run.check(out.ok != cautious, "check_values", lambda:
                       "check_values in %s mode: %s" % (self.s["mode"],
                                                        out.describe()))
        if not cautious and self.s["capture"]:
            text = self.run.disk.files[self.path].data.decode()
            self.run.check(re.search("UserWarning: .*bad%d" % i, text),
                           "warning-lost", "the warning of check_values is "
                           "not in the log")

    def end(self, extra=None):
        """Killed or over: what was logged stays."""
        self.over = True
        self.maybe.add(extra)

    def check(self):
        """The log and the console hold what was logged."""
        run = self.run
        if self.path is None:
            return
        f = run.disk.files.get(self.path)
        run.check(f is not None, "log-gone", "%s is gone" % self.path)
        text = f.data.decode("utf-8", "replace")
        at = 0
        for level, msg, certain in self.want:
            k = text.find(msg, at)
            if k < 0:
                run.check(not certain, "log-misses", lambda: "%s does not "
                          "hold %r, or not in order: %r" % (self.path, msg,
                                                            text[-600:]))
                continue
            line = text[text.rfind("\n", 0, k) + 1:k + len(msg)]
            if certain:
                run.check(re.search(r"\S+:\d+ \[\S+\(\)\] %s *: "
                                    % level.upper(), line), "log-format",
                          "%r is not a line of level %s" % (line, level))
            run.check(not msg.endswith("-") or
                      msg not in text[k + len(msg):], "log-twice",
                      "%s holds %r twice" % (self.path, msg))
            at = k + len(msg)
        own = self.maybe.union(w[1] for w in self.want)
        for msg in re.findall(r"(?:own|message|warning)-\d+-", text):
            run.check(msg in own, "log-of-other", lambda: "%s holds %r, which "
                      "this run did not log" % (self.path, msg))
        seen = self.p.stderr.getvalue()
        at = 0
        for logger, msg in self.shown:
            k = seen.find(msg, at)
            run.check(k >= 0, "console-misses", lambda: "%r is not shown: %r"
                      % (msg, seen[-600:]))
            line = seen[seen.rfind("\n", 0, k) + 1:k]
            head = "%-20s: " % logger
            if logger.startswith("extra"):
                run.check(not line.startswith("extra"), "console-format",
                          "%r is shown with its logger" % line)
            elif logger != "py.warnings":
                run.check(line.startswith(head), "console-format",
                          "%r is not shown as of %s" % (line, logger))
            if msg.endswith("-"):
                run.check(msg not in seen[k + len(msg):], "console-twice",
                          "%r is shown twice" % msg)
            at = k
        for msg in self.hidden:
            if msg.endswith("-"):
                run.check(msg not in seen, "console-level", "%r is shown, "
                          "but the level is %s" % (msg, self.s["level"]))


def execute(run):
    plan = run.plan
    run.disk.mkdirs("/work/logs")
    live = [None] * len(plan["hosts"])
    done = []
    events = 0
    for i, st in enumerate(plan["steps"]):
        k, op = st["p"], st["op"]
        if k >= len(live):
            raise PlanInvalid("process")
        x = live[k]
        if op == "start":
            if x is not None:
                continue
            x = live[k] = One(run, k, plan["hosts"][k], plan["settings"][k],
                              plan)
            x.start(i)
            # a short name may be used again
            done = [d for d in done if d.path != x.path]
            for n, y in enumerate(live):
                if y is not None and y is not x and y.path == x.path:
                    live[n] = None
        elif x is None:
            continue
        elif op == "restart":
            if st["how"] == "kill":
                x.p.kill()
            else:
                x.p.exit()
            x.end()
            events += 1
        else:
            fn = getattr(x, op)
            fn(i, st) if op in ("log", "again", "work") else fn(i)
        if x.over or x.p.dead:
            done.append(x)
            live[k] = None
            events += 1
        for y in live + done:
            if y is not None:
                y.check()
        if len(done) + sum(y is not None for y in live) > 1:
            events += 1
        if run.w.fired:
            events += 1
    run.nontrivial = events > 0
