"""A simulated process: its own module table over the shared World.

`import` inside the process resolves to (in this order) the simulator's stubs
(h5py, ROOT, rat, colorlog, matplotlib, os, time, ...), the repository's own
sources translated by py2.py, and otherwise the real installed module.
A restart is a new SimProcess: nothing but the disk survives.
"""
import builtins as _real_builtins
import copy
import errno
import importlib.util
import io
import marshal
import os as _real_os
import posixpath
import random as _real_random
import sys as _real_sys
import time as _real_time
import types

import numpy

from . import h5stub, plotstub, py2, rootstub
from .disk import SimFile
from .world import HarnessError, SimKilled

REPO = _real_os.environ.get("ECHIDNA_REPO", "/repo")

_code_cache = {}


def repo_code(relpath):
    """Translated code object of a repository source file (cached)."""
    if relpath not in _code_cache:
        path = _real_os.path.join(REPO, relpath)
        with io.open(path, encoding="utf-8") as f:
            text = f.read()
        # the simulated machine always sees the repository under /repo
        _code_cache[relpath] = py2.compile_py2(text, "/repo/" + relpath)
    return _code_cache[relpath]


def preload():
    """Translate every repository module once (before forking workers)."""
    for base, dirs, files in _real_os.walk(_real_os.path.join(REPO,
                                                              "echidna")):
        for f in files:
            if f.endswith(".py"):
                rel = _real_os.path.relpath(_real_os.path.join(base, f), REPO)
                try:
                    repo_code(rel)
                except SyntaxError:
                    pass
    for name in _COPIED:
        _stdlib_code(name)


# standard library modules given to each process as a private copy, running
# over the simulated os/sys/time
_COPIED = ("logging", "argparse", "warnings", "optparse")
_std_cache = {}


def _stdlib_code(name):
    if name not in _std_cache:
        spec = importlib.util.find_spec(name)
        with io.open(spec.origin, encoding="utf-8") as f:
            text = f.read()
        _std_cache[name] = compile(text, spec.origin, "exec",
                                   dont_inherit=True)
    return _std_cache[name]


class RecordingRandomState(object):
    """numpy.random as the simulated process sees it: one seeded stream,
    every call a seam and every draw recorded for the oracles."""

    _draws = ("uniform", "normal", "random", "random_sample", "rand", "randn",
              "randint", "choice", "poisson", "binomial", "exponential",
              "multinomial", "standard_normal", "permutation", "shuffle",
              "gamma", "lognormal", "sample", "ranf", "random_integers",
              "beta", "chisquare", "laplace", "triangular",
              "multivariate_normal", "bytes")

    def __init__(self, proc, seed, top=True):
        self._proc = proc
        self._top = top
        self._st = numpy.random.RandomState(seed)
        self.__name__ = "numpy.random"

    def _wrap(self, name, fn):
        def call(*a, **k):
            self._proc.world.seam(self._proc, "rng." + name, "")
            out = fn(*a, **k)
            self._proc.draws.append((name, a, k, copy.deepcopy(out)
                                     if name not in ("shuffle",) else None))
            return out
        return call

    def seed(self, seed=None):
        self._proc.world.seam(self._proc, "rng.seed", "")
        self._proc.reseeds.append(seed)
        if seed is None:
            seed = self._proc.entropy.randrange(2 ** 32)
        self._st.seed(seed)

    def get_state(self, *a, **k):
        return self._st.get_state(*a, **k)

    def set_state(self, s):
        return self._st.set_state(s)

    def RandomState(self, seed=None):
        if seed is None:
            seed = self._proc.entropy.randrange(2 ** 32)
        return RecordingRandomState(self._proc, seed, top=False)

    def default_rng(self, seed=None):
        if seed is None:
            seed = self._proc.entropy.randrange(2 ** 32)
        g = RecordingRandomState(self._proc, 0, top=False)
        g._st = numpy.random.Generator(numpy.random.PCG64(seed))
        return g

    def __getattr__(self, name):
        st = self.__dict__["_st"]
        if name in ("sample", "ranf", "random") and not hasattr(st, name):
            return self._wrap(name, st.random_sample)
        fn = getattr(st, name)  # AttributeError is the natural answer
        if callable(fn):
            return self._wrap(name, fn)
        return fn


class _Proxy(types.ModuleType):
    """A module whose unknown attributes come from the real one."""

    def __init__(self, name, real, **over):
        super(_Proxy, self).__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)
        for dunder in ("__path__", "__version__", "__all__", "__file__"):
            if hasattr(real, dunder) and dunder not in over:
                self.__dict__[dunder] = getattr(real, dunder)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


class SimProcess(object):
    def __init__(self, world, host="node0", pid=None, cwd="/work"):
        self.world = world
        if pid is None:
            pid = 1000 + len(world.procs)
        self.pid = pid
        self.host = host
        self.cwd = cwd
        self.dead = False
        self.open_files = []
        self.open_h5 = []
        self.fds = {}
        self.draws = []
        self.reseeds = []
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.argv = ["echidna"]
        self.environ = {"HOME": "/work", "USER": "sim", "PATH": "/usr/bin",
                        "TMPDIR": "/tmp"}
        self.incarnation = len(world.procs)
        world.procs.append(self)
        self.entropy = _real_random.Random("entropy-%s-%s-%s" % (
            world.seed, self.incarnation, pid))
        self.modules = {}
        self.warn_mode = None
        self.waits = 0          # for the user
        for d in ("/work", "/tmp", "/repo", "/repo/echidna", "/repo/output",
                  "/repo/output/logs", "/repo/output/hdf5"):
            world.disk.mkdirs(d)
        self.builtins = py2.make_builtins({
            "__import__": self._import, "open": self.open,
            "file": self.open, "print": self._print,
            "raw_input": self._raw_input, "input": self._raw_input,
            "reload": lambda m: m})
        self.std_builtins = dict(_real_builtins.__dict__)
        self.std_builtins.update({"__import__": self._import,
                                  "open": self.open, "print": self._print})
        self._build_stubs()
        world.event(self.pid, "START", host)

    # -- life -------------------------------------------------------------
    def kill(self, torn="unopenable"):
        if self.dead:
            return
        self.dead = True
        for f in list(self.open_files):
            f.die(self.world.rng.random())
        for f in list(self.open_h5):
            f.die(torn)
        self.world.event(self.pid, "KILLED", torn)

    def exit(self):
        """Orderly exit: open handles are closed (and so become durable)."""
        if self.dead:
            return
        for f in list(self.open_files):
            try:
                f.close()
            except OSError:
                pass
        for f in list(self.open_h5):
            try:
                f.close()
            except OSError:
                pass
        self.dead = True

    def _print(self, *a, **k):
        k.setdefault("file", self.stdout)
        _real_builtins.print(*a, **k)

    # -- files ------------------------------------------------------------
    def open(self, path, mode="r", *a, **k):
        if isinstance(path, int):
            return self._fdopen(path, mode)
        if hasattr(path, "__fspath__"):
            path = path.__fspath__()
        return SimFile(self, self.world.disk.norm(path, self.cwd), mode,
                       str(path))

    def fd_for(self, f):
        for fd, g in self.fds.items():
            if g is f:
                return fd
        fd = 3 + len(self.fds)
        while fd in self.fds:
            fd += 1
        self.fds[fd] = f
        return fd

    def _fdopen(self, fd, mode="r", *a, **k):
        f = self.fds[fd]
        f._binary = "b" in mode
        return f

    # -- imports ----------------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or \
                (globals or {}).get("__name__", "")
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if name == "_warnings" and globals is not None and \
                globals.get("__name__") == "warnings":
            # the C parts know the interpreter's own filters only
            raise ImportError("No module named _warnings")
        if top == "echidna":
            mod = self._load_repo(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(mod, f):
                        try:
                            self._load_repo(name + "." + f)
                        except ImportError:
                            pass
                return mod
            return self.modules["echidna"]
        if name in self.stubs:
            m = self.stubs[name]
            if callable(m) and getattr(m, "_lazy", False):
                m = self.stubs[name] = m()
            if fromlist:
                return m
            if "." in name:
                return self._import(top, globals, locals)
            return m
        if top in self.stubs:
            m = self._import(top)
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m if fromlist else self._import(top)
        if top in _COPIED and name == top:
            return self._copied(name)
        if top in ("subprocess", "multiprocessing", "signal", "ctypes",
                   "shelve", "sqlite3"):
            raise ImportError("No module named %s (not simulated)" % name)
        # implicit relative import of Python 2
        if globals is not None and level == 0 and \
                str(globals.get("__name__", "")).startswith("echidna"):
            pkg = globals.get("__package__") or ""
            if pkg and self._repo_path(pkg + "." + name) is not None:
                mod = self._load_repo(pkg + "." + name)
                return mod if fromlist else \
                    self._load_repo(pkg + "." + top)
        return _real_builtins.__import__(name, globals, locals, fromlist, 0)

    def _copied(self, name):
        if name not in self.modules:
            m = types.ModuleType(name)
            spec = importlib.util.find_spec(name)
            m.__file__ = spec.origin
            if spec.submodule_search_locations:
                m.__path__ = list(spec.submodule_search_locations)
            m.__dict__["__builtins__"] = self.std_builtins
            self.modules[name] = m
            exec(_stdlib_code(name), m.__dict__)
            if name == "logging":
                m.raiseExceptions = False
        return self.modules[name]

    def _repo_path(self, name):
        rel = name.replace(".", "/")
        if _real_os.path.isfile(_real_os.path.join(REPO, rel,
                                                   "__init__.py")):
            return rel + "/__init__.py"
        if _real_os.path.isfile(_real_os.path.join(REPO, rel + ".py")):
            return rel + ".py"
        return None

    def _load_repo(self, name):
        if name in self.modules:
            return self.modules[name]
        parent = None
        if "." in name:
            parent = self._load_repo(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        rel = self._repo_path(name)
        if rel is None:
            raise ImportError("No module named %s" % name)
        m = types.ModuleType(name)
        m.__file__ = "/repo/" + rel
        m.__package__ = name if rel.endswith("__init__.py") else \
            name.rsplit(".", 1)[0]
        if rel.endswith("__init__.py"):
            m.__path__ = [posixpath.dirname(m.__file__)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        try:
            exec(repo_code(rel), m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def imp(self, name):
        """Import as user code in this process would (returns the leaf)."""
        return self._import(name, None, None, ("__name__",), 0)

    def _raw_input(self, *a):
        """The user presses Return (or Ctrl-C)."""
        self.world.seam(self, "stdin", "")
        self.waits += 1
        return ""

    def run_script(self, relpath, argv):
        """`python <relpath> argv...`; returns the SystemExit code or None."""
        self.argv[:] = [relpath] + [str(a) for a in argv]
        m = types.ModuleType("__main__")
        m.__file__ = "/repo/" + relpath
        m.__package__ = None
        m.__dict__["__builtins__"] = self.builtins
        try:
            exec(repo_code(relpath), m.__dict__)
        except SystemExit as e:
            code = e.code if e.code is not None else 0
            self._at_exit()
            return code
        except (Exception, KeyboardInterrupt):
            self._at_exit()
            raise
        self._at_exit()
        return None

    def _at_exit(self):
        """What the interpreter does when a script ends, however it does."""
        while self.at_exit:
            fn, a, k = self.at_exit.pop()
            try:
                fn(*a, **k)
            except Exception:
                pass    # printed only

    def _make_atexit(self):
        m = types.ModuleType("atexit")
        self.at_exit = []

        def register(fn, *a, **k):
            self.at_exit.append((fn, a, k))
            return fn
        m.register = register

        def unregister(fn):
            self.at_exit[:] = [t for t in self.at_exit if t[0] != fn]
        m.unregister = unregister
        return m

    # -- stubs ------------------------------------------------------------
    def _build_stubs(self):
        self.stubs = {}
        s = self.stubs
        s["h5py"] = h5stub.make_h5py(self)
        s["sys"] = self._make_sys()
        s["os"], s["os.path"] = self._make_os()
        s["posixpath"] = s["os.path"]
        s["os"].path = s["os.path"]
        s["time"] = self._make_time()
        s["atexit"] = self._make_atexit()
        s["datetime"] = self._make_datetime()
        s["random"] = self._make_random()
        s["uuid"] = self._make_uuid()
        s["socket"] = types.ModuleType("socket")
        s["socket"].gethostname = lambda: self.host
        s["socket"].getfqdn = lambda *a: self.host
        s["platform"] = _Proxy("platform", __import__("platform"),
                               node=lambda: self.host)
        rnd = RecordingRandomState(
            self, self.entropy.randrange(2 ** 32))
        self.numpy_random = rnd
        s["numpy"] = _Proxy("numpy", numpy, random=rnd,
                            save=self._no_io, load=self._no_io,
                            savetxt=self._no_io)
        s["numpy.random"] = rnd
        s["scipy.interpolate"] = self._make_interp()
        import scipy
        s["scipy"] = _Proxy("scipy", scipy,
                            interpolate=s["scipy.interpolate"])
        s["colorlog"] = types.ModuleType("colorlog")

        proc = self

        def coloured(*a, **k):
            logging = proc.imp("logging")

            class ColoredFormatter(logging.Formatter):
                def __init__(self, fmt=None, *a, **k):
                    fmt = (fmt or "%(message)s").replace(
                        "%(reset)s", "").replace("%(log_color)s", "")
                    logging.Formatter.__init__(self, fmt)
            return ColoredFormatter(*a, **k)
        s["colorlog"].ColoredFormatter = coloured
        s["tempfile"] = self._make_tempfile()
        s["shutil"] = self._make_shutil()
        s["glob"] = self._make_glob()
        s["io"] = _Proxy("io", io, open=self.open)
        s["codecs"] = _Proxy("codecs", __import__("codecs"),
                             open=lambda p, m="r", *a, **k: self.open(p, m))
        s.update(plotstub.modules(self))
        s["ROOT"], s["rat"] = rootstub.make(self)
        plotstub.add_root(self, s["ROOT"])

    def _no_io(self, *a, **k):
        raise HarnessError("real file I/O attempted by simulated code")

    def _make_sys(self):
        proc = self

        def _exit(code=None):
            raise SystemExit(code)
        m = _Proxy("sys", _real_sys, argv=self.argv, stdout=self.stdout,
                   stderr=self.stderr, modules=self.modules, exit=_exit,
                   maxint=2 ** 63 - 1, __stdout__=self.stdout,
                   __stderr__=self.stderr)
        m.__dict__["path"] = ["/repo"]
        return m

    def _make_interp(self):
        from scipy import interpolate
        proc = self
        real = {}

        class Interp(types.ModuleType):
            def __getattr__(self, name):
                if name in real:
                    return real[name]
                fn = getattr(interpolate, name)
                if callable(fn):
                    def call(*a, **k):
                        proc.world.seam(proc, "interp", name)
                        return fn(*a, **k)
                    real[name] = call
                    return call
                return fn
        return Interp("scipy.interpolate")

    def _make_time(self):
        w = self.world

        def sleep(dt):
            w.seam(self, "clock.sleep", "")
            w.advance(max(0., float(dt)))

        def gmtime(t=None):
            return _real_time.gmtime(w.now if t is None else t)

        def strftime(fmt, t=None):
            return _real_time.strftime(fmt, gmtime() if t is None else t)

        def now():
            w.seam(self, "clock.read", "")
            return w.now

        def mono():
            w.seam(self, "clock.read", "mono")
            return w.mono
        return _Proxy("time", _real_time, time=now, clock=mono,
                      time_ns=lambda: int(now() * 1e9),
                      monotonic=mono, perf_counter=mono, process_time=mono,
                      sleep=sleep, gmtime=gmtime, localtime=gmtime,
                      strftime=strftime, ctime=lambda t=None:
                      _real_time.asctime(gmtime(t)),
                      asctime=lambda t=None: _real_time.asctime(
                          gmtime() if t is None else t), timezone=0)

    def _make_datetime(self):
        import datetime as real
        w = self.world
        proc = self

        def read():
            w.seam(proc, "clock.read", "")
            return real.datetime.fromtimestamp(
                w.now, real.timezone.utc).replace(tzinfo=None)

        class datetime(real.datetime):
            @classmethod
            def now(cls, tz=None):
                return read()

            @classmethod
            def utcnow(cls):
                return read()

            @classmethod
            def today(cls):
                return read()

        class date(real.date):
            @classmethod
            def today(cls):
                return read().date()
        return _Proxy("datetime", real, datetime=datetime, date=date)

    def _make_random(self):
        rng = _real_random.Random(self.entropy.randrange(2 ** 63))
        over = {}
        for n in ("random", "choice", "randint", "randrange", "uniform",
                  "gauss", "normalvariate", "shuffle", "sample",
                  "getrandbits", "expovariate", "choices", "triangular",
                  "betavariate"):
            def call(*a, _fn=getattr(rng, n), _n=n, **k):
                self.world.seam(self, "rng." + _n, "py")
                return _fn(*a, **k)
            over[n] = call

        def seed(a=None, *rest):
            if a is None:
                a = self.entropy.randrange(2 ** 63)
            rng.seed(a)
        over.update(seed=seed, getstate=rng.getstate, setstate=rng.setstate)
        over["SystemRandom"] = lambda: _real_random.Random(
            self.entropy.randrange(2 ** 63))
        return _Proxy("random", _real_random, **over)

    def _make_uuid(self):
        import uuid

        def new(*a):
            return uuid.UUID(int=self.entropy.getrandbits(128), version=4)
        return _Proxy("uuid", uuid, uuid1=new, uuid4=new)

    # os ------------------------------------------------------------------
    def _make_os(self):
        w, disk, proc = self.world, self.world.disk, self

        def n(p):
            if hasattr(p, "__fspath__"):
                p = p.__fspath__()
            return disk.norm(p, proc.cwd)

        def stat_seam(p):
            w.seam(proc, "fs.stat", n(p))
            return n(p)

        def missing(p):
            return FileNotFoundError(errno.ENOENT,
                                     "No such file or directory", str(p))

        def quiet(fn):
            # os.path.exists & co. report False when the stat fails
            def f(p):
                try:
                    q = stat_seam(p)
                except OSError:
                    return False
                return fn(q)
            return f

        path = types.ModuleType("posixpath")
        for name in ("join", "split", "splitext", "basename", "dirname",
                     "normpath", "isabs", "commonprefix", "commonpath",
                     "sep", "pardir", "curdir", "extsep", "pathsep",
                     "altsep", "normcase", "splitdrive", "devnull"):
            setattr(path, name, getattr(posixpath, name))
        path.exists = quiet(disk.exists)
        path.lexists = path.exists
        path.isfile = quiet(lambda q: q in disk.files)
        path.isdir = quiet(lambda q: q in disk.dirs)
        path.islink = lambda p: False
        path.abspath = lambda p: n(p)
        path.realpath = lambda p: n(p)
        path.relpath = lambda p, start=".": posixpath.relpath(
            n(p), n(start))
        path.expanduser = lambda p: p.replace("~", "/work", 1) \
            if p.startswith("~") else p
        path.expandvars = lambda p: p
        path.samefile = lambda a, b: n(a) == n(b)

        def getsize(p):
            q = stat_seam(p)
            if q not in disk.files:
                raise missing(p)
            d = disk.files[q]
            return len(d.data) if d.kind == "bytes" and d.data else 100

        def getmtime(p):
            q = stat_seam(p)
            if q not in disk.files:
                raise missing(p)
            return disk.files[q].mtime
        path.getsize = getsize
        path.getmtime = getmtime
        path.getctime = getmtime
        path.__name__ = "posixpath"

        m = types.ModuleType("os")
        for name in ("sep", "linesep", "curdir", "pardir", "extsep",
                     "pathsep", "altsep", "devnull", "name", "strerror",
                     "error", "fspath", "PathLike", "stat_result",
                     "fsencode", "fsdecode", "O_CREAT", "O_EXCL", "O_WRONLY",
                     "O_RDWR", "O_RDONLY", "O_TRUNC", "O_APPEND", "F_OK",
                     "R_OK", "W_OK", "X_OK", "cpu_count", "SEEK_SET",
                     "SEEK_CUR", "SEEK_END", "get_terminal_size",
                     "terminal_size", "uname_result", "WNOHANG"):
            if hasattr(_real_os, name):
                setattr(m, name, getattr(_real_os, name))
        m.get_terminal_size = lambda *a: _real_os.terminal_size((80, 24))
        m.environ = dict(self.environ)
        m.getenv = lambda k, d=None: m.environ.get(k, d)
        m.getcwd = lambda: proc.cwd
        m.getcwdu = m.getcwd
        m.getpid = lambda: proc.pid
        m.getppid = lambda: 1
        m.getuid = lambda: 1000
        m.getlogin = lambda: "sim"
        m.umask = lambda x: 0o22
        m.uname = lambda: _real_os.uname_result(
            ("Linux", proc.host, "5", "1", "x86_64"))
        m.register_at_fork = lambda **k: None
        m.get_exec_path = lambda *a: []

        def chdir(p):
            if n(p) not in disk.dirs:
                raise missing(p)
            proc.cwd = n(p)
        m.chdir = chdir

        def listdir(p="."):
            w.seam(proc, "fs.list", n(p))
            return disk.listdir(n(p))
        m.listdir = listdir

        def walk(top, topdown=True, **k):
            names = listdir(top)
            ds = [x for x in names if posixpath.join(n(top), x) in disk.dirs]
            fs = [x for x in names if x not in ds]
            if topdown:
                yield top, ds, fs
            for d in ds:
                for r in walk(posixpath.join(top, d), topdown):
                    yield r
            if not topdown:
                yield top, ds, fs
        m.walk = walk

        def mkdir(p, mode=0o777, **k):
            w.seam(proc, "fs.mkdir", n(p))
            if disk.exists(n(p)):
                raise FileExistsError(errno.EEXIST, "File exists", str(p))
            if posixpath.dirname(n(p)) not in disk.dirs:
                raise missing(p)
            disk.dirs.add(n(p))
        m.mkdir = mkdir

        def makedirs(p, mode=0o777, exist_ok=False):
            if n(p) in disk.dirs:
                if exist_ok:
                    return
                raise FileExistsError(errno.EEXIST, "File exists", str(p))
            par = posixpath.dirname(n(p))
            if par not in disk.dirs:
                makedirs(par)
            mkdir(p)
        m.makedirs = makedirs

        def remove(p, **k):
            w.seam(proc, "fs.remove", n(p))
            if n(p) in disk.dirs:
                raise IsADirectoryError(errno.EISDIR, "Is a directory",
                                        str(p))
            if n(p) not in disk.files:
                raise missing(p)
            del disk.files[n(p)]
        m.remove = remove
        m.unlink = remove

        def rmdir(p):
            w.seam(proc, "fs.remove", n(p))
            if n(p) not in disk.dirs:
                raise missing(p)
            if disk.listdir(n(p)):
                raise OSError(errno.ENOTEMPTY, "Directory not empty", str(p))
            disk.dirs.discard(n(p))
        m.rmdir = rmdir

        def rename(a, b, **k):
            w.seam(proc, "fs.rename", (n(a), n(b)))
            if n(a) not in disk.files:
                raise missing(a)
            if posixpath.dirname(n(b)) not in disk.dirs:
                raise missing(b)
            if n(b) in disk.dirs:
                raise IsADirectoryError(errno.EISDIR, "Is a directory",
                                        str(b))
            disk.files[n(b)] = disk.files.pop(n(a))
        m.rename = rename
        m.replace = rename
        m.renames = rename

        def link(a, b, **k):
            w.seam(proc, "fs.rename", (n(a), n(b)))
            if n(a) not in disk.files:
                raise missing(a)
            if disk.exists(n(b)):
                raise FileExistsError(errno.EEXIST, "File exists", str(b))
            disk.files[n(b)] = disk.files[n(a)]
        m.link = link

        def access(p, mode, **k):
            try:
                return disk.exists(stat_seam(p))
            except OSError:
                return False
        m.access = access

        def stat(p, **k):
            if isinstance(p, int):
                return _real_os.stat_result((0o100644, p, 1, 1, 0, 0, 100,
                                             0, 0, 0))
            q = stat_seam(p)
            if q in disk.dirs:
                return _real_os.stat_result((0o40755, abs(hash_(q)), 1, 1, 0,
                                             0, 0, 0, 0, 0))
            if q not in disk.files:
                raise missing(p)
            d = disk.files[q]
            size = len(d.data) if d.kind == "bytes" and d.data else 100
            return _real_os.stat_result(
                (0o100644, abs(hash_(q)), 1, 1, 0, 0, size, int(d.mtime),
                 int(d.mtime), int(d.mtime)))

        def hash_(s):
            import zlib
            return zlib.crc32(s.encode())
        m.stat = stat
        m.lstat = stat
        m.fstat = stat
        m.chmod = lambda *a, **k: None
        m.utime = lambda *a, **k: None

        def os_open(p, flags, mode=0o777, **k):
            acc = flags & (_real_os.O_WRONLY | _real_os.O_RDWR)
            if not acc:
                f = proc.open(p, "rb")
            else:
                q = n(p)
                if flags & _real_os.O_EXCL:
                    fm = "xb"
                elif flags & _real_os.O_TRUNC:
                    fm = "wb"
                elif q in disk.files:
                    fm = "r+b"
                elif flags & _real_os.O_CREAT:
                    fm = "wb"
                else:
                    raise missing(p)
                f = proc.open(p, fm)
            return proc.fd_for(f)
        m.open = os_open
        m.fdopen = proc._fdopen
        m.write = lambda fd, b: proc.fds[fd].write(b)
        m.read = lambda fd, k=-1: proc.fds[fd].read(k)

        def close(fd):
            if fd not in proc.fds:
                raise OSError(errno.EBADF, "Bad file descriptor")
            proc.fds.pop(fd).close()
        m.close = close

        def fsync(fd):
            f = proc.fds.get(fd) if isinstance(fd, int) else fd
            w.seam(proc, "fs.fsync", "")
            if f is not None and not f.closed and f._writable:
                f._sync()
        m.fsync = fsync
        m.fdatasync = fsync
        m.urandom = lambda k: bytes(proc.entropy.randrange(256)
                                    for _ in range(k))

        def nope(*a, **k):
            raise HarnessError("os function not simulated")
        for name in ("system", "popen", "fork", "kill", "execv", "execvp",
                     "_exit", "abort", "removedirs", "truncate", "symlink"):
            setattr(m, name, nope)
        return m, path

    def _make_tempfile(self):
        m = types.ModuleType("tempfile")
        proc, disk = self, self.world.disk

        def name(suffix, prefix, dir_):
            d = dir_ or "/tmp"
            return posixpath.join(d, "%s%08x%s" % (
                prefix or "tmp", proc.entropy.getrandbits(32), suffix or ""))

        def mkstemp(suffix=None, prefix=None, dir=None, text=False):
            p = name(suffix, prefix, dir)
            f = proc.open(p, "xb")
            return proc.fd_for(f), disk.norm(p, proc.cwd)

        def mkdtemp(suffix=None, prefix=None, dir=None):
            p = name(suffix, prefix, dir)
            proc.stubs["os"].mkdir(p)
            return p

        def NamedTemporaryFile(mode="w+b", buffering=-1, encoding=None,
                               newline=None, suffix=None, prefix=None,
                               dir=None, delete=True, **k):
            p = name(suffix, prefix, dir)
            f = proc.open(p, mode.replace("w", "x"))
            f.name = p
            f.delete = delete
            if delete:
                orig = f.close

                def close():
                    orig()
                    disk.files.pop(disk.norm(p, proc.cwd), None)
                f.close = close
            return f
        m.mkstemp, m.mkdtemp = mkstemp, mkdtemp
        m.NamedTemporaryFile = NamedTemporaryFile
        m.gettempdir = lambda: "/tmp"
        m.mktemp = lambda suffix="", prefix="tmp", dir=None: name(
            suffix, prefix, dir)
        return m

    def _make_shutil(self):
        m = types.ModuleType("shutil")
        proc, w, disk = self, self.world, self.world.disk
        osm = self.stubs["os"]

        def copyfile(a, b, **k):
            na, nb = disk.norm(a, proc.cwd), disk.norm(b, proc.cwd)
            if nb in disk.dirs:
                nb = posixpath.join(nb, posixpath.basename(na))
            w.seam(proc, "fs.open_r", na)
            if na not in disk.files:
                raise FileNotFoundError(errno.ENOENT,
                                        "No such file or directory", str(a))
            w.seam(proc, "fs.open_w", nb)
            disk.check_parent(nb)
            node = disk.files[na].clone()
            half = disk.files[na].clone()
            half.torn = True
            if half.kind == "bytes":
                half.data = half.data[:len(half.data) // 2]
            disk.files[nb] = half
            w.seam(proc, "fs.write", (nb, 0))
            disk.files[nb] = node
            return b
        m.copyfile = m.copy = m.copy2 = copyfile

        def move(a, b, **k):
            nb = disk.norm(b, proc.cwd)
            if nb in disk.dirs:
                b = posixpath.join(nb, posixpath.basename(str(a)))
            osm.rename(a, b)
            return b
        m.move = move

        def rmtree(p, ignore_errors=False, **k):
            np_ = disk.norm(p, proc.cwd)
            for f in [x for x in disk.files if x.startswith(np_ + "/")]:
                osm.remove(f)
            for d in sorted([x for x in disk.dirs if x == np_ or
                             x.startswith(np_ + "/")], reverse=True):
                osm.rmdir(d)
        m.rmtree = rmtree
        m.Error = OSError
        m.get_terminal_size = lambda *a, **k: _real_os.terminal_size((80, 24))
        return m

    def _make_glob(self):
        import fnmatch
        m = types.ModuleType("glob")
        proc, w, disk = self, self.world, self.world.disk

        def glob(pat, **k):
            w.seam(proc, "fs.list", pat)
            full = disk.norm(pat, proc.cwd)
            depth = full.count("/")
            hits = [p for p in list(disk.files) + list(disk.dirs)
                    if p.count("/") == depth and fnmatch.fnmatch(p, full)]
            if not str(pat).startswith("/"):
                hits = [posixpath.relpath(p, proc.cwd) for p in hits]
            return sorted(hits)
        m.glob = glob
        m.iglob = lambda *a, **k: iter(glob(*a, **k))
        m.escape = lambda s: s
        return m
