"""Simulated disk: plain files and HDF5 containers shared by all processes.

Model (process death, not power loss): what a closed file held is durable.
A file being written by a process that dies is left torn: a plain file keeps
an arbitrary prefix of what was written, an HDF5 container is unopenable, or
(if opened for append and nothing was flushed) still the old container, or
holds exactly the first k operations issued on it.  The simulator chooses.
"""
import copy
import errno
import io
import posixpath


class Node(object):
    __slots__ = ("kind", "data", "writer", "torn", "mtime")

    def __init__(self, kind, data, mtime=0.0):
        self.kind = kind        # "bytes" or "h5"
        self.data = data        # bytes, or h5 tree, or None (unopenable)
        self.writer = None
        self.torn = False
        self.mtime = mtime

    def clone(self):
        n = Node(self.kind, copy.deepcopy(self.data), self.mtime)
        n.torn = self.torn
        return n


class Disk(object):
    def __init__(self, world):
        self.world = world
        self.files = {}
        self.dirs = {"/"}
        world.disk = self

    # -- paths ------------------------------------------------------------
    def norm(self, path, cwd="/work"):
        path = str(path)
        if not path.startswith("/"):
            path = posixpath.join(cwd, path)
        path = posixpath.normpath(path)
        if path.startswith("//"):
            path = path[1:]
        return path

    def mkdirs(self, path):
        path = self.norm(path)
        while path not in self.dirs:
            self.dirs.add(path)
            path = posixpath.dirname(path)

    def check_parent(self, path):
        if posixpath.dirname(path) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT,
                                    "No such file or directory", path)
        if path in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)

    def exists(self, path):
        return path in self.files or path in self.dirs

    def listdir(self, path):
        if path not in self.dirs:
            raise FileNotFoundError(errno.ENOENT,
                                    "No such file or directory", path)
        out = []
        pre = path.rstrip("/") + "/"
        for p in list(self.files) + list(self.dirs):
            if p != path and p.startswith(pre) and "/" not in p[len(pre):]:
                out.append(p[len(pre):])
        return sorted(set(out))

    def snapshot(self):
        """Content of every file, comparable with ==."""
        out = {}
        for p in sorted(self.files):
            n = self.files[p]
            if n.kind == "bytes":
                out[p] = ("bytes", n.data)
            else:
                out[p] = ("h5", None if n.data is None or n.torn
                          else n.data.fingerprint())
        return out

    def put_bytes(self, path, data):
        self.mkdirs(posixpath.dirname(self.norm(path)))
        self.files[self.norm(path)] = Node("bytes", data, self.world.now)

    def corrupt(self, path, how, pos=0.5):
        """Stored-byte damage while nobody has the file open."""
        n = self.files[path]
        if n.kind == "h5" or how == "unopenable":
            n.torn = True
        else:
            n.data = n.data[:int(len(n.data) * pos)]


class SimFile(object):
    """What open() returns inside the simulation (text or binary)."""

    def __init__(self, proc, path, mode, rawpath):
        self._proc = proc
        self._path = path
        self.name = rawpath
        self.mode = mode
        self.closed = False
        self.encoding = "utf-8"
        self.errors = "strict"
        self.newlines = None
        w = proc.world
        disk = w.disk
        self._binary = "b" in mode
        base = mode.replace("b", "").replace("t", "").replace("U", "")
        self._writable = base not in ("r", "")
        self._readable = base in ("r", "") or "+" in base
        if self._writable:
            w.seam(proc, "fs.open_w", path)
            disk.check_parent(path)
            if base.startswith("r") and path not in disk.files:
                raise FileNotFoundError(errno.ENOENT,
                                        "No such file or directory", rawpath)
            if base.startswith("x") and path in disk.files:
                raise FileExistsError(errno.EEXIST, "File exists", rawpath)
            old = b""
            if path in disk.files and not base.startswith("w"):
                n = disk.files[path]
                if n.kind != "bytes":
                    raise OSError(errno.EINVAL, "binary container", rawpath)
                old = n.data
                self._node = n
            elif path in disk.files and disk.files[path].kind == "bytes":
                self._node = disk.files[path]
                self._node.data = b""
            else:
                self._node = Node("bytes", b"", w.now)
                disk.files[path] = self._node
            self._buf = bytearray(old)
            self._durable = len(self._buf)
            self._pos = len(self._buf) if base.startswith("a") else 0
            proc.open_files.append(self)
        else:
            w.seam(proc, "fs.open_r", path)
            if path in disk.dirs:
                raise IsADirectoryError(errno.EISDIR, "Is a directory",
                                        rawpath)
            if path not in disk.files:
                raise FileNotFoundError(errno.ENOENT,
                                        "No such file or directory", rawpath)
            n = disk.files[path]
            self._node = n
            data = n.data if n.kind == "bytes" else b"\x89HDF\r\n\x1a\n"
            self._rd = io.BytesIO(data) if self._binary else \
                io.StringIO(data.decode("utf-8", "replace"))

    # reading
    def read(self, *a):
        self._check()
        if not self._readable or not hasattr(self, "_rd"):
            if self._readable:
                self._proc.world.seam(self._proc, "fs.read", self._path)
                out = bytes(self._buf[self._pos:])
                self._pos = len(self._buf)
                return out if self._binary else out.decode("utf-8")
            raise io.UnsupportedOperation("not readable")
        self._proc.world.seam(self._proc, "fs.read", self._path)
        return self._rd.read(*a)

    def readline(self, *a):
        self._check()
        self._proc.world.seam(self._proc, "fs.read", self._path)
        return self._rd.readline(*a)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readable(self):
        return self._readable

    def writable(self):
        return self._writable

    def seekable(self):
        return True

    def isatty(self):
        return False

    # writing
    def write(self, data):
        self._check()
        if not self._writable:
            raise io.UnsupportedOperation("not writable")
        raw = data if isinstance(data, (bytes, bytearray)) else \
            str(data).encode("utf-8")
        w = self._proc.world
        fault = w.seam(self._proc, "fs.write", (self._path, len(raw)))
        if fault is not None:  # torn write: part of it lands, then EIO
            cut = int(len(raw) * fault.get("frac", 0.5))
            self._put(raw[:cut])
            self._sync()
            raise OSError(errno.EIO, "Input/output error")
        self._put(raw)
        return len(data)

    def _put(self, raw):
        self._buf[self._pos:self._pos + len(raw)] = raw
        self._pos += len(raw)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def _sync(self):
        self._node.data = bytes(self._buf)
        self._node.mtime = self._proc.world.now
        self._durable = len(self._buf)

    def flush(self):
        self._check()
        if self._writable:
            self._proc.world.seam(self._proc, "fs.write", (self._path, 0))
            self._sync()

    def truncate(self, size=None):
        size = self._pos if size is None else size
        del self._buf[size:]
        self._sync()

    def seek(self, pos, whence=0):
        if hasattr(self, "_rd"):
            return self._rd.seek(pos, whence)
        self._pos = pos if whence == 0 else len(self._buf) + pos
        return self._pos

    def tell(self):
        return self._rd.tell() if hasattr(self, "_rd") else self._pos

    def fileno(self):
        return self._proc.fd_for(self)

    def close(self):
        if self.closed:
            return
        if self._proc.dead:
            self.closed = True
            return
        if self._writable:
            if self in self._proc.open_files:
                self._proc.open_files.remove(self)
            self.closed = True
            try:
                self._proc.world.seam(self._proc, "fs.close", self._path)
            except OSError:
                # buffered data could not be written out: only part landed
                keep = self._durable + (len(self._buf) - self._durable) // 2
                self._node.data = bytes(self._buf[:keep])
                raise
            self._sync()
        self.closed = True

    def die(self, frac):
        """The owning process was killed: an arbitrary prefix survives."""
        keep = self._durable + int((len(self._buf) - self._durable) * frac)
        self._node.data = bytes(self._buf[:keep])
        self.closed = True

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        # A dropped handle is closed by CPython's reference counting; make the
        # data durable without going through the fault gate.
        try:
            if not self.closed and self._writable and not self._proc.dead:
                self._sync()
                self.closed = True
                if self in self._proc.open_files:
                    self._proc.open_files.remove(self)
        except Exception:
            pass
