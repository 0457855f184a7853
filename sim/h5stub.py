"""An in-memory stand-in for h5py on the simulated disk.

Mirrors the h5py behaviour echidna relies on: attribute value types, errors
for values HDF5 cannot hold, existing names, filters on scalars, file modes,
and what is on disk if an exception unwinds the `with` block (everything
issued so far) or the process dies (see disk.py).
"""
import copy
import errno
import hashlib
import posixpath
import types
from collections import OrderedDict
from collections.abc import MutableMapping

import numpy

from .world import SimKilled


class Tree(object):
    """Stored form of a group."""
    __slots__ = ("attrs", "items")

    def __init__(self):
        self.attrs = OrderedDict()
        self.items = OrderedDict()

    def fingerprint(self):
        h = hashlib.sha256()
        self._feed(h, "")
        return h.hexdigest()

    def _feed(self, h, prefix):
        for k in sorted(self.attrs):
            h.update(("A%s|%s|%r;" % (prefix, k, _plain(self.attrs[k])))
                     .encode())
        for k in sorted(self.items):
            v = self.items[k]
            if isinstance(v, Tree):
                h.update(("G%s/%s;" % (prefix, k)).encode())
                v._feed(h, prefix + "/" + k)
            else:
                h.update(("D%s/%s|%s|%s;" % (prefix, k, v.array.shape,
                                             v.array.dtype)).encode())
                h.update(numpy.ascontiguousarray(v.array).tobytes())
                for a in sorted(v.attrs):
                    h.update(("a%s|%r;" % (a, _plain(v.attrs[a]))).encode())

    def keep_first(self, k):
        """The tree as it was after the first k logged operations - built by
        the File from its operation log, not here."""


class Leaf(object):
    __slots__ = ("array", "attrs")

    def __init__(self, array):
        self.array = array
        self.attrs = OrderedDict()


def _plain(v):
    if isinstance(v, numpy.ndarray):
        return v.tolist()
    return v


def _storable(value):
    """Value as HDF5 would hold it, or the error h5py raises."""
    if isinstance(value, (str, bytes)):
        if len(value) > 65000:
            raise OSError("Unable to create attribute (object header message "
                          "is too large)")
        return value
    if isinstance(value, bool) or isinstance(value, numpy.bool_):
        return numpy.bool_(value)
    arr = numpy.asarray(value)
    if arr.dtype.kind == "O":
        raise TypeError("Object dtype dtype('O') has no native HDF5 "
                        "equivalent")
    if arr.dtype.kind == "U":
        return arr.astype(object) if arr.shape else str(arr)
    if arr.nbytes > 65000:
        raise OSError("Unable to create attribute (object header message "
                      "is too large)")
    if arr.shape == ():
        return arr.dtype.type(arr[()])
    return arr.copy()


class Attributes(MutableMapping):
    def __init__(self, store, file_):
        self._s = store
        self._f = file_

    def __getitem__(self, key):
        self._f._io("h5.read_attr", key)
        if key not in self._s:
            raise KeyError("Unable to synchronously open attribute (can't "
                           "locate attribute: '%s')" % key)
        v = self._s[key]
        return v.copy() if isinstance(v, numpy.ndarray) else v

    def __setitem__(self, key, value):
        value = _storable(value)
        self._f._io("h5.attr", key)
        self._f._begin_op()
        self._s[key] = value

    create = __setitem__

    def modify(self, key, value):
        self[key] = value

    def __delitem__(self, key):
        self._f._io("h5.attr", key)
        if key not in self._s:
            raise KeyError(key)
        self._f._begin_op()
        del self._s[key]

    def __iter__(self):
        self._f._io("h5.lookup", "attrs")
        return iter(sorted(self._s))       # h5py iterates by name

    def __len__(self):
        return len(self._s)

    def __contains__(self, key):
        self._f._io("h5.lookup", key)
        return key in self._s


class Dataset(object):
    def __init__(self, leaf, file_, name):
        self._l = leaf
        self.file = file_
        self.name = name

    @property
    def attrs(self):
        return Attributes(self._l.attrs, self.file)

    @property
    def value(self):
        return self[()]

    @property
    def shape(self):
        return self._l.array.shape

    @property
    def dtype(self):
        return self._l.array.dtype

    @property
    def size(self):
        return self._l.array.size

    @property
    def ndim(self):
        return self._l.array.ndim

    def __len__(self):
        return len(self._l.array)

    def __getitem__(self, idx):
        self.file._io("h5.read_data", self.name)
        out = self._l.array[idx]
        return out.copy() if isinstance(out, numpy.ndarray) else out

    def __setitem__(self, idx, value):
        self.file._io("h5.data", self.name)
        self.file._begin_op()
        self._l.array[idx] = value

    def __array__(self, dtype=None, copy=None):
        out = self[()]
        return numpy.asarray(out, dtype=dtype)

    def __iter__(self):
        return iter(self[()])

    def read_direct(self, dest):
        dest[...] = self[()]


class Group(object):
    def __init__(self, tree, file_, name):
        self._t = tree
        self.file = file_
        self.name = name

    @property
    def attrs(self):
        self.file._alive()
        return Attributes(self._t.attrs, self.file)

    def _split(self, path):
        return [p for p in str(path).split("/") if p]

    def _walk(self, parts):
        t = self._t
        for p in parts:
            if not isinstance(t, Tree) or p not in t.items:
                return None
            t = t.items[p]
        return t

    def _root(self, path):
        return self.file if str(path).startswith("/") else self

    def __contains__(self, path):
        self.file._io("h5.lookup", path)
        return self._root(path)._walk(self._split(path)) is not None

    def __getitem__(self, path):
        self.file._io("h5.lookup", path)
        node = self._root(path)._walk(self._split(path))
        if node is None:
            raise KeyError("Unable to synchronously open object (object '%s' "
                           "doesn't exist)" % path)
        full = posixpath.join(self.name, str(path))
        if isinstance(node, Tree):
            return Group(node, self.file, full)
        return Dataset(node, self.file, full)

    def get(self, path, default=None):
        try:
            return self[path]
        except KeyError:
            return default

    def __iter__(self):
        self.file._io("h5.lookup", self.name)
        return iter(sorted(self._t.items))

    def __len__(self):
        return len(self._t.items)

    def keys(self):
        self.file._io("h5.lookup", self.name)
        return sorted(self._t.items)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    iterkeys = keys
    itervalues = values
    iteritems = items

    def _parent(self, path, create):
        parts = self._split(path)
        t = self._root(path)._t
        for p in parts[:-1]:
            if p not in t.items:
                if not create:
                    raise KeyError(path)
                t.items[p] = Tree()
            t = t.items[p]
        return t, parts[-1]

    def create_group(self, path, track_order=None):
        self.file._writable()
        self.file._io("h5.group", path)
        if self._root(path)._walk(self._split(path)) is not None:
            raise ValueError("Unable to synchronously create group (name "
                             "already exists)")
        self.file._begin_op()
        t, last = self._parent(path, True)
        t.items[last] = Tree()
        return Group(t.items[last], self.file,
                     posixpath.join(self.name, str(path)))

    def require_group(self, path):
        if path in self:
            return self[path]
        return self.create_group(path)

    def create_dataset(self, path, shape=None, dtype=None, data=None,
                       compression=None, compression_opts=None, chunks=None,
                       maxshape=None, fillvalue=0, shuffle=None,
                       fletcher32=None, track_order=None, **kw):
        self.file._writable()
        if data is not None:
            if isinstance(data, str):
                arr = numpy.array(data.encode())
            else:
                arr = numpy.asarray(data, dtype=dtype)
            if shape is not None:
                arr = arr.reshape(shape)
        else:
            arr = numpy.full(shape, fillvalue, dtype=dtype or "f4")
        if arr.dtype.kind in "OU":
            raise TypeError("Object dtype dtype('O') has no native HDF5 "
                            "equivalent")
        if arr.shape == () and (compression or chunks):
            raise TypeError("Scalar datasets don't support chunk/filter "
                            "options")
        self.file._io("h5.data", path)
        if self._root(path)._walk(self._split(path)) is not None:
            raise ValueError("Unable to synchronously create dataset (name "
                             "already exists)")
        self.file._begin_op()
        t, last = self._parent(path, True)
        t.items[last] = Leaf(numpy.array(arr))
        return Dataset(t.items[last], self.file,
                       posixpath.join(self.name, str(path)))

    def require_dataset(self, path, shape=None, dtype=None, **kw):
        if path in self:
            return self[path]
        return self.create_dataset(path, shape=shape, dtype=dtype, **kw)

    def __setitem__(self, path, value):
        if isinstance(value, (Group, Dataset)):
            raise NotImplementedError("links")
        self.create_dataset(path, data=value)

    def __delitem__(self, path):
        self.file._writable()
        self.file._io("h5.delete", path)
        t, last = self._parent(path, False)
        if last not in t.items:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        self.file._begin_op()
        del t.items[last]

    def move(self, src, dst):
        self.file._writable()
        self.file._io("h5.group", (src, dst))
        self.file._begin_op()
        t, last = self._parent(src, False)
        node = t.items[last]
        t2, last2 = self._parent(dst, True)
        if last2 in t2.items:
            raise ValueError("name already exists")
        del t.items[last]
        t2.items[last2] = node

    def copy(self, src, dest, name=None):
        self.file._writable()
        node = src._t if isinstance(src, Group) else self._walk(
            self._split(src))
        self.file._io("h5.group", "copy")
        self.file._begin_op()
        target = dest if isinstance(dest, Group) else self
        t, last = target._parent(name if isinstance(dest, Group) else dest,
                                 True)
        t.items[last] = copy.deepcopy(node)

    def visit(self, fn):
        def rec(t, pre):
            for k in sorted(t.items):
                p = pre + k
                r = fn(p)
                if r is not None:
                    return r
                if isinstance(t.items[k], Tree):
                    r = rec(t.items[k], p + "/")
                    if r is not None:
                        return r
        return rec(self._t, "")


def make_h5py(proc):
    """Build the h5py module as seen by one simulated process."""
    world = proc.world
    disk = world.disk

    class File(Group):
        def __init__(self, name, mode=None, driver=None, libver=None, **kw):
            self.file = self
            self.filename = str(name)
            self._path = disk.norm(name, proc.cwd)
            self.mode = mode or "r"
            self.name = "/"
            self._open = False
            self._rw = self.mode != "r"
            self._history = []      # trees after each operation (torn states)
            path = self._path
            if self.mode not in ("r", "r+", "w", "w-", "x", "a"):
                raise ValueError("Invalid mode; must be one of r, r+, w, w-, "
                                 "x, a")
            kind = {"r": "h5.open_r", "w": "h5.open_w", "w-": "h5.open_w",
                    "x": "h5.open_w"}.get(self.mode, "h5.open_a")
            world.seam(proc, kind, (path, self.mode))
            node = disk.files.get(path)
            if node is not None and node.writer is not None:
                raise OSError("Unable to synchronously open file (unable to "
                              "lock file, errno = 11)")
            if self.mode == "r":
                if path in disk.dirs or node is None:
                    raise OSError(errno.ENOENT, "Unable to open file '%s'"
                                  % path)
                if node.kind != "h5" or node.torn or node.data is None:
                    raise OSError("Unable to synchronously open file (file "
                                  "signature not found)")
                self._t = copy.deepcopy(node.data)
                self._open = True
                return
            if self.mode == "r+" and node is None:
                raise OSError(errno.ENOENT, "Unable to open file '%s'" % path)
            if self.mode in ("w-", "x") and node is not None:
                raise FileExistsError(errno.EEXIST, "Unable to synchronously "
                                      "create file (file exists)")
            if posixpath.dirname(path) not in disk.dirs or path in disk.dirs:
                raise OSError(errno.ENOENT, "Unable to synchronously create "
                              "file (unable to open file '%s')" % path)
            if self.mode in ("a", "r+") and node is not None:
                if node.kind != "h5" or node.torn or node.data is None:
                    raise OSError("Unable to synchronously open file (file "
                                  "signature not found)")
                self._t = copy.deepcopy(node.data)
                self._fresh = False
                self._node = node
            else:
                from .disk import Node
                self._t = Tree()
                self._fresh = True
                if node is None:
                    node = Node("h5", None, world.now)
                    disk.files[path] = node
                node.kind = "h5"
                node.data = None          # truncated at once
                node.torn = True
                self._node = node
            node.writer = proc
            self._open = True
            proc.open_h5.append(self)

        # plumbing used by groups and attributes
        def _alive(self):
            if proc.dead:
                raise SimKilled()
            if not self._open:
                raise ValueError("Invalid location identifier (invalid "
                                 "location identifier)")

        def _writable(self):
            self._alive()
            if not self._rw:
                raise ValueError("Unable to synchronously create (no write "
                                 "intent on file)")

        def _io(self, kind, detail):
            self._alive()
            if kind in ("h5.attr", "h5.data", "h5.group", "h5.delete") \
                    and not self._rw:
                raise OSError("Can't write (no write intent on file)")
            fault = world.seam(proc, kind, str(detail))
            if fault is not None:
                raise OSError(errno.EIO, "Input/output error")

        def _begin_op(self):
            self._history.append(copy.deepcopy(self._t))

        def flush(self):
            self._alive()
            world.seam(proc, "h5.flush", self._path)
            self._publish()

        def _publish(self):
            self._node.data = copy.deepcopy(self._t)
            self._node.torn = False
            self._node.mtime = world.now

        def close(self):
            if not self._open:
                return
            if proc.dead:
                self._open = False
                return
            if not self._rw:
                self._open = False
                return
            try:
                world.seam(proc, "h5.close", self._path)
            except OSError:
                # final metadata flush failed
                self._released()
                self._node.torn = True
                self._node.data = None
                raise
            except SimKilled:
                raise                      # die() has been here
            except BaseException:
                # interrupted: the library closes the file anyway when the
                # object is collected
                self._publish()
                self._released()
                raise
            self._publish()
            self._released()

        def _released(self):
            self._open = False
            if self in proc.open_h5:
                proc.open_h5.remove(self)
            self._node.writer = None

        def die(self, torn):
            """The process was killed with this file open for writing."""
            self._open = False
            n = self._node
            n.writer = None
            if torn == "old" and not self._fresh and not n.torn:
                return
            if torn == "prefix" or torn == "old":
                states = self._history + [self._t]
                pick = states[world.rng.randrange(len(states))]
                n.data = copy.deepcopy(pick)
                n.torn = False
                world.event("TORN", self._path, "prefix")
                return
            n.torn = True
            n.data = None

        def __enter__(self):
            self._alive()
            return self

        def __exit__(self, *a):
            self.close()

        def __bool__(self):
            return self._open

    mod = types.ModuleType("h5py")
    mod.File = File
    mod.Group = Group
    mod.Dataset = Dataset
    mod.AttributeManager = Attributes
    mod.version = types.SimpleNamespace(version="2.10.0", hdf5_version="1.8")
    mod.__version__ = "2.10.0"

    def is_hdf5(path):
        n = disk.files.get(disk.norm(path, proc.cwd))
        world.seam(proc, "fs.stat", str(path))
        return n is not None and n.kind == "h5" and not n.torn

    mod.is_hdf5 = is_hdf5
    mod.string_dtype = lambda *a, **k: numpy.dtype("O")
    mod.special_dtype = lambda **k: numpy.dtype("O")
    return mod
