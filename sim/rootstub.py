"""Stand-ins for ROOT and rat: event files on the simulated disk.

A "ROOT file" is a JSON list of entries; an "ntuple" likewise.  Reading goes
through the root.open / root.entry seams, so any read can fail.  As in PyROOT,
iterating a TChain yields the chain itself positioned on the entry, and an
entry that cannot be read raises.
"""
import fnmatch
import json
import math
import posixpath
import types


class Vec(object):
    def __init__(self, p):
        self._p = [float(x) for x in p]

    def Mag(self):
        return math.sqrt(sum(x * x for x in self._p))

    def __getitem__(self, i):
        return self._p[i]

    def X(self):
        return self._p[0]

    def Y(self):
        return self._p[1]

    def Z(self):
        return self._p[2]

    x, y, z = X, Y, Z

    def Perp(self):
        return math.hypot(self._p[0], self._p[1])


class Vertex(object):
    def __init__(self, d):
        self._d = d

    def ContainsEnergy(self):
        return bool(self._d.get("has_e", True))

    def ValidEnergy(self):
        return bool(self._d.get("ok_e", True))

    def GetEnergy(self):
        if not self.ContainsEnergy():
            raise RuntimeError("FitVertex::GetEnergy: no energy")
        return float(self._d["energy"])

    def ContainsPosition(self):
        return bool(self._d.get("has_p", True))

    def ValidPosition(self):
        return bool(self._d.get("ok_p", True))

    def GetPosition(self):
        if not self.ContainsPosition():
            raise RuntimeError("FitVertex::GetPosition: no position")
        return Vec(self._d["pos"])


class EV(object):
    def __init__(self, d):
        self._d = d

    def DefaultFitVertexExists(self):
        return bool(self._d.get("fit", True))

    def GetDefaultFitVertex(self):
        if not self._d.get("fit", True):
            raise RuntimeError("FitResult::GetVertex: no vertex")
        return Vertex(self._d)


class MCParticle(object):
    def __init__(self, d):
        self._d = d

    def GetPosition(self):
        return Vec(self._d["pos"])


class MC(object):
    def __init__(self, d):
        self._d = d

    def GetMCParticleCount(self):
        return int(self._d.get("particles", 1))

    def GetMCParticle(self, i):
        if i >= self.GetMCParticleCount():
            raise IndexError("MC::GetMCParticle: index out of range")
        return MCParticle(self._d)

    def GetScintQuenchedEnergyDeposit(self):
        return float(self._d["quenched"])

    def GetScintEnergyDeposit(self):
        return float(self._d["edep"])


class DS(object):
    def __init__(self, d):
        self._d = d

    def GetMC(self):
        return MC(self._d["mc"])

    def GetEVCount(self):
        return len(self._d["evs"])

    def GetEV(self, i):
        return EV(self._d["evs"][i])


def make(proc):
    world = proc.world
    disk = world.disk

    def read(path):
        p = disk.norm(path, proc.cwd)
        world.seam(proc, "root.open", p)
        if p not in disk.files:
            return None
        n = disk.files[p]
        if n.torn or n.kind != "bytes":
            raise RuntimeError("%s not a ROOT file" % p)
        try:
            return json.loads(n.data.decode())
        except ValueError:
            raise RuntimeError("%s is truncated" % p)

    class DSReader(object):
        def __init__(self, path):
            self._e = read(path)
            if self._e is None:
                raise RuntimeError("DSReader: cannot open %s" % path)

        def GetEntryCount(self):
            return len(self._e)

        def GetEntry(self, i):
            world.seam(proc, "root.entry", i)
            return DS(self._e[i])

    class TChain(object):
        def __init__(self, name, *a):
            self._entries = []
            self._i = None

        def Add(self, path, nentries=1234567890):
            """As documented for TChain::Add: files that cannot be opened
            are left out; only with nentries <= 0 does it say so."""
            paths = [path]
            if any(c in posixpath.basename(path) for c in "*?["):
                d = disk.norm(posixpath.dirname(path) or ".", proc.cwd)
                paths = [q for q in sorted(disk.files)
                         if posixpath.dirname(q) == d and fnmatch.fnmatch(
                             posixpath.basename(q), posixpath.basename(path))]
                nentries = 1234567890
                n = len(paths)
            else:
                n = 1
            for q in paths:
                try:
                    e = read(q)
                except (EnvironmentError, RuntimeError):
                    e = None
                if e is None:
                    if nentries <= 0:
                        n = 0
                    continue
                self._entries.extend(e)
            return n

        def GetEntries(self):
            return len(self._entries)

        GetEntriesFast = GetEntries

        def GetEntry(self, i):
            world.seam(proc, "root.entry", i)
            self._i = i
            return 1

        LoadTree = GetEntry

        def __iter__(self):
            for i in range(len(self._entries)):
                world.seam(proc, "root.entry", i)
                self._i = i
                yield self

        def __getattr__(self, name):
            d = self.__dict__
            if d.get("_i") is None or name.startswith("__"):
                raise AttributeError(name)
            e = d["_entries"][d["_i"]]
            if name not in e:
                raise AttributeError(name)
            return e[name]

    root = types.ModuleType("ROOT")
    rat = types.ModuleType("rat")
    ns = types.SimpleNamespace
    root.RAT = ns(DU=ns(DSReader=DSReader), DS=ns())
    root.TChain = TChain
    root.TObject = object
    root.gROOT = ns(SetBatch=lambda *a: None)
    rat.RAT = root.RAT
    rat.ROOT = root
    rat.dsreader = lambda path: iter(
        [(DS(e), None) for e in (read(path) or [])])
    return root, rat
