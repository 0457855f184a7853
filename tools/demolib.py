"""What a demonstration needs: the real echidna in a simulated process whose
files live in memory, so nothing outside this program can be touched."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy

numpy.seterr(all="ignore")
from collections import OrderedDict

from sim.disk import Disk
from sim.process import SimProcess, preload
from sim.world import SimKilled, World

preload()


def world(faults=(), seed="demo", **k):
    w = World(seed, list(faults), **k)
    w.thedisk = Disk(w)
    return w


def config(p, axes, name="config"):
    c = p.imp("echidna.core.config")
    q = p.imp("echidna.core.parameter")
    return c.SpectraConfig(name, OrderedDict(
        (n, q.SpectraParameter(n, lo, hi, b)) for n, lo, hi, b in axes))


def spectrum(p, name, axes, decays=100., fit=None, background=None, fill=True):
    s = p.imp("echidna.core.spectra").Spectra(
        name, decays, config(p, axes), fit_config=fit,
        background_name=background)
    if fill:
        s._data = numpy.arange(1., s._data.size + 1).reshape(s._data.shape)
        s._raw_events = int(s._data.sum())
    return s


def rate(p, name="rate", **k):
    a = dict(prior=5., sigma=2., low=0., high=10., bins=5)
    a.update(k)
    return p.imp("echidna.core.parameter").RateParameter(name, **a)


def fit_config(p, pars, spectra_name, name="fc"):
    c = p.imp("echidna.core.config")
    return c.SpectraFitConfig(name, OrderedDict(
        (x.get_name(), x) for x in pars), spectra_name)


def global_config(p, pars, name="global"):
    """pars: [(parameter, "global"|"spectra")]"""
    c = p.imp("echidna.core.config")
    g = c.GlobalFitConfig(name, OrderedDict())
    for x, kind in pars:
        g.add_par(x, kind)
    return g


def same(a, b):
    return numpy.array_equal(numpy.asarray(a), numpy.asarray(b))


def expect(cond, what):
    if not cond:
        print("FAIL: " + what)
        sys.exit(1)


def done():
    print("ok")
    sys.exit(0)
