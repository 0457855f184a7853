"""Event files and the documented selection of events."""
import json
import math

import numpy

AV = 5997.          # default outer radius (constants._av_radius), mm


def rand_axes(rng, external, kinds=("mc", "reco", "truth")):
    n = rng.choice([1, 1, 2, 2, 3])
    dims = rng.sample(["energy", "energy", "radial", "radial3", "zradial3"],
                      min(n, 3))
    one = rng.choice(["mc", "reco"]) if rng.random() < 0.4 else None
    out, seen = [], set()
    for d in dims:
        if d in seen:
            continue
        seen.add(d)
        if d == "energy":
            t = rng.choice(["mc", "truth"] if one == "mc" else
                           [one or rng.choice(["mc", "reco", "truth"])])
            lo = rng.choice([0., 0., 0.5, 1.])
            w = rng.choice([0.5, 0.25, 1.])
            b = rng.choice([2, 4, 6, 8])
        else:
            t = one or rng.choice(["mc", "reco"])
            if external:
                t = "reco"
            if d == "radial":
                lo, w, b = 0., rng.choice([500., 1000., 1500.]), \
                    rng.choice([2, 4, 6])
            elif d == "radial3":
                lo, w, b = 0., rng.choice([0.25, 0.125, 0.5]), \
                    rng.choice([2, 4])
            else:
                w, b = rng.choice([(0.25, 8), (0.5, 4), (0.5, 2), (0.25, 4)])
                lo = -w * b / 2
        out.append(["%s_%s" % (d, t), lo, lo + w * b, b])
    return out


def rand_pos(rng, fv):
    r = rng.random()
    if r < 0.35:
        # exactly on an axis, so that the radius is exact
        p = [0., 0., 0.]
        p[rng.randrange(3)] = rng.choice([1., -1.]) * rng.choice(
            [0., 500., 1000., 2500., 4000., 6000., fv or 3000.])
        return p
    if r < 0.4:
        return [-99999., -99999., -99999.]
    big = rng.choice([800., 3000., 6000.])
    return [round(rng.uniform(-big, big), 2) for _ in range(3)]


def rand_energy(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0., 0.25, 0.5, 1., 1.5, 2., 3., 4., 8.])
    if r < 0.36:
        return rng.choice([-1., -99999., 1e9, float("nan"), float("inf")])
    return round(rng.uniform(0., 6.), 5)


def rand_ntuple(rng, n, cut):
    out = []
    index = 0
    for _ in range(n):
        r = rng.random()
        index = 0 if r < 0.6 else (index + 1 if r < 0.92 else -1)
        p = rand_pos(rng, cut["fv_radius"])
        q = rand_pos(rng, cut["fv_radius"])
        out.append({
            "mc": 1 if rng.random() < 0.85 else 0,
            "scintFit": 1 if rng.random() < 0.8 else rng.choice([0, -1]),
            "evIndex": index, "energy": rand_energy(rng),
            "mcEdepQuenched": rand_energy(rng), "mcEdep": rand_energy(rng),
            "mcPosx": p[0], "mcPosy": p[1], "mcPosz": p[2],
            "posx": q[0], "posy": q[1], "posz": q[2]})
    return out


def rand_root(rng, n, axes, cut):
    names = [a[0] for a in axes]
    mc = any(not x.endswith("_reco") for x in names)
    fv, ext = cut["fv_radius"], cut["external"]
    # quantities of the simulated event with a reconstructed position need
    # one and only one reconstructed event (documented)
    most = 1 if mc and ext and fv else 3
    # external without a fiducial volume: only the number of evs is looked at
    nofit = not (mc and ext and not fv)
    # a position is used without asking whether it is there
    nopos = not fv
    out = []
    for _ in range(n):
        evs = []
        for _ in range(min(most, rng.choice([0, 1, 1, 1, 2, 3]))):
            evs.append({"fit": not nofit or rng.random() < 0.85,
                        "has_e": rng.random() < 0.9,
                        "ok_e": rng.random() < 0.9,
                        "has_p": not nopos or rng.random() < 0.9,
                        "ok_p": not nopos or rng.random() < 0.9,
                        "energy": rand_energy(rng),
                        "pos": rand_pos(rng, fv)})
        out.append({"mc": {"particles": 0 if rng.random() < 0.06 else
                           rng.choice([1, 1, 2]),
                           "pos": rand_pos(rng, fv),
                           "quenched": rand_energy(rng),
                           "edep": rand_energy(rng)}, "evs": evs})
    return out


def rand_cut(rng, external):
    return {"fv_radius": rng.choice([None, None, 3000., 4000., 3500.5]),
            "external": external,
            "outer_radius": rng.choice([None, None, 6000., 5000.]),
            "bipo": rng.random() < 0.3}


# -- the documented selection ----------------------------------------------

def mag(p):
    return math.sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])


def value(dim, p, energy, outer):
    if dim == "energy":
        return energy
    if dim == "radial":
        return mag(p)
    v = (mag(p) / (outer or AV)) ** 3
    return -v if dim == "zradial3" and p[2] < 0. else v


def near(pos, fv):
    """Is it a matter of rounding whether the position is in the volume?"""
    return fv and abs(mag(pos) - fv) < 1e-9 * fv and \
        sum(1 for x in pos if x) > 1


class Unclear(Exception):
    """A matter of rounding."""


def inside(pos, cut):
    fv = cut["fv_radius"]
    if not fv:
        return True
    if near(pos, fv):
        raise Unclear()
    return mag(pos) < fv


def ntuple_values(e, names, cut):
    """Values along each axis, or None if the entry is not selected."""
    mcp = (e["mcPosx"], e["mcPosy"], e["mcPosz"])
    rp = (e["posx"], e["posy"], e["posz"])
    ext, outer = cut["external"], cut["outer_radius"]
    out = []
    for n in names:
        dim, t = n.rsplit("_", 1)
        if t == "reco":
            ok = e["scintFit"] == 1 and inside(rp, cut)
            if dim == "energy":
                ok = ok and e["energy"] > 0
            v = value(dim, rp, e["energy"], outer)
        else:
            ok = e["mc"] == 1
            if ext:
                ok = ok and e["scintFit"] == 1 and inside(rp, cut)
            else:
                ok = ok and inside(mcp, cut)
            v = value(dim, mcp, e["mcEdepQuenched"] if t == "mc" else
                      e["mcEdep"], outer)
        if not ok:
            return None
        out.append(v)
    return out


def select_ntuple(entries, names, cut):
    out = []
    for i, e in enumerate(entries):
        if cut["bipo"]:
            if e["evIndex"] != 0:
                continue
            if i + 1 < len(entries) and entries[i + 1]["evIndex"] >= 1:
                continue
        v = ntuple_values(e, names, cut)
        if v is not None:
            out.append(v)
    return out


def mc_values(d, n, cut):
    dim, t = n.rsplit("_", 1)
    mc = d["mc"]
    if mc["particles"] < 1:
        return None
    if cut["external"]:
        if not d["evs"]:
            return None
        if cut["fv_radius"]:
            ev = d["evs"][0]
            if not ev["fit"] or not inside(ev["pos"], cut):
                return None
    elif not inside(mc["pos"], cut):
        return None
    return value(dim, mc["pos"], mc["quenched"] if t == "mc" else mc["edep"],
                 cut["outer_radius"])


def ev_values(ev, n, cut):
    dim, t = n.rsplit("_", 1)
    need = ("has_e", "ok_e") if dim == "energy" else ("has_p", "ok_p")
    if not (ev["fit"] and ev[need[0]] and ev[need[1]]):
        return None
    if not inside(ev["pos"], cut):
        return None
    return value(dim, ev["pos"], ev["energy"], cut["outer_radius"])


def select_root(entries, names, cut):
    out = []
    for d in entries:
        if cut["bipo"] and len(d["evs"]) != 1:
            continue
        if all(n.endswith("_reco") is False for n in names):
            rows = [[mc_values(d, n, cut) for n in names]]
        else:
            rows = [[ev_values(ev, n, cut) if n.endswith("_reco") else
                     mc_values(d, n, cut) for n in names]
                    for ev in d["evs"]]
        out += [r for r in rows if None not in r]
    return out


# -- one extractor, with the options that filling does not use --------------

CLASSES = {"energy_mc": "EnergyExtractMC", "energy_reco": "EnergyExtractReco",
           "energy_truth": "EnergyExtractTruth",
           "radial_mc": "RadialExtractMC", "radial_reco": "RadialExtractReco",
           "radial3_mc": "Radial3ExtractMC",
           "radial3_reco": "Radial3ExtractReco",
           "zradial3_mc": "ZRadial3ExtractMC",
           "zradial3_reco": "ZRadial3ExtractReco"}


def refused_options(name, cut, other):
    """Simulated positions of events from outside do not mean anything."""
    dim, t = name.rsplit("_", 1)
    return cut["external"] and (other if t == "reco" else dim != "energy")


def extract_ntuple(e, name, cut, other):
    """Value for one entry, None if not valid; `other`: cut on the position
    that is not the default one."""
    dim, t = name.rsplit("_", 1)
    sim = (e["mcPosx"], e["mcPosy"], e["mcPosz"])
    rec = (e["posx"], e["posy"], e["posz"])
    ext, outer = cut["external"], cut["outer_radius"]
    if t == "reco":
        if e["scintFit"] != 1 or (dim == "energy" and not e["energy"] > 0):
            return None
        if not inside(sim if other else rec, cut):
            return None
        return value(dim, rec, e["energy"], outer)
    if e["mc"] != 1 or (ext and e["scintFit"] != 1):
        return None
    if cut["fv_radius"]:
        if ext or other:
            if e["scintFit"] != 1 or not inside(rec, cut):
                return None
        elif not inside(sim, cut):
            return None
    return value(dim, sim, e["mcEdepQuenched" if t == "mc" else "mcEdep"],
                 outer)


def extract_root(d, name, cut, other):
    """Values for one entry: of each ev, or the only one of the simulated
    event. Refused if it is not clear which ev to cut on."""
    dim, t = name.rsplit("_", 1)
    mc, evs, outer = d["mc"], d["evs"], cut["outer_radius"]
    if t == "reco":
        need = "e" if dim == "energy" else "p"
        return [value(dim, ev["pos"], ev["energy"], outer)
                if ev["fit"] and ev["has_" + need] and ev["ok_" + need] and
                inside(mc["pos"] if other else ev["pos"], cut) else None
                for ev in evs]
    if mc["particles"] < 1 or (cut["external"] and not evs):
        return [None]
    if cut["fv_radius"]:
        if cut["external"] or other:
            if len(evs) > 1:
                return "refused"
            if not evs or not evs[0]["fit"] or \
                    not inside(evs[0]["pos"], cut):
                return [None]
        elif not inside(mc["pos"], cut):
            return [None]
    return [value(dim, mc["pos"], mc["quenched" if t == "mc" else "edep"],
                  outer)]


def fill(data, axes, rows):
    """Add rows to the histogram; how many fall into it."""
    n = 0
    for r in rows:
        at = []
        for v, (name, lo, hi, b) in zip(r, axes):
            if not lo <= v < hi:
                break
            at.append(min(int(math.floor((v - lo) / (hi - lo) * b)), b - 1))
        else:
            data[tuple(at)] += 1.
            n += 1
    return n


def check_rows(rows, axes):
    for r in rows:
        for v, (name, lo, hi, b) in zip(r, axes):
            x = (v - lo) / (hi - lo) * b
            if math.isfinite(x) and abs(x - round(x)) < 1e-9 and \
                    not name.startswith(("energy", "radial_")):
                raise Unclear()
            if name.startswith("radial_") and math.isfinite(x) and \
                    0 < abs(x - round(x)) < 1e-9:
                raise Unclear()


def clear(entries, kind, axes, cut):
    """Entries without those that are a matter of rounding."""
    names = [a[0] for a in axes]
    out = []
    for e in entries:
        try:
            sel = select_ntuple if kind == "ntuple" else select_root
            check_rows(sel([e], names, dict(cut, bipo=False)), axes)
        except Unclear:
            continue
        out.append(e)
    return out


def write(disk, path, entries):
    disk.put_bytes(path, json.dumps(entries).encode())


def kwargs(cut):
    kw = {}
    if cut["fv_radius"] is not None:
        kw["fv_radius"] = cut["fv_radius"]
    if cut["external"]:
        kw["external"] = True
    if cut["outer_radius"] is not None:
        kw["outer_radius"] = cut["outer_radius"]
    if cut["bipo"]:
        kw["bipo"] = True
    return kw
