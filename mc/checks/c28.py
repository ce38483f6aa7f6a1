"""C28: load totals and load scaling add up."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.space import apply as sp_apply
from mc import api

PROP = "C28"
LEVEL = "model_checking"
RULE = ("states: every case reached by at most `depth` edits (dispatchable loads of several kinds and positions, outages, orders, numbering, demands) x every zone map of the list; in each, totals "
        "of every kind and every scaling (kind x powers x factor/quantity x load vector, also two scalings in sequence) are compared with a load-by-load model. "
        "Non-trivial: the network carries fixed or dispatchable load")
ASSUMPTIONS = ["a dispatchable load has at most one non-zero reactive limit", "load vectors come from a finite list; networks have 2-4 buses"]


def nd():
    p = b4()
    p["bus"][:, BUS_AREA] = [1, 3, 1, 2]
    p["gen"] = np.vstack([p["gen"][:1], gen(7, -12., -4., 0., -6., pmax=0., pmin=-18.), p["gen"][1:], gen(4, -20., 5., 10., 0., pmax=0., pmin=-30.)])
    p["gencost"] = np.vstack([p["gencost"][:1], [2, 0, 0, 3, .01, 20., 0.], p["gencost"][1:], [2, 0, 0, 3, .01, 30., 0.]])
    return p


NETS = {"b2": b2, "b3": b3, "b4": b4, "nd": nd}
KINDS = {"cap": (-15., 8., 0., 8.), "ind": (-25., -9., -9., 0.), "unit": (-10., 0., 0., 0.), "zero": (0., 0., 0., 0.)}


def e_dl(p, b, kind, first=0):
    pmin, q, qmin, qmax = KINDS[kind]
    g = np.array([gen(p["bus"][b, 0], pmin * .8, q * .8, qmax, qmin, pmax=0., pmin=pmin)])
    p["gen"] = np.vstack([g, p["gen"]] if first else [p["gen"], g])
    c = np.array([[2, 0, 0, 3, 0., 9., 0.]])
    p["gencost"] = np.vstack([c, p["gencost"]] if first else [p["gencost"], c])
def e_store(p, k): p["gen"][k, PMIN] = -20.
def e_swapg(p): p["gen"] = p["gen"][::-1].copy(); p["gencost"] = p["gencost"][::-1].copy()
def e_areas(p, a): p["bus"][:, BUS_AREA] = (list(a) * 4)[:len(p["bus"])]
LOCAL = dict((n[2:], f) for n, f in list(globals().items()) if n.startswith("e_") and f.__module__ == __name__)


def do(p, e):
    if e[0] in LOCAL:
        return LOCAL[e[0]](p, *e[1:]) is not False
    return sp_apply(p, e) is not False


def alphabet(p):
    nb, ng = len(p["bus"]), len(p["gen"])
    A = [("dl", b, k) for b in range(nb) for k in sorted(KINDS)] + [("dl", 0, "ind", 1), ("dl", nb - 1, "cap", 1)]
    A += [("gen_off", k) for k in range(ng)] + [("store", 0), ("swapg",), ("areas", (1,)), ("areas", (2, 1)), ("areas", (3, 1, 3)), ("areas", (2, 3)), ("renum", "odd"), ("renum", "zero"), ("renum", "rev"), ("bus_first", nb - 1),
          ("bus_load", nb - 1, 0., 0.), ("bus_load", 0, -20., 7.), ("bus_load", nb - 1, 0., 12.), ("bus_type", nb - 1, 4), ("gen_move", 0, nb - 1), ("base", 10.)]
    return A


def build(tier):
    items, seen, nt = [], set(), 0
    for net in sorted(NETS):
        A = alphabet(NETS[net]())
        seqs = [()] + [(a,) for a in A] + list((itertools.combinations if tier == "quick" else itertools.permutations)(A, 2))
        if tier != "quick":
            R = [a for a in A if a[0] in ("dl", "gen_off", "areas", "bus_first", "swapg")]
            seqs += list(itertools.permutations(R, 3))
        for s in seqs:
            p = NETS[net]()
            try:
                if not all(do(p, e) for e in s):
                    continue
            except IndexError:
                continue
            nt += 1
            k = canon(p)
            if k not in seen:
                seen.add(k)
                items.append({"net": net, "seq": [list(e) for e in s], "full": len(s) <= 1 or tier != "quick" and len(s) == 2})
    return items, {"transitions": nt}


# ------------------------------------------------------------------ model
def loads(p, gen_given):
    """list of (bus row, kind, unit row, P, Q) for every in-service load"""
    pos = dict((int(b[0]), i) for i, b in enumerate(p["bus"]))
    L = [(i, "F", None, b[PD], b[QD]) for i, b in enumerate(p["bus"])]
    if gen_given:
        for k, g in enumerate(p["gen"]):
            if g[GEN_STATUS] > 0 and g[PMIN] < 0 and g[PMAX] == 0:
                q = g[QMAX] if g[QMIN] == 0 else g[QMIN] if g[QMAX] == 0 else 0.
                L.append((pos[int(g[GEN_BUS])], "D", k, -g[PMIN], -q))
    return L


def zonemap(p, z, L):
    """zone of every bus row for a zone argument"""
    if z == "all":
        return [1] * len(p["bus"])
    if z is None:
        return [int(a) for a in p["bus"][:, BUS_AREA]]
    if z == "loads":
        has = set(i for i, _, _, P, Q in L if P or Q)
        return [1 if i in has else 0 for i in range(len(p["bus"]))]
    return list(z)


def totals(p, zone, which, gen_given):
    nz = max(zone)
    P, Q = np.zeros(nz), np.zeros(nz)
    for i, kind, k, a, b in loads(p, gen_given):
        if zone[i] > 0 and (which == "B" or which == kind):
            P[zone[i] - 1] += a; Q[zone[i] - 1] += b
    return P, Q


class Undecided(Exception):
    pass


class Impossible(Exception):
    pass


def scaled(p, vec, zone, which, pq, quantity, gen_given):
    q = api.clone(p)
    L = loads(p, gen_given)
    for k, v in enumerate(vec):
        f = v
        if quantity:
            fx = sum(P for i, kd, _, P, _ in L if kd == "F" and zone[i] == k + 1)
            dp = sum(P for i, kd, _, P, _ in L if kd == "D" and zone[i] == k + 1)
            have, rest = {"B": (fx + dp, 0.), "F": (fx, dp), "D": (dp, fx)}[which]
            if 0 < abs(have) < 1e-9:
                raise Undecided()           # loads that cancel except for rounding
            if have == 0:
                if abs(v - rest) > 1e-12:
                    raise Impossible()
                f = 1.
            else:
                f = (v - rest) / have
        for i, kd, g, P, Q in L:
            if zone[i] != k + 1 or which not in ("B", kd):
                continue
            if kd == "F":
                q["bus"][i, PD] *= f
                if pq == "PQ":
                    q["bus"][i, QD] *= f
            else:
                q["gen"][g, [PG, PMIN]] *= f
                if pq == "PQ":
                    q["gen"][g, [QG, QMIN, QMAX]] *= f
    return q


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-11, atol=1e-10)


def run(item):
    from pypower.total_load import total_load
    from pypower.scale_load import scale_load, ScalingError
    r = Result()
    p = NETS[item["net"]]()
    for e in item["seq"]:
        if not do(p, e):
            return r
    nb = len(p["bus"])
    r.states.add(canon(p))
    if not len(loads(p, True)) or not any(a or b for _, _, _, a, b in loads(p, True)):
        r.tag("no_load")
    key0 = "%s:%s" % (item["net"], ";".join("_".join(map(str, e)) for e in item["seq"]))
    before = canon(p)
    maps = {"area": None, "all": "all", "one": [1] * nb, "alt": [1 + i % 2 for i in range(nb)], "skip": [i % 3 for i in range(nb)], "rev": [nb - i for i in range(nb)]}
    # totals
    for zn in sorted(maps):
        for gg in (True, False):
            for w in (None, "FIXED", "DISPATCHABLE", "BOTH"):
                z = maps[zn]
                zone = zonemap(p, z, None)
                if max(zone) == 0:
                    continue
                kind = "F" if not gg else (w or "BOTH")[0]
                want = totals(p, zone, kind, gg)
                arg = [p["bus"], p["gen"] if gg else None]
                r.evals += 1
                got = total_load(*(arg + [z if z is None or z == "all" else np.array(z, float if zn == "alt" else int), w]))
                r.expect(close(got[0], want[0]) and close(got[1], want[1]), "%s:total:%s:%s:%s" % (key0, zn, w, gg), "total_load(%s, %s, gen=%s) gives %s, loads add up to %s" % (zn, w, gg, [np.asarray(x).tolist() for x in got], [x.tolist() for x in want]))
    r.validated += 1
    # scalings
    vecs = {1: [[2.], [.5], [0.], [-1.], [60.]], 2: [[2., .25], [0., 30.]], 3: [[1., 2., .5], [20., 0., 3.]], 4: [[.5, 2., 1., 4.], [10., 20., 30., 40.]]}
    if not item["full"]:
        vecs = dict((n, v[:1] + v[-1:]) for n, v in vecs.items())
    def args():
        for zn in [None] + sorted(maps):
            z = maps.get(zn)
            if zn == "all" or not item["full"] and zn in ("rev", "alt"):
                continue
            for n in vecs:
                if zn is None and n > 1 or zn is not None and max(zonemap(p, z, None)) != n:
                    continue
                if zn == "area" and n == 1:      # a one-element vector without zones means all loads
                    continue
                for v in vecs[n]:
                    for gg in (True, False):
                        for w in ("FIXED", "DISPATCHABLE", "BOTH", None):
                            if not gg and w not in (None, "FIXED"):
                                continue
                            for pq in ("PQ", "P", None):
                                for sc in ("FACTOR", "QUANTITY", None):
                                    if not item["full"] and (sc is None) != (pq is None):
                                        continue
                                    yield zn, z, v, gg, w, pq, sc
    def once(q, zn, z, v, gg, w, pq, sc, key, form):
        """run the real scaling on q, compare with the model -> scaled case or None"""
        L = loads(q, gg)
        zone = zonemap(q, "loads" if zn is None else z, L)
        kind = (w or ("BOTH" if gg else "FIXED"))[0]
        o = {}
        if w is not None: o["which"] = w
        if pq is not None: o["pq"] = pq
        if sc is not None: o["scale"] = sc
        o0 = dict(o)
        try:
            want = scaled(q, v, zone, kind, pq or "PQ", sc == "QUANTITY", gg)
        except Impossible:
            want = None
        except Undecided:
            r.tag("cancelling")
            return None
        h = canon([q["bus"], q["gen"]])
        vec = np.array(v) if form == 0 else np.array([int(x) for x in v]) if all(x == int(x) for x in v) else list(v)
        if form and len(v) == 1:
            vec = v[0]
        v0 = np.array(vec, float)
        r.evals += 1
        za = None if zn is None or z is None else np.array(z)
        try:
            nbus, ngen = scale_load(vec, q["bus"], q["gen"] if gg else None, za, o)
        except ScalingError:
            r.expect(want is None, key, "scaling reported impossible, but is possible")
            r.tag("impossible")
            return None
        r.expect(o == o0 and np.array_equal(np.array(vec, float), v0) and canon([q["bus"], q["gen"]]) == h, key + ":inputs", "arguments modified (options %s -> %s)" % (o0, o))
        if not r.expect(want is not None, key, "scaling that is impossible was not rejected"):
            return None
        r.transitions += 1
        r.expect(close(nbus, want["bus"]) and (not gg or close(ngen, want["gen"])), key, lambda: "after scaling by %s (%s, %s, %s) in zones %s: demands %s expected %s, units %s expected %s" % (
            v, w, pq, sc, zone, nbus[:, [PD, QD]].tolist(), want["bus"][:, [PD, QD]].tolist(), np.asarray(ngen)[:, [PG, QG, QMAX, QMIN, PMIN]].tolist() if gg else "-", want["gen"][:, [PG, QG, QMAX, QMIN, PMIN]].tolist()))
        q2 = api.clone(q)
        q2["bus"] = nbus
        if gg:
            q2["gen"] = ngen
        if sc == "QUANTITY" and zn is not None and max(zone) == len(v) and (not gg or (np.sign(want["gen"][:, PMIN]) == np.sign(q["gen"][:, PMIN])).all()):
            P, _ = total_load(nbus, ngen if gg else None, np.array(zone), "BOTH" if gg else "FIXED")
            r.expect(np.allclose(P, v, atol=1e-8, rtol=1e-9), key + ":target", "total afterwards %s, target %s" % (P.tolist(), v))
        r.tag("scaled")
        return q2
    n = 0
    for zn, z, v, gg, w, pq, sc in args():
        key = "%s:scale:%s:%s:%s:%s:%s:%s" % (key0, zn, v, gg, w, pq, sc)
        n += 1
        q2 = once(p, zn, z, v, gg, w, pq, sc, key, n % 2)
        if q2 is not None and item["full"] and (sc is None) == (pq is None):
            for w2, sc2, v2 in (("BOTH", "QUANTITY", 80.), ("FIXED", "FACTOR", .5), ("DISPATCHABLE", "FACTOR", 3.)):
                if gg or w2 == "FIXED":
                    once(q2, "one", maps["one"], [v2], gg, w2, "PQ", sc2, key + ">%s:%s" % (w2, sc2), 0)
    r.expect(canon(p) == before, key0 + ":inputs", "case modified")
    if r.sample is None:
        r.sample = {"item": key0, "scalings": n}
    return r
