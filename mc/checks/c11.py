"""C11: first derivatives of injections and flows are exact."""
import itertools, importlib
import numpy as np
from scipy.sparse import csr_matrix
from mc.core import Result, canon
from mc.space import *
from mc import deriv
from mc.checks.c10 import internal, ref_ac, dense

PROP = "C11"
LEVEL = "model_checking"
RULE = ("states: (edited network, voltage state): every network within the edit bound x every point of a voltage grid (all combinations of "
        "magnitude/angle pairs at the buses); every derivative matrix, sparse and dense, is compared with one assembled element by element from "
        "the product rule. Non-trivial: not the flat voltage state")
ASSUMPTIONS = ["voltages are not zero"]

PTS = [(1., 0.), (.93, -.35), (1.08, .8), (1.35, 3.), (.5, -1.6)]


def alphabet(p):
    nb, nl = len(p["bus"]), len(p["branch"])
    A = []
    for k in range(nl):
        A += [("br_off", k), ("br_tap", k, .96), ("br_shift", k, 8.), ("br_rev", k), ("br_par", k), ("br_r0", k), ("br_b", k, .2), ("br_shift", k, -40.)]
    A += [("bus_shunt", k, 3., -8.) for k in range(nb)] + [("base", 10.)]
    return A


def grids(nb, full):
    if full:
        pts = PTS[:3] if nb > 3 else (PTS[:4] if nb == 3 else PTS)
        return list(itertools.product(range(len(pts)), repeat=nb))
    return [tuple((i + s * k) % 5 for i in range(nb)) for s in (1, 2) for k in range(1)] + [tuple((2 * i + 1) % 5 for i in range(nb)), (0,) * nb]


def build(tier, al=alphabet):
    it, nt = [], 0
    st, n = explore(al, 2 if tier == "quick" else 3, bases=("b2", "b3", "b4") if tier == "quick" else ("b2", "b3"))
    nt += n
    for b, h in st:
        it.append({"base": b, "edits": tolist(h), "full": len(h) <= 1})
    for c in ("case4gs", "case6ww", "case9", "case14", "case30"):
        it.append({"ship": c})
    return it, {"transitions": nt}


def network(item):
    if "ship" in item:
        from pypower.loadcase import loadcase
        p = internal(loadcase(getattr(importlib.import_module("pypower." + item["ship"]), item["ship"])()))
        p["branch"][::4, SHIFT] += 5.
    else:
        p = internal(build_state(item["base"], item["edits"]))
    return p


def voltages(item, p):
    nb = len(p["bus"])
    if "ship" in item:
        return [np.array([PTS[(i + s) % 5][0] * np.exp(1j * PTS[(i * 2 + s) % 5][1]) for i in range(nb)]) for s in range(3)]
    return [np.array([PTS[i][0] * np.exp(1j * PTS[i][1]) for i in g]) for g in grids(nb, item["full"])]


def eq(r, key, x, y):
    x = dense(x)
    r.evals += 1
    x = np.asarray(x)
    if y.ndim == 1:
        x = x.reshape(-1)
    if x.shape != y.shape:
        r.bad(key + ":shape", "%s has shape %s, expected %s" % (key, x.shape, y.shape)); return
    sc = 1 + (np.abs(y).max() if y.size else 0)
    e = np.abs(x - y)
    if not (e <= 1e-9 * sc).all():
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(e), np.inf, e)), e.shape)
        r.bad(key, "%s: element %s is %s, exact value %s" % (key, list(map(int, i)), x[i], y[i]))


def run(item):
    from pypower.dSbus_dV import dSbus_dV
    from pypower.dSbr_dV import dSbr_dV
    from pypower.dIbr_dV import dIbr_dV
    from pypower.dAbr_dV import dAbr_dV
    r = Result()
    p = network(item)
    nb, nl = len(p["bus"]), len(p["branch"])
    Y, Yf, Yt = ref_ac(p["bus"], p["branch"], p["baseMVA"])
    f, t = p["branch"][:, 0].astype(int), p["branch"][:, 1].astype(int)
    base_key = item.get("ship") or "%s:%s" % (item["base"], item["edits"])
    for iv, V in enumerate(voltages(item, p)):
        D, H = deriv.dvolt(V)
        I = Y.dot(V)
        dS = D * np.conj(I)[:, None] + V[:, None] * np.conj(Y.dot(D))
        If, It = Yf.dot(V), Yt.dot(V)
        dIf, dIt = Yf.dot(D), Yt.dot(D)
        Sf, St = V[f] * np.conj(If), V[t] * np.conj(It)
        dSf = D[f] * np.conj(If)[:, None] + V[f][:, None] * np.conj(dIf)
        dSt = D[t] * np.conj(It)[:, None] + V[t][:, None] * np.conj(dIt)
        for mode in ("sparse", "dense"):
            key = "%s:V%d:%s:" % (base_key, iv, mode)
            if mode == "sparse":
                a, b, c = csr_matrix(Y), csr_matrix(Yf), csr_matrix(Yt)
            else:
                a, b, c = np.asmatrix(Y), np.asmatrix(Yf), np.asmatrix(Yt)
            V0 = V.copy(); br0 = p["branch"].copy()
            sv, sa = dSbus_dV(a, V)
            eq(r, key + "dSbus_dVm", sv, dS[:, nb:]); eq(r, key + "dSbus_dVa", sa, dS[:, :nb])
            o = dSbr_dV(p["branch"], b, c, V)
            for n, x, y in zip(("dSf_dVa", "dSf_dVm", "dSt_dVa", "dSt_dVm", "Sf", "St"), o, (dSf[:, :nb], dSf[:, nb:], dSt[:, :nb], dSt[:, nb:], Sf, St)):
                eq(r, key + n, x, y)
            A = dAbr_dV(*o)
            aF = 2 * (np.conj(Sf)[:, None] * dSf).real; aT = 2 * (np.conj(St)[:, None] * dSt).real
            for n, x, y in zip(("dAf_dVa", "dAf_dVm", "dAt_dVa", "dAt_dVm"), A, (aF[:, :nb], aF[:, nb:], aT[:, :nb], aT[:, nb:])):
                eq(r, key + n, x, y)
            o = dIbr_dV(p["branch"], b, c, V)
            for n, x, y in zip(("dIf_dVa", "dIf_dVm", "dIt_dVa", "dIt_dVm", "If", "It"), o, (dIf[:, :nb], dIf[:, nb:], dIt[:, :nb], dIt[:, nb:], If, It)):
                eq(r, key + n, x, y)
            A = dAbr_dV(*o)
            aF = 2 * (np.conj(If)[:, None] * dIf).real; aT = 2 * (np.conj(It)[:, None] * dIt).real
            for n, x, y in zip(("dIf2_dVa", "dIf2_dVm", "dIt2_dVa", "dIt2_dVm"), A, (aF[:, :nb], aF[:, nb:], aT[:, :nb], aT[:, nb:])):
                eq(r, key + n, x, y)
            r.expect(np.array_equal(V, V0) and np.array_equal(br0, p["branch"]), key + "mutated", key + " inputs modified")
        r.validated += 1
        r.states.add(canon((base_key, iv)))
    r.tag("voltage_states", iv + 1)
    return r
