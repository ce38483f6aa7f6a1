"""The case-edit state space.

A state is a PYPOWER case; a transition is one elementary edit of a case.  `explore`
enumerates *every* sequence of at most `depth` edits from every base case (breadth
first, merging states whose case data are identical), so a property checked in each
state holds for every combination of up to `depth` edits.
"""
import numpy as np
from mc.core import canon

# column numbers (the case format is documented in caseformat / idx_*.py; kept literal so
# that a changed constant in the code under test shows up as a disagreement)
BUS_I, BUS_TYPE, PD, QD, GS, BS, BUS_AREA, VM, VA, BASE_KV, ZONE, VMAX, VMIN = range(13)
LAM_P, LAM_Q, MU_VMAX, MU_VMIN = 13, 14, 15, 16
GEN_BUS, PG, QG, QMAX, QMIN, VG, MBASE, GEN_STATUS, PMAX, PMIN = range(10)
PC1, PC2, QC1MIN, QC1MAX, QC2MIN, QC2MAX = 10, 11, 12, 13, 14, 15
MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN = 21, 22, 23, 24
F_BUS, T_BUS, BR_R, BR_X, BR_B, RATE_A, RATE_B, RATE_C, TAP, SHIFT, BR_STATUS, ANGMIN, ANGMAX = range(13)
PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX = 13, 14, 15, 16, 17, 18, 19, 20
PQT, PVT, REFT, NONE = 1, 2, 3, 4


def bus(i, t, pd=0., qd=0., gs=0., bs=0., vm=1., va=0., vmax=1.1, vmin=0.9, area=1, zone=1, kv=345.):
    return [i, t, pd, qd, gs, bs, area, vm, va, kv, zone, vmax, vmin]


def gen(b, pg, qg=0., qmax=300., qmin=-300., vg=1., status=1, pmax=250., pmin=10.):
    return [b, pg, qg, qmax, qmin, vg, 100., status, pmax, pmin] + [0.] * 11


def br(f, t, r, x, b=0., rate=250., tap=0., shift=0., st=1, amin=-360., amax=360.):
    return [f, t, r, x, b, rate, rate, rate, tap, shift, st, amin, amax]


def mk(bus_, gen_, branch_, gencost=None, baseMVA=100.):
    d = {"version": "2", "baseMVA": float(baseMVA), "bus": np.array(bus_, float),
         "gen": np.array(gen_, float), "branch": np.array(branch_, float)}
    if gencost is not None:
        d["gencost"] = np.array(gencost, float)
    d["areas"] = np.array([[1., d["bus"][0, 0]]])
    return d


def b2():
    return mk([bus(1, 3, vm=1.02, va=3.), bus(2, 1, 50., 20.)],
              [gen(1, 0., vg=1.02)],
              [br(1, 2, 0.02, 0.10, 0.05)],
              [[2, 0, 0, 3, 0.1, 5., 20.]])


def b3():
    return mk([bus(20, 3, vm=1.03, va=5.), bus(5, 2, 20., 5., vm=1.01), bus(11, 1, 70., 25., 1., 4., vm=.99, va=-2.)],
              [gen(20, 40., vg=1.03), gen(5, 35., vg=1.01, pmax=120.)],
              [br(20, 5, .02, .12, .06), br(5, 11, .03, .15, .02), br(20, 11, .01, .10, 0., tap=.97)],
              [[2, 100, 0, 3, 0.10, 5., 20.], [2, 50, 0, 3, 0.05, 12., 10.]])


def b4():
    # loop + radial bus, parallel pair, unsorted generators
    return mk([bus(7, 1, 30., 10., area=1, zone=2), bus(2, 2, 0., 0., vm=1.02, va=1., area=2), bus(9, 3, 25., 5., vm=1.0, va=-4.),
               bus(4, 1, 35., 12., 0., 6., vm=.98, area=2, zone=2)],
              [gen(9, 10., vg=1.0, pmax=200.), gen(2, 45., vg=1.02, pmax=90.), gen(9, 15., vg=1.0, pmax=60., pmin=0.)],
              [br(7, 2, .02, .10, .04), br(2, 9, .015, .09, .03), br(9, 7, .01, .08, 0., tap=1.02), br(9, 4, .03, .14, .05),
               br(9, 4, .025, .12, .02)],
              [[2, 0, 0, 3, 0.08, 6., 10.], [2, 0, 0, 3, 0.02, 14., 5.], [2, 0, 0, 3, 0.03, 9., 0.]])


BASES = {"b2": b2, "b3": b3, "b4": b4}


# ---------------------------------------------------------------- edits
def e_br_off(p, k):
    p["branch"][k, BR_STATUS] = 0

def e_br_tap(p, k, t):
    p["branch"][k, TAP] = t

def e_br_shift(p, k, s):
    p["branch"][k, SHIFT] = s

def e_br_rev(p, k):
    p["branch"][k, [F_BUS, T_BUS]] = p["branch"][k, [T_BUS, F_BUS]]

def e_br_par(p, k):
    """second circuit in parallel, different impedance"""
    r = p["branch"][k].copy(); r[BR_R] *= 1.7; r[BR_X] *= 1.3; r[BR_B] += .01
    p["branch"] = np.vstack([p["branch"], r])

def e_br_r0(p, k):
    p["branch"][k, BR_R] = 0.

def e_br_b(p, k, b):
    p["branch"][k, BR_B] = b

def e_br_first(p, k):
    """move row k to the front"""
    p["branch"] = np.vstack([p["branch"][k:k + 1], np.delete(p["branch"], k, 0)])

def e_bus_shunt(p, k, g, b):
    p["bus"][k, GS] = g; p["bus"][k, BS] = b

def e_bus_load(p, k, pd, qd):
    p["bus"][k, PD] = pd; p["bus"][k, QD] = qd

def e_bus_type(p, k, t):
    p["bus"][k, BUS_TYPE] = t

def e_bus_first(p, k):
    p["bus"] = np.vstack([p["bus"][k:k + 1], np.delete(p["bus"], k, 0)])

def e_bus_v(p, k, vm, va):
    p["bus"][k, VM] = vm; p["bus"][k, VA] = va

def e_renum(p, how):
    ids = p["bus"][:, BUS_I].copy()
    n = len(ids)
    if how == "seq":
        new = np.arange(1., n + 1)
    elif how == "rev":
        new = np.arange(n, 0., -1)
    elif how == "zero":
        new = np.arange(0., n)
    else:
        new = np.array([997., 3., 41., 500., 12., 77., 8., 300., 61., 5.])[:n] if n <= 10 else 1000 - 7. * np.arange(n)
    m = dict(zip(ids, new))
    p["bus"][:, BUS_I] = new
    for key, cols in (("gen", [GEN_BUS]), ("branch", [F_BUS, T_BUS])):
        for c in cols:
            p[key][:, c] = [m.get(v, v) for v in p[key][:, c]]
    if "areas" in p and len(p["areas"]):
        p["areas"][:, 1] = [m.get(v, v) for v in p["areas"][:, 1]]

def e_gen_off(p, k):
    p["gen"][k, GEN_STATUS] = 0

def e_gen_neg(p, k):
    p["gen"][k, GEN_STATUS] = -1

def e_gen_dup(p, k):
    """second unit at the same bus with different limits and output"""
    r = p["gen"][k].copy(); r[PG] += 7.; r[QMAX] = 60.; r[QMIN] = -20.; r[PMAX] = 80.
    p["gen"] = np.vstack([p["gen"], r])
    if "gencost" in p:
        c = p["gencost"][k].copy(); c[5] += 2.
        p["gencost"] = np.vstack([p["gencost"], c])

def e_gen_move(p, k, b):
    nb = p["bus"][b, BUS_I]
    if p["gen"][k, GEN_BUS] == nb:
        return False
    p["gen"][k, GEN_BUS] = nb

def e_gen_last(p, k):
    """rotate rows"""
    o = [i for i in range(len(p["gen"])) if i != k] + [k]
    p["gen"] = p["gen"][o]
    if "gencost" in p:
        p["gencost"] = p["gencost"][o]

def e_gen_p(p, k, pg):
    p["gen"][k, PG] = pg

def e_gen_vset(p, k, v):
    p["gen"][k, VG] = v

def e_gen_qinf(p, k, lo, hi):
    """unbounded reactive range ("lo"/"hi" == 1: that side is infinite)"""
    if lo:
        p["gen"][k, QMIN] = -np.inf
    if hi:
        p["gen"][k, QMAX] = np.inf
    return True


def e_gen_q(p, k, qmin, qmax):
    p["gen"][k, QMIN] = qmin; p["gen"][k, QMAX] = qmax

def e_disp(p, b):
    """dispatchable load (negative generator) at bus b"""
    p["gen"] = np.vstack([p["gen"], gen(p["bus"][b, BUS_I], -12., -4., 0., -5., 1., 1, 0., -15.)])
    if "gencost" in p:
        n = p["gencost"].shape[1]
        c = np.zeros((1, n)); c[0, :6] = [2, 0, 0, 2, 30., 0.]
        p["gencost"] = np.vstack([p["gencost"], c])

def e_base(p, m):
    p["baseMVA"] = float(m)

def e_line_new(p, f, t):
    a, b = p["bus"][f, BUS_I], p["bus"][t, BUS_I]
    p["branch"] = np.vstack([p["branch"], br(a, b, .04, .2, .01)])

EDITS = dict((n[2:], f) for n, f in list(globals().items()) if n.startswith("e_"))


def apply(p, edit):
    """apply one edit in place; False when it is not enabled / changes nothing"""
    name, args = edit[0], edit[1:]
    return EDITS[name](p, *args) is not False


def build_state(base, edits, bases=None):
    p = (bases or BASES)[base]()
    for e in edits:
        if not apply(p, e):
            return None
    return p


def explore(alphabet, depth, bases=("b2", "b3", "b4"), basemap=None, key=None):
    """-> (list of (base, [edits...]), n_transitions).  Exhaustive BFS to `depth`.
    alphabet: function base_case -> list of edits (tuples)."""
    out, ntrans = [], 0
    for b in bases:
        p0 = (basemap or BASES)[b]()
        alpha = alphabet(p0)
        seen = {canon(p0 if key is None else key(p0))}
        layer = [()]
        out.append((b, ()))
        for d in range(depth):
            nxt = []
            for hist in layer:
                for e in alpha:
                    p = build_state(b, hist, basemap)
                    try:
                        ok = apply(p, e)
                    except IndexError:
                        ok = False
                    if not ok:
                        continue
                    ntrans += 1
                    k = canon(p if key is None else key(p))
                    if k in seen:
                        continue
                    seen.add(k)
                    nxt.append(hist + (e,))
            out.extend((b, h) for h in nxt)
            layer = nxt
    return out, ntrans


def pf_alphabet(p, rich=True):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    A = []
    for k in range(nl):
        A += [("br_off", k), ("br_tap", k, .96), ("br_shift", k, 8.), ("br_rev", k), ("br_par", k)]
        if rich:
            A += [("br_tap", k, 1.05), ("br_shift", k, -15.), ("br_r0", k), ("br_b", k, .2), ("br_first", k)]
    for k in range(nb):
        A += [("bus_shunt", k, 3., -8.), ("bus_load", k, 15., -6.), ("bus_type", k, 4), ("bus_first", k)]
        A += [("bus_type", k, t) for t in (1, 2, 3)]
        if rich:
            A += [("bus_shunt", k, -2., 12.), ("bus_load", k, 0., 0.), ("bus_v", k, .97, 6.), ("disp", k)]
    for k in range(ng):
        A += [("gen_off", k), ("gen_dup", k), ("gen_last", k), ("gen_vset", k, 1.05)]
        A += [("gen_move", k, b) for b in range(nb)]
        if rich:
            A += [("gen_neg", k), ("gen_p", k, 25.), ("gen_q", k, -10., 10.)]
    A += [("renum", "seq"), ("renum", "rev"), ("renum", "zero"), ("renum", "odd")]
    if rich:
        A += [("base", 50.), ("base", 10.)]
    return A


def tolist(edits):
    return [list(e) for e in edits]
