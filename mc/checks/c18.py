"""C18: AC optimal power flow solutions are feasible, consistent and locally optimal."""
import math, itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.checks.c17 import COSTS, cost, slopes, islands, LOCAL as L17
from mc.space import apply as sp_apply
from mc import phys, api

PROP = "C18"
LEVEL = "model_checking"
RULE = ("states: every case within `depth` edits (cost models for P and Q, unit and voltage limits, capability curves, dispatchable loads, ratings, "
        "angle limits, transformers, statuses, islands, numbering, base, flow-limit type, algorithm) of three small networks; the AC OPF is run in each "
        "and a success judged by feasibility against independent physics and by first-order conditions in every voltage and dispatch direction with the "
        "reported prices; a grid of alternative dispatches, each solved by power flow, must not be cheaper. Non-trivial: converged solution")
ASSUMPTIONS = ["convex costs", "one reference bus per energised island", "failure is demanded when an island's or a bus's load exceeds what its units and ratings can supply by 1 MW or more; "
               "success is demanded of the default solver, with non-negative marginal costs, when a power flow over the dispatch grid finds a point strictly inside every limit",
               "grid alternatives: product grid of unit outputs and voltage set points in the two- and three-bus networks"]


def n2():
    return mk([bus(1, 3, 0., va=3., vmax=1.06, vmin=.94), bus(2, 2, 50., 20., vmax=1.06, vmin=.94)],
              [gen(1, 0., pmax=120., pmin=0., qmax=60., qmin=-60.), gen(2, 10., pmax=40., pmin=5., qmax=30., qmin=-10.)],
              [br(1, 2, .02, .1, .04, rate=80.), br(2, 1, .01, .2, rate=0.)],
              [[2, 0, 0, 3, .1, 5., 20.] + [0] * 5, [2, 0, 0, 3, .02, 18., 3.] + [0] * 5])


def n3():
    return mk([bus(20, 3, 20., 5., va=5.), bus(5, 2, 10.), bus(11, 1, 70., 25., 1., 4., vmin=.97)],
              [gen(20, 40., pmax=150., pmin=10., qmax=80., qmin=-40.), gen(5, 35., pmax=120., pmin=0., qmax=50., qmin=-30.)],
              [br(20, 5, .02, .12, .06, rate=60.), br(5, 11, .03, .15, .02, rate=45.), br(20, 11, .01, .10, 0., tap=.97, rate=90.)],
              [[2, 100, 0, 3, .10, 5., 20.] + [0] * 5, [1, 50, 0, 3, 0., 0., 40., 400., 150., 3700., 0, 0]])


def n4():
    p = mk([bus(7, 1, 30., 10., zone=2), bus(2, 2, area=2), bus(9, 3, 25., 5., va=-4.), bus(4, 1, 35., 12., area=2)],
           [gen(9, 10., pmax=200., pmin=0., qmax=50., qmin=-20.), gen(2, 45., pmax=90.), gen(4, -12., -4., 0., -5., 1., 1, 0., -15.), gen(9, 15., pmax=60., pmin=0.)],
           [br(7, 2, .02, .10, .04, rate=40.), br(2, 9, .015, .09, .03, rate=30.), br(9, 7, .01, .08, 0., tap=1.02, rate=0.), br(9, 4, .03, .14, .05, rate=30.),
            br(9, 4, .025, .12, .02, rate=100., shift=2.)],
           [[2, 0, 0, 3, .08, 6., 10.] + [0] * 5, [1, 0, 0, 4, 0., 10., 20., 210., 50., 660., 90., 1500.], [2, 0, 0, 2, 30., 0.] + [0] * 6, [2, 0, 0, 3, .05, 7., 4.] + [0] * 5])
    p["gen"][2, QG] = -12. * 5 / 15
    p["gen"][3, [PC1, PC2, QC1MIN, QC1MAX, QC2MIN, QC2MAX]] = [0., 60., -40., 40., -15., 10.]
    return p


NETS = {"n2": n2, "n3": n3, "n4": n4}
QC = {"q": [2, 0, 0, 3, .05, .1, 0.], "l": [2, 0, 0, 2, 1.5, 0.], "p3": [1, 0, 0, 3, -40., 80., 0., 0., 60., 150.], "p2": [1, 0, 0, 2, 0., 0., 50., 100.]}
CAP = {"a": [20., 90., -60., 30., -10., 12.], "b": [0., 60., -20., 25., -20., 5.], "c": [0., 100., -8., 60., 20., 60.]}


def e_qcosts(p, *names):
    n = len(p["gen"])
    rows = np.zeros((n, p["gencost"].shape[1]))
    for i in range(n):
        c = QC[names[i % len(names)]]; rows[i, :len(c)] = c
        if p["gen"][i, PMIN] < 0:
            rows[i] = 0; rows[i, :4] = [2, 0, 0, 2]
    p["gencost"] = np.vstack([p["gencost"][:n], rows])

def e_cap(p, k, c): p["gen"][k, [PC1, PC2, QC1MIN, QC1MAX, QC2MIN, QC2MAX]] = CAP[c]
def e_qlim(p, k, lo, hi): p["gen"][k, QMIN] = lo; p["gen"][k, QMAX] = hi
def e_vlim(p, k, lo, hi): p["bus"][k, VMIN] = lo; p["bus"][k, VMAX] = hi
def e_dl(p, b, pm, ql):
    p["gen"] = np.vstack([p["gen"], gen(p["bus"][b, BUS_I], pm, ql, max(ql, 0), min(ql, 0), 1., 1, 0., pm)])
    n = len(p["gencost"]); ng = len(p["gen"]) - 1
    c = np.zeros((1, p["gencost"].shape[1])); c[0, :6] = [2, 0, 0, 2, 16., 0.]
    g = p["gencost"]
    z = np.zeros((1, g.shape[1])); z[0, :4] = [2, 0, 0, 2]
    p["gencost"] = np.vstack([g[:ng], c] + ([g[ng:], z] if n > ng else []))

LOCAL = dict(L17)
LOCAL.update((n[2:], f) for n, f in list(globals().items()) if n.startswith("e_") and f.__module__ == __name__)


def do(p, e):
    if e[0] in LOCAL:
        return LOCAL[e[0]](p, *e[1:]) is not False
    return sp_apply(p, e)


def alphabet(p):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    A = []
    for k in range(ng):
        if p["gen"][k, PMIN] < 0:
            A += [("gen_off", k), ("cost", k, "l"), ("gen_move", k, 0)]
            continue
        A += [("cost", k, c) for c in ("l", "p2", "p3", "p4", "n")] + [("cap", k, c) for c in sorted(CAP)]
        A += [("plim", k, 30., 30.), ("plim", k, 0., 20.), ("gen_off", k), ("plim", k, 60., 90.), ("qlim", k, -5., 8.), ("qlim", k, 12., 40.), ("gen_move", k, nb - 1)]
    for k in range(nl):
        A += [("rate", k, v) for v in (0., 14., 1e10, 55.)] + [("ang", k, -2., 2.), ("ang", k, -360., .5), ("ang", k, .5, 360.)]
        A += [("br_off", k), ("br_shift", k, -6.), ("br_tap", k, .94), ("br_r0", k), ("br_par", k), ("br_rev", k)]
    for k in range(nb):
        A += [("bus_load", k, 0., 0.), ("bus_load", k, 95., 10.), ("bus_shunt", k, 4., -8.), ("iso", k), ("bus_type", k, 3), ("bus_first", k), ("vlim", k, 1.02, 1.05), ("vlim", k, .95, .98), ("dl", k, -20., -6.), ("dl", k, -10., 4.), ("dl", k, -10., 0.)]
    A += [("opt", "OPF_ALG", 560), ("opt", "OPF_ALG", 565), ("opt", "OPF_FLOW_LIM", 1), ("opt", "OPF_FLOW_LIM", 2), ("renum", "odd"), ("renum", "zero"), ("base", 10.)]
    A += [("qcosts", "q"), ("qcosts", "l", "p3"), ("qcosts", "p3", "q"), ("qcosts", "p2")]
    if ng > 1:
        A += [("swap", 0, 1)]
    return A


CORE = {"n2": [("opt", "OPF_FLOW_LIM", 1), ("opt", "OPF_FLOW_LIM", 2), ("rate", 0, 14.), ("qcosts", "p3", "q"), ("cap", 0, "a"), ("br_shift", 0, -6.), ("dl", 1, -20., -6.), ("cost", 0, "p3"), ("gen_off", 1), ("vlim", 1, .95, .98), ("base", 10.)],
        "n3": [("opt", "OPF_FLOW_LIM", 2), ("ang", 2, -360., .5), ("qcosts", "p3", "q"), ("cap", 1, "b"), ("br_tap", 1, .94), ("iso", 1), ("dl", 0, -10., 4.), ("rate", 2, 14.), ("bus_first", 2), ("vlim", 0, 1.02, 1.05), ("swap", 0, 1)],
        "n4": [("opt", "OPF_FLOW_LIM", 1), ("gen_off", 1), ("qcosts", "l", "p3"), ("iso", 3), ("renum", "odd")]}


def build(tier):
    items, seen, nt = [], set(), 0
    for net in sorted(NETS):
        A = alphabet(NETS[net]())
        if tier == "quick":
            C = CORE[net]
            pairs = [(a, b) for a in C for b in sorted(set(A[::3] + C), key=A.index) if b != a and (b not in C or A.index(a) < A.index(b))]
        else:
            pairs = [(a, b) for i, a in enumerate(A) for b in A[i + 1:]]
        seqs = [()] + [(a,) for a in A] + pairs
        if tier != "quick":
            seqs += list(itertools.combinations(CORE[net], 3))
            seqs += [(a, b, c) for a, b in itertools.combinations(CORE[net], 2) for c in A if c not in CORE[net]]
        for s in seqs:
            s = sorted(s, key=lambda e: e[0] in ("swap", "bus_first", "renum", "gen_move"))     # index-moving edits last
            p = NETS[net]()
            try:
                if not all(do(p, e) for e in s):
                    continue
            except IndexError:
                continue
            nt += 1
            k = canon(p)
            if k in seen:
                continue
            seen.add(k)
            items.append({"net": net, "seq": [list(e) for e in s]})
    return items, {"transitions": nt}


def lims(p, i):
    """list of linear limits (a, b, c): a P + b Q <= c of unit i besides its box"""
    g = p["gen"][i]
    out = []
    if g[PC1] != g[PC2]:
        for c1, c2, s in ((QC1MAX, QC2MAX, 1), (QC1MIN, QC2MIN, -1)):
            m = (g[c2] - g[c1]) / (g[PC2] - g[PC1])
            out.append((-s * m, s, s * (g[c1] - m * g[PC1])))
    return out


def isdl(g):
    return g[PMIN] < 0 and g[PMAX] == 0


def must_fail(p):
    on, lg, ll = phys.energised(p), phys.live_gens(p), phys.live_branches(p)
    for comp in islands(p):
        load = sum(b[PD] + max(b[GS], 0) * b[VMIN] ** 2 for b in p["bus"] if int(b[0]) in comp)
        cap = sum(p["gen"][i, PMAX] for i in lg if int(p["gen"][i, 0]) in comp)
        if cap < load - 1 and all(p["branch"][l, BR_R] >= 0 for l in ll):
            return "island load %g exceeds capacity %g" % (load, cap)
    for b in p["bus"]:
        k = int(b[0])
        if k not in on:
            continue
        inc = [l for l in ll if k in (int(p["branch"][l, 0]), int(p["branch"][l, 1]))]
        if all(0 < p["branch"][l, RATE_A] < 1e9 for l in inc):
            lim = sum(p["branch"][l, RATE_A] for l in inc) * 1.12 + sum(p["gen"][i, PMAX] for i in lg if int(p["gen"][i, 0]) == k)
            if b[PD] > lim + 1:
                return "load %g at bus %d exceeds local units and ratings %g" % (b[PD], k, lim)
    return None


class Sol(object):
    """feasibility margins of a solved case (res) for the limits of p"""
    def __init__(s, p, res, flow):
        s.p, s.res, s.flow = p, res, flow
        s.on, s.lg, s.ll = sorted(phys.energised(p)), phys.live_gens(p), phys.live_branches(p)
        s.base = p["baseMVA"]
        s.V = {int(b[0]): b[VM] * np.exp(1j * math.radians(b[VA])) for b in res["bus"] if int(b[0]) in s.on}

    def flowval(s, l, V):
        """limited quantities at the two ends in MVA / MW / kA-equivalent MVA"""
        row = s.p["branch"][l]
        sf, st = phys.branch_flow(row, V, s.base)
        if s.flow == 1:
            return sf.real, st.real
        if s.flow == 2:
            return abs(sf) / abs(V[int(row[0])]), abs(st) / abs(V[int(row[1])])
        return abs(sf), abs(st)

    def violation(s):
        """largest violation (MW / MVAr / 100*p.u. / degrees); negative when strictly inside"""
        p, w = s.p, [(-1e9, "none")]
        for i in s.lg:
            g, q = s.res["gen"][i], p["gen"][i]
            w += [(g[PG] - q[PMAX], "Pmax %d" % i), (q[PMIN] - g[PG], "Pmin %d" % i), (g[QG] - q[QMAX], "Qmax %d" % i), (q[QMIN] - g[QG], "Qmin %d" % i)]
            w += [(a * g[PG] + b * g[QG] - c, "capability of unit %d" % i) for a, b, c in lims(p, i)]
            if isdl(q) and (q[QMIN] != 0 or q[QMAX] != 0):
                ql = q[QMIN] if q[QMAX] == 0 else q[QMAX]
                w.append((abs(g[QG] - ql / q[PMIN] * g[PG]), "power factor of unit %d" % i))
        for b in p["bus"]:
            if int(b[0]) in s.on:
                v = abs(s.V[int(b[0])])
                w += [(100 * (v - b[VMAX]), "Vmax bus %d" % b[0]), (100 * (b[VMIN] - v), "Vmin bus %d" % b[0])]
        for l in s.ll:
            r = p["branch"][l]
            if 0 < r[RATE_A] < 1e9:
                w.append((max(map(abs, s.flowval(l, s.V))) - r[RATE_A], "rating of branch %d" % l))
            d = math.degrees(np.angle(s.V[int(r[0])] / s.V[int(r[1])]))
            if r[ANGMIN] != 0 and r[ANGMIN] > -360:
                w.append((r[ANGMIN] - d, "angmin of branch %d" % l))
            if r[ANGMAX] != 0 and r[ANGMAX] < 360:
                w.append((d - r[ANGMAX], "angmax of branch %d" % l))
        return max(w)

    def cost(s):
        n = len(s.p["gen"])
        gc = s.p["gencost"]
        c = sum(cost(gc[i], s.res["gen"][i, PG]) for i in s.lg)
        if len(gc) == 2 * n:
            c += sum(cost(gc[n + i], s.res["gen"][i, QG]) for i in s.lg)
        return c


def grid(p, flow):
    """(cheapest, largest interior margin) over a product grid of dispatches solved by power flow"""
    lg = [i for i in phys.live_gens(p)]
    refs = [int(b[0]) for b in p["bus"] if b[BUS_TYPE] == 3]
    slack = [i for i in lg if int(p["gen"][i, 0]) == refs[0]]
    if not slack or len(p["bus"]) > 3 or len(refs) != 1 or len(lg) > 3 or any(isdl(p["gen"][i]) for i in slack):
        return None
    slack = slack[0]
    ax = []
    for i in lg:
        q = p["gen"][i]
        if i != slack:
            ax.append([("P", i, v) for v in sorted(set(np.linspace(q[PMIN], q[PMAX], 5)))])
    vb = sorted(set(int(p["gen"][i, 0]) for i in lg if not isdl(p["gen"][i])))
    for b in vb:
        row = [x for x in p["bus"] if int(x[0]) == b][0]
        ax.append([("V", b, v) for v in np.linspace(row[VMIN], row[VMAX], 4)])
    best, inner = (np.inf, None), (-np.inf, None)
    for pt in itertools.product(*ax):
        q = api.clone(p)
        for kind, i, v in pt:
            if kind == "P":
                q["gen"][i, PG] = v
                if isdl(q["gen"][i]):
                    ql = q["gen"][i, QMIN] if q["gen"][i, QMAX] == 0 else q["gen"][i, QMAX]
                    q["gen"][i, QG] = ql / q["gen"][i, PMIN] * v
            else:
                q["gen"][[j for j in lg if int(q["gen"][j, 0]) == i], VG] = v
        # dispatchable loads are fixed injections in a power flow: fold them into the demand
        for j in lg:
            if isdl(q["gen"][j]):
                k = [n for n, x in enumerate(q["bus"]) if x[0] == q["gen"][j, 0]][0]
                q["bus"][k, PD] -= q["gen"][j, PG]; q["bus"][k, QD] -= q["gen"][j, QG]; q["gen"][j, GEN_STATUS] = 0
        for x in q["bus"]:
            if x[BUS_TYPE] not in (3, 4):
                x[BUS_TYPE] = 2 if int(x[0]) in vb else 1
        res, ok = api.pf(q)
        if not ok:
            continue
        for kind, i, v in pt:
            if kind == "P" and isdl(p["gen"][i]):
                ql = p["gen"][i, QMIN] if p["gen"][i, QMAX] == 0 else p["gen"][i, QMAX]
                res["gen"][i, [PG, QG]] = v, ql / p["gen"][i, PMIN] * v
        s = Sol(p, res, flow)
        v, what = s.violation()
        if v <= 0:
            c = s.cost()
            if c < best[0]:
                best = (c, pt)
        if -v > inner[0]:
            inner = (-v, pt)
    return best, inner


def run(item):
    r = Result()
    p = NETS[item["net"]]()
    for e in item["seq"]:
        if not do(p, e):
            r.tag("not_enabled"); return r
    opt = p.pop("_opt", {})
    key = "%s:%s" % (item["net"], ";".join("_".join(map(str, e)) for e in item["seq"]))
    refs = set(int(b[0]) for b in p["bus"] if b[BUS_TYPE] == 3)
    if any(len(c & refs) != 1 for c in islands(p)):
        r.tag("reference_assumption"); return r
    if not phys.live_gens(p):
        r.tag("no_units")
        on = phys.energised(p)
        if not on:
            return r
        r.expect(not api.opf(p, **opt)["success"] or not any(int(b[0]) in on and (b[PD] or b[GS]) for b in p["bus"]), key + ":no_units", "success reported for a load without any unit")
        return r
    r.states.add(canon([p, sorted(opt.items())]))
    flow = opt.get("OPF_FLOW_LIM", 0)
    res = api.opf(p, **opt)
    r.evals += 1
    ok = bool(res["success"])
    mf = must_fail(p)
    if mf:
        r.expect(not ok, key + ":infeasible", "success reported although %s" % mf)
        r.tag("infeasible")
        return r
    g = grid(p, flow) if len(item["seq"]) <= 1 and item["net"] != "n4" else None
    if not ok:
        if g and g[1][0] > .5 and not opt and not any(e[0] == "cost" and e[2] == "n" for e in item["seq"]):
            r.bad(key + ":unsolved", "failure reported though the dispatch %s is strictly inside every limit" % (g[1][1],))
        r.tag("unsolved")
        return r
    r.tag("optimal"); r.validated += 1
    certify(p, res, flow, r, key)
    if g:
        r.tag("grid")
        r.expect(res["f"] <= g[0][0] + 1e-3 * (1 + abs(res["f"])), key + ":grid", "reported optimum %r, but dispatch %s costs %r and satisfies every limit" % (res["f"], g[0][1], g[0][0]))
    if r.sample is None:
        r.sample = {"item": item, "f": float(res["f"])}
    return r


def certify(p, res, flow, r, key, more=None, extra_cost=0., mup={}, inj={}, muq={}, slack=1.):
    """more: extra Lagrangian terms in the voltages; mup: price per MW of unit output; inj: complex MVA injected at buses; extra_cost: added to the objective"""
    E = r.expect
    s = Sol(p, res, flow)
    n = len(p["gen"])
    gc = p["gencost"]
    base = s.base
    xm = 1. + np.abs(res["x"]).max()                 # the solver's tolerances are relative to the largest variable
    tolS = 5e-3 + base * 1e-5 * xm
    tolC = 2e-2 * xm                                 # complementarity 1e-6, objective scaled by 1e-4
    rb = dict((int(b[0]), b) for b in res["bus"])
    lamP = dict((b, rb[b][LAM_P]) for b in s.on); lamQ = dict((b, rb[b][LAM_Q]) for b in s.on)
    sc = 1. + max(abs(x) for x in list(lamP.values()) + list(lamQ.values()))
    for b in p["bus"]:
        if b[BUS_TYPE] == 3:
            E(abs(rb[int(b[0])][VA] - b[VA]) < 1e-6, key + ":ref", "reference angle moved")
    v, what = s.violation()
    E(v < tolS, key + ":limits", "%s violated by %g" % (what, v))
    wd = phys.injections(p, s.V)
    net = dict((b, -complex(rb[b][PD], rb[b][QD]) + inj.get(b, 0.)) for b in s.on)
    for i in s.lg:
        net[int(p["gen"][i, 0])] += complex(res["gen"][i, PG], res["gen"][i, QG])
    for b in s.on:
        d = net[b] - wd[b]
        E(max(abs(d.real), abs(d.imag)) < tolS, key + ":balance", "bus %d out of balance by %s" % (b, d))
    for l in range(len(p["branch"])):
        q = res["branch"][l]
        if l in s.ll:
            sf, st = phys.branch_flow(p["branch"][l], s.V, base)
            E(np.allclose(q[[PF, QF, PT, QT]], [sf.real, sf.imag, st.real, st.imag], rtol=1e-7, atol=1e-6), key + ":flow", "branch %d reports %s, voltages give %s %s" % (l, q[[PF, QF, PT, QT]], sf, st))
        elif p["branch"][l, BR_STATUS] == 0:
            E((q[[PF, QF, PT, QT, MU_SF, MU_ST]] == 0).all(), key + ":off_br", "off branch %d reports %s" % (l, q[[PF, QF, PT, QT, MU_SF, MU_ST]]))
    for i in range(n):
        if i not in s.lg:
            E(res["gen"][i, PG] == 0 and res["gen"][i, QG] == 0, key + ":off_gen", "dead unit %d reports %s" % (i, res["gen"][i, [PG, QG]]))
        else:
            E(abs(res["gen"][i, VG] - abs(s.V[int(p["gen"][i, 0])])) < 1e-9, key + ":vg", "unit %d reports set point %g at bus voltage %g" % (i, res["gen"][i, VG], abs(s.V[int(p["gen"][i, 0])])))
    c = s.cost() + extra_cost
    E(abs(res["f"] - c) < 1e-5 * (1 + abs(c)) + 1e-3, key + ":cost", "objective %r, dispatch costs %r" % (res["f"], c))
    E(np.array_equal(res["bus"][:, :7], p["bus"][:, :7]) and np.array_equal(res["bus"][:, 9:13], p["bus"][:, 9:13]) and np.array_equal(res["branch"][:, :13], p["branch"][:, :13]) and np.array_equal(res["gencost"], p["gencost"]),
      key + ":inputs", "input columns changed")
    # stationarity in P and Q of every unit
    for i in s.lg:
        g, q = res["gen"][i], p["gen"][i]
        b = int(q[0])
        mu = g[[MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]]
        E((mu > -1e-3 * sc).all(), key + ":sign_gen", "unit %d multipliers %s" % (i, mu))
        pr = slopes(gc[i], g[PG], 2e-2)
        qr = slopes(gc[n + i], g[QG], 2e-2) if len(gc) == 2 * n else (0., 0.)
        vp = lamP[b] - mu[0] + mu[1] - mup.get(i, 0.); vq = lamQ[b] - mu[2] + mu[3] - muq.get(i, 0.)
        t = 5e-3 * sc
        if isdl(q) and (q[QMIN] != 0 or q[QMAX] != 0):
            ql = q[QMIN] if q[QMAX] == 0 else q[QMAX]
            k = ql / q[PMIN]
            vals = [pr[x] + k * qr[y] for x in (0, 1) for y in (0, 1)]
            E(min(vals) - t <= vp + k * vq <= max(vals) + t, key + ":stat_load", "load %d: price %g %g, multipliers %s, marginal cost %s" % (i, lamP[b], lamQ[b], mu, (pr, qr)))
        else:
            E(pr[0] - t <= vp <= pr[1] + t, key + ":stat_P", "unit %d at %g: price %g multipliers %s marginal cost %s" % (i, g[PG], lamP[b], mu, pr))
            E(qr[0] - t <= vq <= qr[1] + t, key + ":stat_Q", "unit %d at %g MVAr: price %g multipliers %s marginal cost %s" % (i, g[QG], lamQ[b], mu, qr))
            cap = lims(p, i)
            room = [q[PMAX] - g[PG], g[PG] - q[PMIN], q[QMAX] - g[QG], g[QG] - q[QMIN]]
            sl = min([abs(cc - a * g[PG] - bb * g[QG]) for a, bb, cc in cap] + [1e9])      # capability multipliers are folded into the unit's
            if q[PMIN] != q[PMAX]:
                E(all(m * min(x, sl) < .05 * sc + tolC for m, x in zip(mu, room)), key + ":comp_gen", "unit %d room %s multipliers %s" % (i, room, mu))
    # limits of voltages and branches
    for b in s.on:
        vm = abs(s.V[b]); row = rb[b]
        E(row[MU_VMAX] > -1e-2 * sc and row[MU_VMIN] > -1e-2 * sc, key + ":sign_v", "bus %d voltage multipliers %s" % (b, row[[MU_VMAX, MU_VMIN]]))
        E(row[MU_VMAX] * (row[VMAX] - vm) < .05 * sc + tolC and row[MU_VMIN] * (vm - row[VMIN]) < .05 * sc + tolC, key + ":comp_v", "bus %d at %g multipliers %s" % (b, vm, row[[MU_VMAX, MU_VMIN]]))
    for l in s.ll:
        q, br_ = res["branch"][l], p["branch"][l]
        m = q[[MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]]
        E((m > -1e-3 * sc).all(), key + ":sign_br", "branch %d multipliers %s" % (l, m))
        lim = 0 < br_[RATE_A] < 1e9
        if lim:
            f = s.flowval(l, s.V)
            E(m[0] * (br_[RATE_A] - abs(f[0])) < .05 * sc + tolC and m[1] * (br_[RATE_A] - abs(f[1])) < .05 * sc + tolC, key + ":comp_br", "branch %d flow %s of %g multipliers %s" % (l, f, br_[RATE_A], m))
        else:
            E(m[0] == 0 and m[1] == 0, key + ":unlimited", "unlimited branch %d has multipliers %s" % (l, m))
        d = math.degrees(np.angle(s.V[int(br_[0])] / s.V[int(br_[1])]))
        for mm, lm, rm in ((m[2], br_[ANGMIN] != 0 and br_[ANGMIN] > -360, d - br_[ANGMIN]), (m[3], br_[ANGMAX] != 0 and br_[ANGMAX] < 360, br_[ANGMAX] - d)):
            E((mm * rm < .05 * sc + tolC) if lm else mm == 0, key + ":comp_ang", "branch %d angle %g multiplier %g" % (l, d, mm))

    # stationarity in voltages: numerical gradient of the price-weighted withdrawals and limited flows
    def phi(V):
        x = phys.injections(p, V)
        t = sum(lamP[b] * x[b].real + lamQ[b] * x[b].imag for b in s.on)
        for l in s.ll:
            q = res["branch"][l]
            if q[MU_SF] or q[MU_ST]:
                f = s.flowval(l, V)
                f0 = s.flowval(l, s.V)
                t += q[MU_SF] * f[0] * (np.sign(f0[0]) or 1) + q[MU_ST] * f[1] * (np.sign(f0[1]) or 1)
        if more:
            t += more(V)
        return t
    curv = base * sum(1 / abs(complex(p["branch"][l, BR_R], p["branch"][l, BR_X])) for l in s.ll) + base
    for b in s.on:
        for kind in "am":
            if kind == "a" and rb[b][BUS_TYPE] == 3:
                continue
            h = 1e-5
            out = []
            for sg in (1, -1):
                V = dict(s.V)
                V[b] = V[b] * np.exp(1j * sg * h) if kind == "a" else V[b] * (1 + sg * h / abs(V[b]))
                out.append(phi(V))
            gd = (out[0] - out[1]) / (2 * h)
            if kind == "a":
                for l in s.ll:
                    k = (int(p["branch"][l, 0]) == b) - (int(p["branch"][l, 1]) == b)
                    gd += k * (res["branch"][l, MU_ANGMAX] - res["branch"][l, MU_ANGMIN]) * 180 / math.pi
            else:
                gd += rb[b][MU_VMAX] - rb[b][MU_VMIN]
            E(abs(gd) < slack * 2e-4 * sc * curv, key + ":stat_V" + kind, "bus %d: Lagrangian gradient %g in its voltage %s (scale %g)" % (b, gd, "angle" if kind == "a" else "magnitude", sc * curv))
