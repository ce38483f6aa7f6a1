"""C17: DC optimal power flow is truly optimal and its prices support it."""
import math
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.space import apply as sp_apply
from mc import phys, api

PROP = "C17"
LEVEL = "model_checking"
RULE = ("states: every case within `depth` edits (unit cost models and limits, loads, ratings, angle limits, shifts, taps, statuses, islands, "
        "dispatchable loads, numbering, system base, solver choice) of three small networks; the DC OPF is run in each. A success is judged by a "
        "complete optimality certificate (primal feasibility, true cost, stationarity in every dispatch and angle direction with the reported prices, "
        "signs, complementarity), a failure by an LP that computes how robustly (in)feasible the case is. Non-trivial: at least one dispatch exists")
ASSUMPTIONS = ["convex costs of at most quadratic order", "one reference bus per energised island",
               "solvability is demanded when a strictly feasible dispatch exists apart from units with equal limits (margin 1e-3 p.u.) and the default solver is used (step control is a heuristic); failure is demanded when no dispatch comes within 1e-3 p.u."]
BIG = 1e9


def n2():
    return mk([bus(1, 3, 0., va=3.), bus(2, 1, 50., 20.)],
              [gen(1, 0., pmax=120., pmin=0.), gen(2, 10., pmax=40., pmin=5.)],
              [br(1, 2, .02, .1, rate=80.), br(2, 1, .01, .2, rate=0.)],
              [[2, 0, 0, 3, .1, 5., 20.] + [0] * 5, [2, 0, 0, 3, .02, 18., 3.] + [0] * 5])


def n3():
    return mk([bus(20, 3, 20., va=5.), bus(5, 2, 10.), bus(11, 1, 70., 25., 1., 4.)],
              [gen(20, 40., pmax=150., pmin=10.), gen(5, 35., pmax=120., pmin=0.)],
              [br(20, 5, .02, .12, .06, rate=60.), br(5, 11, .03, .15, .02, rate=45.), br(20, 11, .01, .10, 0., tap=.97, rate=90.)],
              [[2, 100, 0, 3, .10, 5., 20.] + [0] * 5, [1, 50, 0, 3, 0., 0., 40., 400., 150., 3700., 0, 0]])


def n4():
    return mk([bus(7, 1, 30., 10., zone=2), bus(2, 2, area=2), bus(9, 3, 25., 5., va=-4.), bus(4, 1, 35., 12., area=2)],
              [gen(9, 10., pmax=200., pmin=0.), gen(2, 45., pmax=90.), gen(9, 15., pmax=60., pmin=0.), gen(4, -12., -4., 0., -5., 1., 1, 0., -15.)],
              [br(7, 2, .02, .10, .04, rate=40.), br(2, 9, .015, .09, .03, rate=30.), br(9, 7, .01, .08, 0., tap=1.02, rate=0.), br(9, 4, .03, .14, .05, rate=25.),
               br(9, 4, .025, .12, .02, rate=100., shift=2.)],
              [[2, 0, 0, 3, .08, 6., 10.] + [0] * 5, [1, 0, 0, 4, 0., 10., 20., 210., 50., 660., 90., 1500.], [2, 0, 0, 2, 9., 4.] + [0] * 6, [2, 0, 0, 2, 30., 0.] + [0] * 6])


NETS = {"n2": n2, "n3": n3, "n4": n4}
COSTS = {"q": [2, 0, 0, 3, .05, 8., 2.], "l": [2, 0, 0, 2, 14., 5.], "c": [2, 0, 0, 1, 7.], "z": [2, 0, 0, 3, 0., 11., 1.], "p2": [1, 0, 0, 2, 0., 10., 100., 1300.],
         "p3": [1, 0, 0, 3, -20., -100., 30., 250., 200., 3000.], "p4": [1, 0, 0, 4, 0., 0., 10., 20., 40., 500., 60., 900.], "n": [2, 0, 0, 2, -6., 0.]}


def e_cost(p, k, c):
    row = COSTS[c]
    p["gencost"][k] = row + [0] * (p["gencost"].shape[1] - len(row))

def e_rate(p, k, v): p["branch"][k, RATE_A] = v
def e_ang(p, k, lo, hi): p["branch"][k, ANGMIN] = lo; p["branch"][k, ANGMAX] = hi
def e_plim(p, k, lo, hi): p["gen"][k, PMIN] = lo; p["gen"][k, PMAX] = hi
def e_iso(p, k): p["bus"][k, BUS_TYPE] = 4
def e_opt(p, name, v): p.setdefault("_opt", {})[name] = v
def e_swap(p, a, b):
    p["gen"][[a, b]] = p["gen"][[b, a]]; p["gencost"][[a, b]] = p["gencost"][[b, a]]
def e_qcost(p):
    p["gencost"] = np.vstack([p["gencost"], p["gencost"] * 0 + np.r_[2, 0, 0, 2, 5., np.zeros(p["gencost"].shape[1] - 5)]])
def e_second_ref(p, k): p["bus"][k, BUS_TYPE] = 3

LOCAL = dict((n[2:], f) for n, f in list(globals().items()) if n.startswith("e_") and f.__module__ == __name__)


def do(p, e):
    if e[0] in LOCAL:
        return LOCAL[e[0]](p, *e[1:]) is not False
    return sp_apply(p, e)


def alphabet(p, deep=False):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    A = []
    for k in range(ng):
        A += [("cost", k, c) for c in sorted(COSTS)]
        A += [("plim", k, 30., 30.), ("plim", k, 0., 20.), ("plim", k, -40., 0.), ("gen_off", k), ("plim", k, 60., 90.), ("gen_move", k, 0), ("gen_move", k, nb - 1)]
    for k in range(nl):
        A += [("rate", k, v) for v in (0., 12., 1e10, 55.)] + [("ang", k, -2., 2.), ("ang", k, 0., 1.), ("ang", k, -1., 0.), ("ang", k, -360., .5), ("ang", k, 0., 0.)]
        A += [("br_off", k), ("br_shift", k, -6.), ("br_tap", k, .9), ("br_rev", k), ("br_par", k)]
    for k in range(nb):
        A += [("bus_load", k, 0., 0.), ("bus_load", k, 95., 10.), ("bus_load", k, -15., 0.), ("bus_shunt", k, 4., 0.), ("iso", k), ("bus_type", k, 3), ("bus_first", k)]
    A += [("opt", "OPF_ALG_DC", 200), ("opt", "OPF_ALG_DC", 250), ("renum", "odd"), ("renum", "zero"), ("base", 10.), ("qcost",)]
    if ng > 1:
        A += [("swap", 0, 1)]
    return A


def build(tier):
    items, seen, nt = [], set(), 0
    for net in sorted(NETS):
        A = alphabet(NETS[net]())
        seqs = [()] + [(a,) for a in A]
        pairs = [(a, b) for i, a in enumerate(A) for b in A[i + 1:]]
        if tier == "quick" and net == "n4":
            # every pair that touches the same element kind in two rows is covered by n2/n3; keep pairs with one of the n4-only features
            core = {("br_off", 3), ("rate", 3, 12.), ("gen_off", 1), ("cost", 2, "p4"), ("cost", 3, "p3"), ("iso", 3), ("ang", 1, -1., 0.), ("renum", "odd"), ("bus_first", 2), ("swap", 0, 1), ("plim", 0, 30., 30.), ("opt", "OPF_ALG_DC", 250)}
            pairs = [q for q in pairs if core & set(q)]
        seqs += pairs
        if tier != "quick":
            C = [a for a in A if a[0] in ("cost", "rate", "ang", "br_off", "gen_off", "iso", "plim", "bus_load", "qcost")]
            if net != "n2":
                C = [a for a in C if a[-1] in ("p3", "l", "c", 12., 0.) or a[0] in ("br_off", "gen_off", "iso", "qcost", "plim") and a[1:] and a[1] == 0 or a[:2] == ("ang", 1)]
            seqs += [(a, b, c) for i, a in enumerate(C) for j, b in enumerate(C[i + 1:], i + 1) for c in C[j + 1:]]
        for s in seqs:
            if tier != "quick" and len(s) == 3:
                items.append({"net": net, "seq": [list(e) for e in s]}); nt += 1
                continue
            p = NETS[net]()
            if not all(do(p, e) for e in s):
                continue
            nt += 1
            k = canon(p)
            if k in seen:
                continue
            seen.add(k)
            items.append({"net": net, "seq": [list(e) for e in s]})
    return items, {"transitions": nt}


def islands(p):
    on = phys.energised(p)
    adj = dict((b, set()) for b in on)
    for i in phys.live_branches(p):
        f, t = int(p["branch"][i, 0]), int(p["branch"][i, 1])
        adj[f].add(t); adj[t].add(f)
    out, left = [], set(on)
    while left:
        st, comp = [min(left)], set()
        while st:
            b = st.pop()
            if b in comp:
                continue
            comp.add(b); st += list(adj[b])
        out.append(comp); left -= comp
    return out


def cost(row, pg):
    if row[0] == 2:
        c = row[4:4 + int(row[3])]
        return float(np.polyval(c, pg))
    n = int(row[3])
    x, y = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
    return max(y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * (pg - x[i]) for i in range(n - 1))


def slopes(row, pg, d):
    """interval of marginal costs within +-d of pg"""
    if row[0] == 2:
        c = np.polyder(np.poly1d(row[4:4 + int(row[3])]))
        return min(c(pg - d), c(pg + d)), max(c(pg - d), c(pg + d))
    n = int(row[3])
    x, y = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
    m = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)]
    lo = max([0] + [i for i in range(1, n - 1) if x[i] <= pg - d])
    hi = max([0] + [i for i in range(1, n - 1) if x[i] <= pg + d])
    return m[lo], m[hi]


class Net(object):
    """reference DC network in MW / radians"""
    def __init__(s, p):
        s.p = p
        s.on = sorted(phys.energised(p)); s.lg = phys.live_gens(p); s.ll = phys.live_branches(p)
        s.base = p["baseMVA"]
        s.bi = dict((b, i) for i, b in enumerate(s.on))
        s.row = dict((int(r[0]), r) for r in p["bus"])
        s.refs = [b for b in s.on if s.row[b][BUS_TYPE] == 3]

    def b(s, l):
        r = s.p["branch"][l]
        return s.base / (r[BR_X] * (r[TAP] if r[TAP] != 0 else 1.))

    def margin(s, nx=0, aug=None):
        """largest t such that every rating, angle limit and unit range holds with t p.u. (rad) to spare and the network
        equations hold exactly; None when even with negative t impossible.
        nx extra variables (columns before the last), aug(nb, n, bal, rhs) -> extra equality and inequality rows over all columns"""
        from scipy.optimize import linprog
        nb, ng = len(s.on), len(s.lg)
        n = nb + ng + nx + 1
        Ae, be, Ai, bi = [], [], [], []
        bal = np.zeros((nb, n)); rhs = np.zeros(nb)
        for k, i in enumerate(s.lg):
            bal[s.bi[int(s.p["gen"][i, 0])], nb + k] = 1.
        for b in s.on:
            rhs[s.bi[b]] = (s.row[b][PD] + s.row[b][GS]) / s.base
        for l in s.ll:
            r = s.p["branch"][l]; f, t = s.bi[int(r[0])], s.bi[int(r[1])]
            b = s.b(l) / s.base; ph = math.radians(r[SHIFT])
            bal[f, f] -= b; bal[f, t] += b; rhs[f] += -b * ph
            bal[t, f] += b; bal[t, t] -= b; rhs[t] -= -b * ph
            row = np.zeros(n); row[f], row[t] = b, -b
            if 0 < r[RATE_A] < BIG:
                for sg in (1, -1):
                    q = sg * row; q[-1] = 1.
                    Ai.append(q); bi.append(r[RATE_A] / s.base + sg * b * ph)
            dr = np.zeros(n); dr[f], dr[t] = 1, -1
            lo, hi = (-360. if r[ANGMIN] == 0 else r[ANGMIN]), (360. if r[ANGMAX] == 0 else r[ANGMAX])    # zero means no limit
            if hi < 360:
                q = dr.copy(); q[-1] = 1.; Ai.append(q); bi.append(math.radians(hi))
            if lo > -360:
                q = -dr; q[-1] = 1.; Ai.append(q); bi.append(-math.radians(lo))
        for k, i in enumerate(s.lg):
            g = s.p["gen"][i]
            q = np.zeros(n); q[nb + k] = 1.
            if g[PMIN] == g[PMAX]:
                Ae.append(q); be.append(g[PMAX] / s.base)
            else:
                for sg, v in ((1, g[PMAX]), (-1, g[PMIN])):
                    z = sg * q; z[-1] = 1.; Ai.append(z); bi.append(sg * v / s.base)
        for rb in s.refs:
            q = np.zeros(n); q[s.bi[rb]] = 1.; Ae.append(q); be.append(math.radians(s.row[rb][VA]))
        if aug:
            a, b, c, d = aug(nb, n, bal, rhs)
            Ae += a; be += b; Ai += c; bi += d
        Ae = np.vstack([bal] + [np.array(Ae).reshape(-1, n)]); be = np.r_[rhs, be]
        c = np.zeros(n); c[-1] = -1.
        res = linprog(c, np.array(Ai).reshape(-1, n), bi, Ae, be, [(None, None)] * (n - 1) + [(None, 1.)], method="highs")
        indep = np.linalg.matrix_rank(Ae[:, :-1]) == len(Ae)
        return (res.x[-1] if res.status == 0 else None), indep


def run(item):
    r = Result()
    p = NETS[item["net"]]()
    for e in item["seq"]:
        if not do(p, e):
            r.tag("not_enabled"); return r
    opt = p.pop("_opt", {})
    key = "%s:%s" % (item["net"], ";".join("_".join(map(str, e)) for e in item["seq"]))
    N = Net(p)
    isl = islands(p)
    nref = [sum(1 for b in c if b in N.refs) for c in isl]
    if any(n != 1 for n in nref):
        r.tag("reference_assumption"); return r
    if not N.lg:
        r.tag("no_units")
        on = phys.energised(p)
        if not on:
            return r
        r.expect(not api.dcopf(p, **opt)["success"] or not any(int(b[0]) in on and (b[PD] or b[GS]) for b in p["bus"]), key + ":no_units", "success reported for a load without any unit")
        return r
    r.states.add(canon(p))
    m, indep = N.margin()
    r.evals += 1
    res = api.dcopf(p, **opt)
    ok = bool(res["success"])
    if m is None or m < -1e-3:
        r.expect(not ok, key + ":infeasible", "success reported though no dispatch satisfies the limits (best margin %s)" % m)
        r.tag("infeasible")
        return r
    if not ok:
        r.expect(not (m > 1e-3 and indep and opt.get("OPF_ALG_DC") != 250), key + ":unsolved", "failure reported though a dispatch with margin %.4g p.u. exists" % m)
        r.tag("unsolved" if m > 1e-3 else "marginal")
        return r
    r.tag("optimal"); r.validated += 1
    certify(N, res, r, key)
    if r.sample is None:
        r.sample = {"item": item, "f": float(res["f"]), "margin": m}
    return r


def certify(N, res, r, key, lam_extra=None, extra_cost=0., mup={}, inj={}, angx={}):
    """lam_extra: price per MW of branch flow; mup: price per MW of unit output; angx: price per rad of bus angle; inj: MW injected at buses; extra_cost: added to the objective"""
    p = N.p
    E = r.expect
    T = 2e-3 * max(1., N.base / 100)      # MW
    va = dict((int(b[0]), math.radians(b[VA])) for b in res["bus"])
    lam = dict((int(b[0]), b[LAM_P]) for b in res["bus"])
    for rb in N.refs:
        E(abs(va[rb] - math.radians(N.row[rb][VA])) < 1e-6, key + ":ref", "reference angle moved to %g" % math.degrees(va[rb]))
    net = dict((b, -N.row[b][PD] - N.row[b][GS] + inj.get(b, 0.)) for b in N.on)
    dth = dict((b, angx.get(b, 0.)) for b in N.on)
    total = 0.
    scale = 1. + max([abs(lam[b]) for b in N.on])
    for i in range(len(p["gen"])):
        g = res["gen"][i]
        if i not in N.lg:
            E(g[GEN_STATUS] > 0 and p["gen"][i, GEN_STATUS] > 0 or (g[PG] == 0 and g[MU_PMAX] == 0 and g[MU_PMIN] == 0), key + ":off_gen", "off unit %d reports %s" % (i, g[[PG, MU_PMAX, MU_PMIN]]))
            E(g[PG] == 0, key + ":off_gen", "dead unit %d reports %g MW" % (i, g[PG]))
            continue
        q = p["gen"][i]
        E(q[PMIN] - T <= g[PG] <= q[PMAX] + T, key + ":plim", "unit %d at %g outside [%g, %g]" % (i, g[PG], q[PMIN], q[PMAX]))
        net[int(q[0])] += g[PG]
        total += cost(p["gencost"][i], g[PG])
        mx, mn = g[MU_PMAX], g[MU_PMIN]
        E(mx > -1e-4 * scale and mn > -1e-4 * scale, key + ":sign_gen", "unit %d limit multipliers %g %g" % (i, mx, mn))
        if q[PMIN] != q[PMAX]:
            E(mx * (q[PMAX] - g[PG]) < 2e-2 * scale and mn * (g[PG] - q[PMIN]) < 2e-2 * scale, key + ":comp_gen", "unit %d at %g: multipliers %g %g" % (i, g[PG], mx, mn))
        lo, hi = slopes(p["gencost"][i], g[PG], 2e-2)
        v = lam[int(q[0])] - mx + mn - mup.get(i, 0.)
        E(lo - 1e-3 * scale <= v <= hi + 1e-3 * scale, key + ":stat_gen", "unit %d at %g: price %g, limit multipliers %g %g, marginal cost in [%g, %g]" % (i, g[PG], lam[int(q[0])], mx, mn, lo, hi))
    for l in range(len(p["branch"])):
        b = res["branch"][l]
        if l not in N.ll:
            E((b[[PF, PT, QF, QT, MU_SF, MU_ST]] == 0).all() or p["branch"][l, BR_STATUS] != 0, key + ":off_br", "off branch %d reports %s" % (l, b[[PF, PT, QF, QT, MU_SF, MU_ST]]))
            continue
        q = p["branch"][l]
        f, t = int(q[0]), int(q[1])
        fl = N.b(l) * (va[f] - va[t] - math.radians(q[SHIFT]))
        E(abs(b[PF] - fl) < 1e-6 * (1 + abs(fl)) and abs(b[PT] + fl) < 1e-6 * (1 + abs(fl)) and b[QF] == 0 and b[QT] == 0, key + ":flow", "branch %d reports %s, its angles give %g" % (l, b[[PF, QF, PT, QT]], fl))
        net[f] -= fl; net[t] += fl
        ms, mt, ma, mi = b[MU_SF], b[MU_ST], b[MU_ANGMAX], b[MU_ANGMIN]
        E(min(ms, mt, ma, mi) > -1e-4 * scale, key + ":sign_br", "branch %d multipliers %s" % (l, (ms, mt, ma, mi)))
        rate = q[RATE_A]
        if 0 < rate < BIG:
            E(abs(fl) <= rate + T, key + ":rate", "branch %d carries %g, rating %g" % (l, fl, rate))
            E(ms * (rate - fl) < 2e-2 * scale and mt * (rate + fl) < 2e-2 * scale, key + ":comp_br", "branch %d carries %g of %g, multipliers %g %g" % (l, fl, rate, ms, mt))
        else:
            E(ms == 0 and mt == 0, key + ":unlimited", "unlimited branch %d has multipliers %g %g" % (l, ms, mt))
        lo, hi = (-360. if q[ANGMIN] == 0 else q[ANGMIN]), (360. if q[ANGMAX] == 0 else q[ANGMAX])
        d = math.degrees(va[f] - va[t])
        Td = 1e-3
        E((lo <= -360 or d >= lo - Td) and (hi >= 360 or d <= hi + Td), key + ":ang", "branch %d angle difference %g outside [%g, %g]" % (l, d, lo, hi))
        E((lo > -360 or mi == 0) and (hi < 360 or ma == 0), key + ":ang_mu", "branch %d unlimited angle has multipliers %g %g" % (l, mi, ma))
        E((lo <= -360 or mi * (d - lo) < 2e-2 * scale) and (hi >= 360 or ma * (hi - d) < 2e-2 * scale), key + ":comp_ang", "branch %d angle %g in [%g,%g], multipliers %g %g" % (l, d, lo, hi, mi, ma))
        s = N.b(l) * (lam[f] - lam[t] + ms - mt) + (ma - mi) * 180 / math.pi
        if lam_extra:
            s += N.b(l) * lam_extra.get(l, 0.)
        dth[f] += s; dth[t] -= s
    for b in N.on:
        E(abs(net[b]) < T, key + ":balance", "bus %d out of balance by %g MW" % (b, net[b]))
        if b not in N.refs:
            w = sum(N.b(l) for l in N.ll if b in (int(p["branch"][l, 0]), int(p["branch"][l, 1])))
            E(abs(dth[b]) < 1e-3 * scale * max(w, 1.), key + ":stat_ang", "prices not supported: angle of bus %d has reduced cost %g $/rad" % (b, dth[b]))
    E(abs(res["f"] - total - extra_cost) < 1e-5 * (1 + abs(total)) + 1e-4, key + ":cost", "reported cost %r, dispatch costs %r" % (res["f"], total + extra_cost))
    E(np.array_equal(res["bus"][:, :VM], p["bus"][:, :VM]) and np.array_equal(res["branch"][:, :13], p["branch"][:, :13]) and np.array_equal(res["gencost"], p["gencost"]), key + ":inputs", "input columns changed")
