"""C25: DC transmission lines transfer, lose and limit power as specified."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.space import apply as sp_apply
from mc.checks import c17, c18, c01
from mc.checks.c17 import Net, islands, slopes, cost
from mc import phys, api

PROP = "C25"
LEVEL = "model_checking"
RULE = ("states: every assignment of one or two DC lines (terminals x power limits x losses x cost x status x reactive limits) reachable by at most `depth` edits, "
        "together with case edits (outages, islands, orders, numbering, base, costs), in two small networks; in each the power flow and DC power flow are "
        "compared with the circuit laws / the hand-built equivalent case, and the AC and DC OPF judged by a complete optimality certificate including the "
        "lines' limits, losses, costs and multipliers. Non-trivial: a line is in service")
ASSUMPTIONS = ["non-negative limits apply to the flow at the from end, negative ones to the flow at the to end (documented reformulation)",
               "the reference bus has an in-service unit of its own (otherwise the line itself would be the slack)",
               "a minimum flow of exactly zero may be enforced as 1e-6 MW"]
F, T, ST, LPF, LPT, LQF, LQT, LVF, LVT, LPMIN, LPMAX, QMINF, QMAXF, QMINT, QMAXT, L0, L1 = range(17)
MU = range(17, 23)      # PMIN PMAX QMINF QMAXF QMINT QMAXT


def line(f, t, pf=10., pmin=-20., pmax=20., l0=.5, l1=.04, st=1, vf=1., vt=1., q=(-15., 15., -10., 10.)):
    return [f, t, st, pf, 0., 1., -2., vf, vt, pmin, pmax] + list(q) + [l0, l1]


def n3d():
    p = c18.n3()
    p["dcline"] = np.array([line(5, 11, 12., 1., 30., vf=1.01)])
    p["dclinecost"] = np.array([[2, 0, 0, 2, 1.5, 0.] + [0] * 6])
    return p


def n4d():
    p = c18.n4()
    p["gen"][2, 11:16] = 0
    p["dcline"] = np.array([line(7, 9, -6., -30., 20.), line(2, 4, 8., 2., 12., l0=0., l1=.1)])
    return p


NETS = {"n3d": n3d, "n4d": n4d}
DCC = {"l": [2, 0, 0, 2, 4., 1.], "q": [2, 0, 0, 3, .05, -1., 2.], "p": [1, 0, 0, 3, -40., 60., 0., 0., 40., 120.], "c": [2, 0, 0, 4, 1e-4, .01, 2., 3.], "z": [2, 0, 0, 2, 0., 0.]}


def e_lims(p, k, lo, hi): p["dcline"][k, [LPMIN, LPMAX]] = lo, hi
def e_loss(p, k, a, b): p["dcline"][k, [L0, L1]] = a, b
def e_lcost(p, k, c):
    if "dclinecost" not in p:
        z = np.zeros((len(p["dcline"]), 12)); z[:, [0, 3]] = 2; p["dclinecost"] = z
    p["dclinecost"][k] = 0; p["dclinecost"][k, :len(DCC[c])] = DCC[c]
def e_nocost(p): p.pop("dclinecost", None)
def e_loff(p, k): p["dcline"][k, ST] = 0
def e_lrev(p, k): p["dcline"][k, [F, T]] = p["dcline"][k, [T, F]]
def e_lmove(p, k, f, t): p["dcline"][k, [F, T]] = p["bus"][f, 0], p["bus"][t, 0]
def e_lq(p, k, a, b, c, d): p["dcline"][k, [QMINF, QMAXF, QMINT, QMAXT]] = a, b, c, d
def e_lpf(p, k, v): p["dcline"][k, LPF] = v
def e_lvolt(p, k, a, b): p["dcline"][k, [LVF, LVT]] = a, b
def e_ladd(p, f, t, first):
    r = np.array([line(p["bus"][f, 0], p["bus"][t, 0], 4., 0., 9., .2, .02, q=(-5., 5., -5., 5.))])
    p["dcline"] = np.vstack([r, p["dcline"]] if first else [p["dcline"], r])
    if "dclinecost" in p:
        r = np.array([[2, 0, 0, 2, .7, 0.] + [0] * (p["dclinecost"].shape[1] - 6)])
        p["dclinecost"] = np.vstack([r, p["dclinecost"]] if first else [p["dclinecost"], r])
def e_isl2(p, end):
    """the DC line is the only connection of an island with a reference bus of its own"""
    if len(p["gencost"]) != len(p["gen"]):
        return False
    b = p["dcline"][0, T if end else F]
    if (p["gen"][p["gen"][:, 0] == b, PMIN] < 0).any():
        return False
    p["branch"][(p["branch"][:, 0] == b) | (p["branch"][:, 1] == b), BR_STATUS] = 0
    p["bus"][p["bus"][:, 0] == b, BUS_TYPE] = 3
    p["gen"] = np.vstack([p["gen"], gen(b, 10., pmax=50., pmin=0., qmax=40., qmin=-40.)])
    p["gencost"] = np.vstack([p["gencost"], [2, 0, 0, 2, 22., 3.] + [0] * (p["gencost"].shape[1] - 6)])
def e_renum(p, how):
    old = p["bus"][:, 0].copy()
    if sp_apply(p, ("renum", how)) is False:
        return False
    m = dict(zip(old, p["bus"][:, 0]))
    for c in (F, T):
        p["dcline"][:, c] = [m[x] for x in p["dcline"][:, c]]

LOCAL = dict(c18.LOCAL)
LOCAL.update((n[2:], f) for n, f in list(globals().items()) if n.startswith("e_") and f.__module__ == __name__)


def do(p, e):
    if e[0] in LOCAL:
        return LOCAL[e[0]](p, *e[1:]) is not False
    return sp_apply(p, e)


def alphabet(p):
    nb, ng, nl, nd = len(p["bus"]), len(p["gen"]), len(p["branch"]), len(p["dcline"])
    A = []
    for k in range(nd):
        A += [("lims", k, lo, hi) for lo, hi in ((0., 10.), (-10., 10.), (-12., -2.), (6., 6.), (-3., 0.), (0., 0.), (3., 100.))]
        A += [("loss", k, 0., 0.), ("loss", k, 2., 0.), ("loss", k, 0., .2), ("loff", k), ("lrev", k), ("lpf", k, -9.), ("lq", k, 0., 0., 0., 0.), ("lq", k, -40., 2., -1., 40.), ("lvolt", k, .99, 1.02)]
        A += [("lcost", k, c) for c in sorted(DCC)]
        A += [("lmove", k, f, t) for f, t in ((0, nb - 1), (nb - 1, 1))]
    A += [("isl2", 0), ("isl2", 1), ("nocost",), ("ladd", 0, 2, 0), ("ladd", 1, 0, 1), ("iso", nb - 1), ("iso", 1), ("gen_off", 1), ("gen_off", 0), ("br_off", 0), ("br_off", nl - 1), ("renum", "odd"), ("renum", "zero"), ("base", 10.),
          ("bus_first", nb - 1), ("swap", 0, 1), ("rate", 1, 14.), ("cost", 0, "p3"), ("cost", 1, "l"), ("qcosts", "l", "p3"), ("bus_load", nb - 1, 95., 10.), ("opt", "OPF_ALG_DC", 250), ("opt", "PF_ALG", 2), ("opt", "PF_ALG", 4)]
    return A


def build(tier):
    items, seen, nt = [], set(), 0
    for net in sorted(NETS):
        A = alphabet(NETS[net]())
        pairs = list(itertools.combinations(A, 2))
        if tier == "quick":
            C = {("isl2", 1), ("lims", 0, -12., -2.), ("loff", 0), ("ladd", 1, 0, 1), ("bus_first", 2)} if net == "n3d" else {("loff", 1), ("bus_first", 3), ("lcost", 1, "q")}
            pairs = [q for q in pairs if C & set(q)]
        seqs = [()] + [(a,) for a in A] + pairs
        if tier != "quick":
            R = [a for a in A if a[0] in ("loff", "lrev", "ladd", "iso", "bus_first", "renum", "qcosts", "gen_off") or a[:1] == ("lcost",) and a[2] in "qp" or a[:1] == ("lims",) and a[2] < -3]
            seqs += list(itertools.combinations(R, 3))
        for s in seqs:
            s = sorted(s, key=lambda e: 2 if e[0] in ("bus_first", "renum") else 1 if e[0] == "ladd" else 0)
            p = NETS[net]()
            try:
                if not all(do(p, e) for e in s):
                    continue
            except IndexError:
                continue
            nt += 1
            k = canon(p)
            if k in seen:
                continue
            seen.add(k)
            o = [e for e in s if e[0] == "opt"]
            ms = ["pf", "dcpf", "dc"] + (["ac"] if len(s) <= 1 or tier != "quick" else [])
            if any(e[1] == "PF_ALG" for e in o):
                ms = ["pf"]
            elif o:
                ms = ["dc"]
            for m in ms:
                items.append({"net": net, "m": m, "seq": [list(e) for e in s]})
    return items, {"transitions": nt}


def live_lines(p):
    on = phys.energised(p)
    return [k for k, d in enumerate(p["dcline"]) if d[ST] > 0 and int(d[F]) in on and int(d[T]) in on]


def run(item):
    from pypower.toggle_dcline import toggle_dcline
    r = Result()
    p = NETS[item["net"]]()
    try:
        for e in item["seq"]:
            if not do(p, e):
                r.tag("not_enabled"); return r
    except IndexError:
        r.tag("not_enabled"); return r
    opt = p.pop("_opt", {})
    m = item["m"]
    key = "%s:%s:%s" % (item["net"], m, ";".join("_".join(map(str, e)) for e in item["seq"]))
    N = Net(p)
    lg = list(N.lg)
    if any(sum(1 for b in c if b in N.refs) != 1 for c in islands(p)) or not all(any(int(p["gen"][i, 0]) == b for i in lg) for b in N.refs):
        r.tag("reference_assumption"); return r
    D = live_lines(p)
    if m == "dc" and "dclinecost" in p and any(p["dclinecost"][k, 0] == 2 and p["dclinecost"][k, 3] > 3 for k in D):
        r.tag("cubic_cost"); return r
    r.states.add(canon([p, m, sorted(opt.items())]))
    r.evals += 1
    on = toggle_dcline(api.clone(p), "on")
    plain = dict((k, v) for k, v in p.items() if k not in ("dcline", "dclinecost"))
    if m in ("pf", "dcpf"):
        powerflow(item, r, key, p, on, plain, D, m, opt)
    else:
        optimum(item, r, key, p, on, plain, D, m, opt, N)
    if not item["seq"]:
        off = toggle_dcline(toggle_dcline(api.clone(p), "on"), "off")
        f = {"pf": api.pf, "dcpf": api.dcpf, "dc": api.dcopf, "ac": api.opf}[m]
        a, b = f(off, **opt), f(plain, **opt)
        r.evals += 2
        if m in ("pf", "dcpf"):
            a, b = a[0], b[0]
        r.expect(a["success"] == b["success"] and np.array_equal(a["gen"], b["gen"]) and np.array_equal(a["bus"], b["bus"]) and np.array_equal(a["branch"], b["branch"]) and np.array_equal(a["dcline"], p["dcline"]), key + ":off", "after disabling, the plain result is not restored")
    return r


def common(r, key, p, res, D, opf):
    """columns every analysis must return unchanged; -> table of lines"""
    E = r.expect
    d, n = res["dcline"], len(p["dcline"])
    E(d.shape[0] == n and d.shape[1] == (23 if opf else 17), key + ":shape", "dcline has shape %s" % (d.shape,))
    E(res["gen"].shape[0] == len(p["gen"]) and (len(res["gencost"]) == len(p["gencost"]) and np.array_equal(res["gencost"], p["gencost"])), key + ":own", "own units or costs not returned as given: %s" % (res["gen"].shape,))
    if r.violations:
        return None
    E(("dclinecost" in p) == ("dclinecost" in res) and ("dclinecost" not in p or np.array_equal(res["dclinecost"], p["dclinecost"])), key + ":dcc", "dclinecost not returned as given")
    keep = [F, T, ST] + list(range(LPMIN, L1 + 1))
    E(np.array_equal(d[:, keep], p["dcline"][:, keep]), key + ":lineinput", "line data changed: %s" % d[:, keep].tolist())
    for k in range(n):
        if k not in D:
            E(np.array_equal(d[k, :17], p["dcline"][k]) and (d[k, 17:] == 0).all(), key + ":offline", "out-of-service line %d reported as %s" % (k, d[k].tolist()))
        else:
            E(abs(d[k, LPT] - (d[k, LPF] * (1 - d[k, L1]) - d[k, L0])) < 1e-6 * (1 + abs(d[k, LPF])) * (1 if not opf else max(1., p["baseMVA"])), key + ":loss", "line %d: %g MW in, %g out, losses %g + %g" % (k, d[k, LPF], d[k, LPT], d[k, L0], d[k, L1]))
    return d


def powerflow(item, r, key, p, on, plain, D, m, opt):
    E = r.expect
    eq = api.clone(plain)
    pos = dict((int(b[0]), i) for i, b in enumerate(p["bus"]))
    if m == "dcpf":
        res, ok = api.dcpf(on, **opt)
        for k in D:
            d = p["dcline"][k]
            eq["bus"][pos[int(d[F])], PD] += d[LPF]
            eq["bus"][pos[int(d[T])], PD] -= d[LPF] * (1 - d[L1]) - d[L0]
        ref, rok = api.dcpf(eq, **opt)
        r.evals += 1
        E(bool(ok) == bool(rok), key + ":success", "success %s, equivalent case %s" % (ok, rok))
        if not ok:
            r.tag("failed"); return
        r.tag("dcpf"); r.validated += 1
        d = common(r, key, p, res, D, False)
        if d is None:
            return
        E(np.allclose(d[D, LPF], p["dcline"][D, LPF], atol=1e-9), key + ":flowset", "transfer changed to %s" % d[D, LPF])
        E(np.allclose(res["bus"][:, VA], ref["bus"][:, VA], atol=1e-7) and np.allclose(res["branch"][:, PF:QT + 1], ref["branch"][:, PF:QT + 1], atol=1e-6) and np.allclose(res["gen"][:, PG], ref["gen"][:, PG], atol=1e-6),
          key + ":equiv", "differs from the hand-built case: Pg %s instead of %s" % (res["gen"][:, PG], ref["gen"][:, PG]))
        return
    res, ok = api.pf(on, **opt)
    # the lines as pairs of units with fixed real power and voltage control at their terminals
    rows = []
    for k in D:
        d = p["dcline"][k]
        for e, P, Q, V, lo, hi in ((F, -d[LPF], d[LQF], d[LVF], d[QMINF], d[QMAXF]), (T, d[LPF] * (1 - d[L1]) - d[L0], d[LQT], d[LVT], d[QMINT], d[QMAXT])):
            rows.append(gen(d[e], P, Q, hi, lo, V, 1, np.inf, -np.inf))
            i = pos[int(d[e])]
            if eq["bus"][i, BUS_TYPE] != 3:
                eq["bus"][i, BUS_TYPE] = 2
    if rows:
        eq["gen"] = np.vstack([eq["gen"], rows])
    roles = phys.effective_types(eq)
    solvable = phys.newton_reference(eq, roles, maxit=9)[0]
    if not ok:
        r.tag("failed")
        E(not solvable or opt.get("PF_ALG"), key + ":nosolve", "power flow with DC lines failed although the equivalent case solves")
        return
    r.tag("pf"); r.validated += 1
    d = common(r, key, p, res, D, False)
    if d is None:
        return
    x = dict((k, res[k]) for k in ("bus", "branch", "baseMVA"))
    x["bus"] = res["bus"].copy(); x["bus"][:, BUS_TYPE] = eq["bus"][:, BUS_TYPE]
    g = []
    for k in D:
        for e, P, Q, V, lo, hi in ((F, -d[k, LPF], d[k, LQF], d[k, LVF], d[k, QMINF], d[k, QMAXF]), (T, d[k, LPT], d[k, LQT], d[k, LVT], d[k, QMINT], d[k, QMAXT])):
            g.append(gen(d[k, e], P, Q, hi, lo, V, 1, np.inf, -np.inf))
    x["gen"] = np.vstack([res["gen"]] + ([g] if g else []))
    E(all(t == o or i in [pos[int(v)] for k in D for v in p["dcline"][k, [F, T]]] for i, (t, o) in enumerate(zip(res["bus"][:, BUS_TYPE], p["bus"][:, BUS_TYPE]))), key + ":types", "bus types changed away from terminals")
    if np.allclose(x["gen"][len(p["gen"]):, PG], eq["gen"][len(p["gen"]):, PG], atol=1e-9):
        x["gen"][len(p["gen"]):, PG] = eq["gen"][len(p["gen"]):, PG]      # not exactly representable losses
    c01.judge(r, key, eq, x, True, 1e-8)


def optimum(item, r, key, p, on, plain, D, m, opt, N):
    E = r.expect
    base = p["baseMVA"]
    dl = p["dcline"]

    def aug(nb, n, bal, rhs):
        ae, be, ai, bi = [], [], [], []
        c0 = nb + len(N.lg)
        for j, k in enumerate(D):
            d = dl[k]
            bal[N.bi[int(d[F])], c0 + j] -= 1.
            bal[N.bi[int(d[T])], c0 + j] += 1. - d[L1]
            rhs[N.bi[int(d[T])]] += d[L0] / base
            q = np.zeros(n); q[c0 + j] = 1.
            lim = []
            for v in (d[LPMIN], d[LPMAX]):
                lim.append((v if v >= 0 else (v + d[L0]) / (1 - d[L1])) / base)
            if lim[0] > lim[1] - 1e-9:
                ae.append(q); be.append(lim[1])
            else:
                for sg, v in ((1, lim[1]), (-1, lim[0])):
                    z = sg * q; z[-1] = 1.; ai.append(z); bi.append(sg * v)
        return ae, be, ai, bi
    mg, indep = N.margin(len(D), aug)
    res = (api.dcopf if m == "dc" else api.opf)(on, **opt)
    ok = bool(res["success"])
    if mg is None or mg < -1e-3:
        E(not ok or m == "ac", key + ":infeasible", "success reported though no dispatch exists (margin %s)" % mg)
        r.tag("infeasible"); return
    if not ok:
        # a line whose limits pin it to one value leaves the solver no interior
        E(not (m == "dc" and mg > 1e-3 and indep and not opt and all(d[LPMAX] - d[LPMIN] > 1e-3 or d[LPMAX] == d[LPMIN] > 0 for d in dl[D])), key + ":unsolved", "failure reported though a dispatch with margin %.4g p.u. exists" % mg)
        r.tag("unsolved"); return
    r.tag("optimal_" + m); r.validated += 1
    d = common(r, key, p, res, D, True)
    if d is None:
        return
    res["bus"][:, BUS_TYPE] = p["bus"][:, BUS_TYPE]          # terminals are regulated buses while the lines are on
    lamP = dict((int(b[0]), b[LAM_P]) for b in res["bus"]); lamQ = dict((int(b[0]), b[LAM_Q]) for b in res["bus"])
    sc = 1. + max([abs(lamP[b]) for b in N.on] + ([abs(lamQ[b]) for b in N.on] if m == "ac" else []))
    vm = dict((int(b[0]), b[VM]) for b in res["bus"])
    Tol = 2e-3 * max(1., base / 100) if m == "dc" else 5e-3 + base * 1e-5 * (1. + np.abs(res["x"]).max())
    inj, total = {}, 0.
    for k in D:
        f, t = int(d[k, F]), int(d[k, T])
        pf, pt = d[k, LPF], d[k, LPT]
        for b, v in ((f, -pf + 1j * d[k, LQF]), (t, pt + 1j * d[k, LQT])):
            inj[b] = inj.get(b, 0.) + (v.real if m == "dc" else v)
        mu = d[k, MU]
        E((mu > -1e-3 * sc).all(), key + ":sign", "line %d multipliers %s" % (k, mu))
        w, g = 0., []
        for lim, sg, mm in ((d[k, LPMIN], -1, mu[0]), (d[k, LPMAX], 1, mu[1])):
            v = pf if lim >= 0 else pt
            E(sg * (v - lim) < Tol, key + ":limit", "line %d carries %g (%g out), limits %g %g" % (k, pf, pt, d[k, LPMIN], d[k, LPMAX]))
            if d[k, LPMIN] != d[k, LPMAX]:
                E(mm * sg * (lim - v) < .05 * sc, key + ":comp", "line %d carries %g (%g out), limits %g %g, multipliers %s" % (k, pf, pt, d[k, LPMIN], d[k, LPMAX], mu))
            w += sg * mm * (1. if lim >= 0 else 1. - d[k, L1])
        c = p["dclinecost"][k] if "dclinecost" in p else None
        lo, hi = slopes(c, pf, 2e-2) if c is not None else (0., 0.)
        total += cost(c, pf) if c is not None else 0.
        v = -lamP[f] + (1. - d[k, L1]) * lamP[t] - w
        E(lo - 5e-3 * sc <= v <= hi + 5e-3 * sc, key + ":stat", "line %d at %g MW: prices %g %g, multipliers %s, marginal cost in [%g, %g]" % (k, pf, lamP[f], lamP[t], mu, lo, hi))
        if m == "ac":
            for b, q, lo, hi, ml, mh in ((f, d[k, LQF], d[k, QMINF], d[k, QMAXF], mu[2], mu[3]), (t, d[k, LQT], d[k, QMINT], d[k, QMAXT], mu[4], mu[5])):
                E(lo - Tol <= q <= hi + Tol, key + ":qlim", "line %d injects %g MVAr, limits %g %g" % (k, q, lo, hi))
                E(lo == hi or ml * (q - lo) < .05 * sc and mh * (hi - q) < .05 * sc, key + ":qcomp", "line %d injects %g MVAr in [%g, %g], multipliers %g %g" % (k, q, lo, hi, ml, mh))
                E(abs(lamQ[b] - mh + ml) < 5e-3 * sc, key + ":qstat", "line %d: reactive price %g, multipliers %g %g" % (k, lamQ[b], ml, mh))
            E(abs(d[k, LVF] - vm[f]) < 1e-9 and abs(d[k, LVT] - vm[t]) < 1e-9, key + ":volt", "line %d voltages %g %g, buses %g %g" % (k, d[k, LVF], d[k, LVT], vm[f], vm[t]))
    if m == "dc":
        c17.certify(N, res, r, key, extra_cost=total, inj=inj)
    else:
        c18.certify(p, res, 0, r, key, extra_cost=total, inj=inj)
    if r.sample is None:
        r.sample = {"item": item, "f": float(res["f"]), "dcline": d[:, :9].tolist()}
