"""C23: reserve co-optimisation meets zonal requirements at least total cost."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.checks import c17, c18
from mc.checks.c17 import Net, islands
from mc import phys, api

PROP = "C23"
LEVEL = "model_checking"
RULE = ("states: every case within `depth` edits (requirements, zone membership, reserve offers and prices, ramp limits, forms of the data, unit limits, "
        "outages, islands, order and numbering of units and buses, base, solver) of two small networks with fixed zonal reserves, in DC and AC; a success is judged by a "
        "complete optimality certificate of the joint energy and reserve problem, a failure by an LP that computes whether energy and reserve are "
        "jointly feasible; toggling off must restore the plain OPF. Non-trivial: a joint dispatch exists")
ASSUMPTIONS = ["the price of a unit in several zones is the sum of the zone prices (pinned by the repository's tests; its documentation says maximum)",
               "a 10-minute ramp rate of zero means no ramp limit",
               "AC: failure is never held against the solver"]
RAMP_10 = 17


def n3r():
    p = c18.n3()
    p["gen"] = np.vstack([p["gen"], gen(20, 15., pmax=60., pmin=0., qmax=30., qmin=-30.)])
    p["gencost"] = np.vstack([p["gencost"], [2, 0, 0, 2, 17., 3.] + [0] * 6])
    p["reserves"] = {"zones": np.array([[1., 1., 0.], [0., 1., 1.]]), "req": np.array([25., 20.]),
                     "cost": np.array([2., 4., 1.5]), "qty": np.array([30., 40., 15.])}
    p["gen"][2, RAMP_10] = 12.
    return p


def n4r():
    p = c18.n4()
    p["reserves"] = {"zones": np.array([[1., 1., 0., 0.]]), "req": np.array([30.]), "cost": np.array([3., 2.]), "qty": np.array([50., 20.])}
    return p


def n4s():
    """three of four units take part, data given for the participants only"""
    p = n4r()
    p["reserves"] = {"zones": np.array([[1., 1., 0., 1.]]), "req": np.array([80.]), "cost": np.array([3., 2., 4.]), "qty": np.array([50., 20., 25.])}
    return p


NETS = {"n3r": n3r, "n4r": n4r, "n4s": n4s}


def part(p): return [k for k in range(len(p["gen"])) if p["reserves"]["zones"][:, k].any()]

def col(p, name):
    """the data per unit, whether given for all units or for the participants only"""
    v = p["reserves"][name]
    if len(v) == len(p["gen"]):
        return np.array(v, float)
    out = np.zeros(len(p["gen"])); out[part(p)] = v
    return out

def e_req(p, z, v): p["reserves"]["req"][z] = v
def e_rc(p, k, v): a = col(p, "cost"); a[k] = v; p["reserves"]["cost"] = a; full(p)
def e_qty(p, k, v): a = col(p, "qty"); a[k] = v; p["reserves"]["qty"] = a; full(p)
def full(p):
    for n in ("cost", "qty"):
        if n in p["reserves"]:
            p["reserves"][n] = col(p, n)
def e_zone(p, z, k):
    full(p)
    p["reserves"]["zones"][z, k] = 1. - p["reserves"]["zones"][z, k]
def e_noqty(p): del p["reserves"]["qty"]
def e_short(p):
    for n in ("cost", "qty"):
        p["reserves"][n] = col(p, n)[part(p)]
def e_ramp(p, k, v): p["gen"][k, RAMP_10] = v
def e_rotate(p):
    full(p)
    o = np.r_[1:len(p["gen"]), 0]
    ng = len(o)
    p["gen"] = p["gen"][o]; p["reserves"]["zones"] = p["reserves"]["zones"][:, o]
    p["gencost"] = np.vstack([p["gencost"][k:k + ng][o] for k in range(0, len(p["gencost"]), ng)])
    for n in ("cost", "qty"):
        if n in p["reserves"]:
            p["reserves"][n] = p["reserves"][n][o]
def e_onezone(p):
    p["reserves"]["zones"] = p["reserves"]["zones"][:1]; p["reserves"]["req"] = p["reserves"]["req"][:1]; full(p)
def e_morezone(p):
    full(p)
    p["reserves"]["zones"] = np.vstack([p["reserves"]["zones"], np.ones(len(p["gen"]))]); p["reserves"]["req"] = np.r_[p["reserves"]["req"], 55.]

LOCAL = dict(c18.LOCAL)
LOCAL.update((n[2:], f) for n, f in list(globals().items()) if n.startswith("e_") and f.__module__ == __name__)


def do(p, e):
    if e[0] in LOCAL:
        return LOCAL[e[0]](p, *e[1:]) is not False
    return sp_apply(p, e)

from mc.space import apply as sp_apply


def alphabet(p):
    ng, nb, nz = len(p["gen"]), len(p["bus"]), len(p["reserves"]["req"])
    A = []
    for z in range(nz):
        A += [("req", z, v) for v in (0., 8., 45., 160.)] + [("zone", z, k) for k in range(ng)]
    for k in range(ng):
        if p["gen"][k, PMIN] < 0:
            A += [("gen_off", k)]; continue
        A += [("rc", k, 0.), ("rc", k, 9.), ("qty", k, 6.), ("qty", k, 0.), ("ramp", k, 9.), ("gen_off", k), ("plim", k, 0., 20.), ("plim", k, 30., 30.), ("plim", k, -25., -12.), ("cost", k, "p3"), ("cost", k, "l")]
    A += [("noqty",), ("short",), ("rotate",), ("onezone",), ("morezone",), ("renum", "odd"), ("renum", "zero"), ("base", 10.), ("iso", 1), ("bus_first", nb - 1), ("br_off", 0), ("rate", 1, 14.),
          ("opt", "OPF_ALG_DC", 250)]
    return A


def build(tier):
    items, seen, nt = [], set(), 0
    for net in sorted(NETS):
        A = alphabet(NETS[net]())
        pairs = list(itertools.combinations(A, 2))
        if tier == "quick":
            C = [("gen_off", 0), ("gen_off", 1), ("rotate",), ("req", 0, 45.), ("short",), ("morezone",)] if net == "n3r" else [("gen_off", 0), ("rotate",), ("req", 0, 45.)] if net == "n4r" else [("gen_off", 2)]
            pairs = [q for q in pairs if set(C) & set(q)]
        seqs = [()] + [(a,) for a in A] + pairs
        if tier != "quick":
            R = [a for a in A if a[0] in ("gen_off", "rotate", "req", "zone", "short", "noqty", "ramp", "morezone", "renum", "base") or a[0] == "qty" and a[2] == 6.]
            seqs += list(itertools.combinations(R, 3))
        for s in seqs:
            s = sorted(s, key=lambda e: ("noqty", "short").index(e[0]) + 1 if e[0] in ("noqty", "short") else e[0] in ("rotate", "bus_first", "renum") and .5)
            if tuple(s) in seen:
                continue
            nt += 1
            p = NETS[net]()
            if len(s) < 3:
                try:
                    if not all(do(p, e) for e in s):
                        continue
                except (IndexError, KeyError):
                    continue
                k = canon(p)
                if k in seen:
                    continue
                seen.add(k)
            ac = len(s) <= 1 or tier != "quick" and len(s) == 2
            for m in ("dc", "ac") if ac and not any(e[0] == "opt" for e in s) else ("dc",):
                items.append({"net": net, "m": m, "seq": [list(e) for e in s]})
    return items, {"transitions": nt}


def rlimits(p, k):
    """largest reserve of unit k in MW"""
    v = p["gen"][k, RAMP_10] if p["gen"][k, RAMP_10] != 0 else np.inf
    if "qty" in p["reserves"]:
        v = min(v, col(p, "qty")[k])
    return v


def margin(N):
    p = N.p
    R = [k for k in part(p) if k in N.lg]

    def aug(nb, n, bal, rhs):
        ae, be, ai, bi = [], [], [], []
        c0 = nb + len(N.lg)
        for j, k in enumerate(R):
            q = np.zeros(n); q[c0 + j] = 1.
            m = rlimits(p, k) / N.base
            if m == 0:
                ae.append(q); be.append(0.)
            else:
                z = -q; z[-1] = 1.; ai.append(z); bi.append(0.)
                if m < np.inf:
                    z = q.copy(); z[-1] = 1.; ai.append(z); bi.append(m)
            z = q.copy(); z[nb + N.lg.index(k)] = 1.; z[-1] = 1.
            ai.append(z); bi.append(p["gen"][k, PMAX] / N.base)
        for z in range(len(p["reserves"]["req"])):
            q = np.zeros(n); q[-1] = 1.
            for j, k in enumerate(R):
                q[c0 + j] = -1. if p["reserves"]["zones"][z, k] else 0.
            ai.append(q); bi.append(-p["reserves"]["req"][z] / N.base)
        return ae, be, ai, bi
    m, indep = N.margin(len(R), aug)
    # a unit without room (fixed at its limit) leaves its reserve no interior: solvability is then not demanded
    return m, indep


def run(item):
    from pypower.toggle_reserves import toggle_reserves
    from pypower.runopf_w_res import runopf_w_res
    r = Result()
    p = NETS[item["net"]]()
    try:
        for e in item["seq"]:
            if not do(p, e):
                r.tag("not_enabled"); return r
    except (IndexError, KeyError):
        r.tag("not_enabled"); return r
    opt = p.pop("_opt", {})
    key = "%s:%s:%s" % (item["net"], item["m"], ";".join("_".join(map(str, e)) for e in item["seq"]))
    N = Net(p)
    N.lg = list(N.lg)
    if any(sum(1 for b in c if b in N.refs) != 1 for c in islands(p)) or not N.lg:
        r.tag("reference_assumption"); return r
    if not [k for k in part(p) if k in N.lg]:
        r.tag("no_participants"); return r
    r.states.add(canon([p, item["m"], sorted(opt.items())]))
    r.evals += 1
    dc = item["m"] == "dc"
    on = toggle_reserves(api.clone(p), "on")
    res = (api.dcopf if dc else api.opf)(on, **opt)
    ok = bool(res["success"])
    m, indep = margin(N)
    if m is None or m < -1e-3:
        if dc or sum(p["reserves"]["req"]) > 150:
            r.expect(not ok, key + ":infeasible", "success reported though energy and reserve are jointly infeasible (margin %s)" % m)
        r.tag("infeasible")
        return r
    if not ok:
        r.expect(not (dc and m > 1e-3 and indep and not opt), key + ":unsolved", "failure reported though a joint dispatch with margin %.4g p.u. exists" % m)
        r.tag("unsolved")
        return r
    r.tag("optimal_" + item["m"]); r.validated += 1
    certify(N, res, r, key, dc)
    # the combined entry point gives the same solution, and disabling restores the plain analysis
    if len(item["seq"]) <= (1 if dc else 0):
        w = runopf_w_res(api.clone(p), api.opts(PF_DC=1, **opt) if dc else api.opts(**opt))
        r.evals += 1
        r.expect(w["success"] and abs(w["f"] - res["f"]) < 1e-6 * (1 + abs(res["f"])) and np.allclose(w["reserves"]["R"], res["reserves"]["R"], atol=1e-6), key + ":w_res", "runopf_w_res gives %r" % w["f"])
        off = toggle_reserves(toggle_reserves(api.clone(p), "on"), "off")
        a = (api.dcopf if dc else api.opf)(off, **opt)
        b = (api.dcopf if dc else api.opf)(dict((k, v) for k, v in p.items() if k != "reserves"), **opt)
        r.evals += 2
        r.expect(a["success"] == b["success"] and a["f"] == b["f"] and np.array_equal(a["gen"], b["gen"]) and np.array_equal(a["bus"], b["bus"]), key + ":off", "after disabling, the OPF gives %r instead of %r" % (a["f"], b["f"]))
        x = (api.dcopf if dc else api.opf)(api.clone(w), **opt)
        r.expect(x["success"] and abs(x["f"] - b["f"]) < 1e-5 * (1 + abs(b["f"])) if b["success"] else True, key + ":off_result", "OPF of the result of runopf_w_res gives %r instead of %r" % (x["f"], b["f"]))
    if r.sample is None:
        r.sample = {"item": item, "f": float(res["f"]), "R": res["reserves"]["R"].tolist()}
    return r


def certify(N, res, r, key, dc):
    p = N.p
    E = r.expect
    q, v = p["reserves"], res["reserves"]
    ng, P = len(p["gen"]), part(p)
    T = 5e-3 * max(1., N.base / 100)
    for n in ("R", "Rmin", "Rmax", "prc"):
        E(np.shape(v[n]) == (ng,), key + ":shape", "%s has shape %s" % (n, np.shape(v[n])))
    for n in ("l", "u", "Pmax"):
        E(np.shape(v["mu"][n]) == (ng,), key + ":shape", "mu.%s has shape %s" % (n, np.shape(v["mu"][n])))
    if r.violations:
        return
    for n in q:
        E(n in v and np.shape(v[n]) == np.shape(q[n]) and np.array_equal(v[n], q[n]), key + ":data", "reserve data '%s' returned as %s, given %s" % (n, v.get(n), q[n]))
    c = col(p, "cost")
    zp = res["lin"]["mu"]["l"]["Rreq"] / N.base
    sc = 1. + np.abs(res["bus"][:, LAM_P]).max() + np.abs(zp).max()
    R = v["R"]
    cost = 0.
    for k in range(ng):
        mu = np.array([v["mu"]["l"][k], v["mu"]["u"][k], v["mu"]["Pmax"][k]])
        if k not in P or k not in N.lg:
            E(R[k] == 0 and (mu == 0).all() and v["Rmin"][k] == 0 and v["Rmax"][k] == 0, key + ":other", "unit %d cannot provide reserve, reported %s %s" % (k, R[k], mu))
            if k not in P:
                E(v["prc"][k] == 0, key + ":other", "unit %d cannot provide reserve but has a price" % k)
            continue
        m = rlimits(p, k)
        cost += c[k] * R[k]
        pg = res["gen"][k, PG]
        E(v["Rmin"][k] == 0 and (v["Rmax"][k] == m or abs(v["Rmax"][k] - m) < 1e-9 * (1 + m)), key + ":limits", "unit %d limits reported as %g, %g instead of 0, %g" % (k, v["Rmin"][k], v["Rmax"][k], m))
        E(-T <= R[k] <= m + T, key + ":qty", "unit %d provides %g of %g" % (k, R[k], m))
        E(pg + R[k] <= p["gen"][k, PMAX] + T, key + ":cap", "unit %d: %g MW + reserve %g exceed %g" % (k, pg, R[k], p["gen"][k, PMAX]))
        prc = sum(zp[z] for z in range(len(zp)) if q["zones"][z, k])
        E(abs(v["prc"][k] - prc) < 1e-6 * sc, key + ":price", "unit %d has price %g, its zones %g" % (k, v["prc"][k], prc))
        E((mu > -1e-3 * sc).all(), key + ":sign", "unit %d reserve multipliers %s" % (k, mu))
        E(abs(c[k] - mu[0] + mu[1] + mu[2] - v["prc"][k]) < 2e-3 * sc, key + ":stat", "unit %d: cost %g, price %g, multipliers %s do not balance" % (k, c[k], v["prc"][k], mu))
        w = .1 * sc
        E((mu[0] * R[k] < w or m == 0) and (m == np.inf or m == 0 or mu[1] * (m - R[k]) < w) and mu[2] * (p["gen"][k, PMAX] - pg - R[k]) < w, key + ":comp", "unit %d: R %g of %g, %g of %g MW, multipliers %s" % (k, R[k], m, pg, p["gen"][k, PMAX], mu))
    for z in range(len(q["req"])):
        t = sum(R[k] for k in range(ng) if q["zones"][z, k])
        E(t > q["req"][z] - T, key + ":req", "zone %d gets %g of %g" % (z, t, q["req"][z]))
        E(zp[z] > -1e-3 * sc and zp[z] * (t - q["req"][z]) < .1 * sc, key + ":comp_zone", "zone %d gets %g of %g at price %g" % (z, t, q["req"][z], zp[z]))
    E(abs(v["totalcost"] - cost) < 1e-4 * (1 + abs(cost)), key + ":rcost", "reserve cost reported %g, is %g" % (v["totalcost"], cost))
    mup = dict((k, v["mu"]["Pmax"][k]) for k in range(ng))
    if dc:
        c17.certify(N, res, r, key, extra_cost=cost, mup=mup)
    else:
        c18.certify(p, res, 0, r, key, extra_cost=cost, mup=mup)
