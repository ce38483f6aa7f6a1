"""C24: interface flow limits are enforced on the sum of directed flows."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.checks import c17
from mc.checks.c17 import Net, islands
from mc import phys, api

PROP = "C24"
LEVEL = "model_checking"
RULE = ("states: every assignment of one or two interfaces (set of directed branches from an alphabet x lower/upper bound alphabet, listed in any order and with arbitrary "
        "interface numbers) to two small networks, combined with every single case edit (outages, shifts, taps, reversed and parallel branches, ratings, "
        "orders, numbering, base, solver); the DC OPF is run in each and judged by a complete optimality certificate including the interface "
        "prices, failures by an LP feasibility margin, disabled limits by the plain OPF. Non-trivial: a dispatch exists")
ASSUMPTIONS = ["branch indices of the interface map are row numbers starting at 0 (branch 0 only in its own direction, as in the repository's test case)",
               "interface multipliers in results are per p.u. flow, as pinned by the repository's tests: $/MW = mu / baseMVA (documented as $/MW: known finding)"]


def n3i():
    p = c17.n3()
    p["gen"] = np.vstack([p["gen"], gen(11, 5., pmax=90., pmin=0.)])
    p["gencost"] = np.vstack([p["gencost"], [2, 0, 0, 3, .03, 21., 0.] + [0] * 5])
    p["branch"][:, RATE_A] = [90., 75., 120.]
    return p


def n4i():
    p = c17.n4()
    p["gen"] = np.vstack([p["gen"], gen(7, 5., pmax=70., pmin=0.), gen(4, 5., pmax=70., pmin=0.)])
    p["gencost"] = np.vstack([p["gencost"], [2, 0, 0, 3, .03, 21., 0.] + [0] * 5, [2, 0, 0, 3, .05, 17., 0.] + [0] * 5])
    p["branch"][:, RATE_A] = [80., 90., 0., 60., 100.]
    return p


NETS = {"n3i": n3i, "n4i": n4i}
MAPS = {"n3i": [[(0, 1)], [(1, 1)], [(1, -1)], [(0, 1), (2, 1)], [(1, -1), (2, -1)], [(0, 1), (1, -1)], [(1, 1), (2, 1)]],
        "n4i": [[(0, 1)], [(2, -1)], [(3, 1), (4, 1)], [(1, 1), (2, -1)], [(0, 1), (1, -1), (3, 1)], [(1, -1), (4, -1)]]}
BND = [(-10., 10.), (-8., 60.), (-60., 8.), (-1000., 1000.), (15., 25.), (-30., -12.)]

LOCAL = dict(c17.LOCAL)


def do(p, e):
    if e[0] in LOCAL:
        return LOCAL[e[0]](p, *e[1:]) is not False
    return apply(p, e)


def case_alphabet(p, thorough=False):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    A = []
    for k in range(nl):
        A += [("br_off", k), ("br_shift", k, -6.), ("br_tap", k, .9), ("rate", k, 12.)]
        if thorough:
            A += [("br_shift", k, 9.), ("ang", k, -2., 2.), ("rate", k, 0.)]
    A += [("br_rev", 0), ("br_rev", 1), ("iso", nb - 1), ("gen_off", 0), ("gen_off", 1), ("renum", "odd"), ("renum", "zero"), ("base", 10.), ("bus_first", nb - 1),
          ("cost", 1, "p3"), ("cost", 0, "l"), ("opt", "OPF_ALG_DC", 250), ("bus_load", 0, 95., 10.), ("plim", 0, 30., 30.), ("swap", 0, 1)]
    return A


def interfaces(net, tier):
    """lists of (number, directed branches, bounds) in the order of the limits table, and how the map rows are interleaved"""
    M = MAPS[net]
    one = [[(1, m, b)] for m in M for b in BND]
    two = []
    for (i, a), (j, c) in itertools.combinations(list(enumerate(M)), 2):
        bb = [(BND[0], BND[1]), (BND[2], BND[0])] if tier == "quick" else [x for x in itertools.product(BND, BND) if x[0] != x[1]]
        for b1, b2 in bb:
            two.append([(1, a, b1), (2, c, b2)])
            if tier != "quick" or (i + j) % 2:
                two.append([(7, a, b1), (3, c, b2)])
    return one, two


def build(tier):
    items, nt = [], 0
    for net in sorted(NETS):
        A = case_alphabet(NETS[net](), tier != "quick")
        one, two = interfaces(net, tier)
        for I in one:
            for e in [None] + A:
                nt += 1
                if tier == "quick" and e is not None and I[0][2] not in (BND[0], BND[2]):
                    continue
                if tier == "quick" and net == "n4i" and e is not None and e[0] in ("br_tap", "rate") and e[1] not in (0, 3):
                    continue
                items.append({"net": net, "if": I, "seq": [e] if e else []})
        core = [None, ("br_off", 0), ("br_off", 1), ("br_shift", 1, -6.), ("bus_first", 2)] if tier == "quick" else [None] + A
        for k, I in enumerate(two):
            for j, e in enumerate(core):
                nt += 1
                if tier == "quick" and e is not None and j % 4 != k % 4:
                    continue
                items.append({"net": net, "if": I, "seq": [e] if e else []})
        if tier != "quick":
            for I in one[::3]:
                for s in itertools.combinations(A, 2):
                    nt += 1
                    items.append({"net": net, "if": I, "seq": list(s)})
    return items, {"transitions": nt}


def attach(p, I):
    rows = []
    for pos in range(max(len(m) for _, m, _ in I)):          # rows of different interfaces interleaved
        for num, m, b in I:
            if pos < len(m):
                rows.append([num, m[pos][0] * m[pos][1]])
    p["if"] = {"map": np.array(rows), "lims": np.array([[num, b[0], b[1]] for num, m, b in I], float)}


def run(item):
    from pypower.toggle_iflims import toggle_iflims
    r = Result()
    p = NETS[item["net"]]()
    I = [(i, [tuple(x) for x in m], tuple(b)) for i, m, b in item["if"]]
    for e in item["seq"]:
        if not do(p, e):
            r.tag("not_enabled"); return r
    opt = p.pop("_opt", {})
    key = "%s:%s:%s" % (item["net"], I, ";".join("_".join(map(str, e)) for e in item["seq"]))
    N = Net(p)
    if any(sum(1 for b in c if b in N.refs) != 1 for c in islands(p)) or not N.lg:
        r.tag("reference_assumption"); return r
    plain = api.clone(p)
    attach(p, I)
    r.states.add(canon([p, sorted(opt.items())]))
    r.evals += 1

    def aug(nb, n, bal, rhs):
        ai, bi = [], []
        for num, m, b in I:
            q = np.zeros(n); c = 0.
            for l, d in m:
                if l in N.ll:
                    w = d * N.b(l) / N.base
                    q[N.bi[int(p["branch"][l, 0])]] += w; q[N.bi[int(p["branch"][l, 1])]] -= w
                    c -= w * np.radians(p["branch"][l, SHIFT])
            for sg, lim in ((1, b[1]), (-1, b[0])):
                z = sg * q; z[-1] = 1.
                ai.append(z); bi.append(sg * (lim / N.base - c))
        return [], [], ai, bi
    m, indep = N.margin(0, aug)
    on = toggle_iflims(api.clone(p), "on")
    res = api.dcopf(on, **opt)
    ok = bool(res["success"])
    if m is None or m < -1e-3:
        r.expect(not ok, key + ":infeasible", "success reported though no dispatch keeps the interface limits (margin %s)" % m)
        r.tag("infeasible")
    elif not ok:
        r.expect(not (m > 1e-3 and indep and not opt), key + ":unsolved", "failure reported though a dispatch with margin %.4g p.u. exists" % m)
        r.tag("unsolved")
    else:
        r.tag("optimal"); r.validated += 1
        certify(N, I, p, res, r, key)
        if r.sample is None:
            r.sample = {"item": item, "f": float(res["f"]), "P": list(res["if"]["P"])}
    if not item["seq"] and item["net"] == "n3i" and I == [(1, [(0, 1)], BND[0])]:
        # documented unit of the multipliers ($/MW), by moving the limit
        f = []
        for d in (.5, -.5):
            q = api.clone(p)
            q["if"]["lims"][0, 1:] += d * np.array([-1, 1])
            f.append(float(api.dcopf(toggle_iflims(q, "on"), **opt)["f"]))
        r.evals += 2
        pr = res["if"]["mu"]["l"][0] + res["if"]["mu"]["u"][0]
        r.expect(abs(pr - (f[1] - f[0])) < 1e-2 * abs(pr), "mu_units", "multiplier reported as %g, relaxing the limit by 1 MW saves %g" % (pr, f[1] - f[0]))
    if not item["seq"]:
        off = toggle_iflims(toggle_iflims(api.clone(p), "on"), "off")
        a, b = api.dcopf(off, **opt), api.dcopf(plain, **opt)
        r.evals += 2
        r.expect(a["success"] == b["success"] and a["f"] == b["f"] and np.array_equal(a["gen"], b["gen"]) and np.array_equal(a["branch"], b["branch"]), key + ":off", "after disabling, the OPF gives %r instead of %r" % (a["f"], b["f"]))
        if ok:
            x = api.dcopf(toggle_iflims(api.clone(res), "off"), **opt)
            y = api.dcopf(api.clone(res), **opt)
            r.evals += 2
            r.expect(not b["success"] or x["success"] and abs(x["f"] - b["f"]) < 1e-5 * (1 + abs(b["f"])), key + ":off_result", "disabling in the result gives %r instead of %r" % (x["f"], b["f"]))
            r.expect(y["success"] and abs(y["f"] - res["f"]) < 1e-5 * (1 + abs(res["f"])), key + ":rerun", "solving the result again gives %r instead of %r" % (y["f"], res["f"]))
    return r


def certify(N, I, p, res, r, key):
    E = r.expect
    v = res["if"]
    n = len(I)
    E(np.array_equal(v["map"], p["if"]["map"]) and np.array_equal(v["lims"], p["if"]["lims"]), key + ":data", "interface data returned as %s %s" % (v["map"], v["lims"]))
    E(np.shape(v["P"]) == (n,) and np.shape(v["mu"]["l"]) == (n,) and np.shape(v["mu"]["u"]) == (n,), key + ":shape", "shapes %s %s" % (np.shape(v["P"]), np.shape(v["mu"]["l"])))
    if r.violations:
        return
    T = 2e-3 * max(1., N.base / 100)
    sc = 1. + np.abs(res["bus"][:, LAM_P]).max()
    extra = {}
    for k, (num, m, b) in enumerate(I):
        P = sum(d * res["branch"][l, PF] for l, d in m if l in N.ll)
        mu = np.array([v["mu"]["l"][k], v["mu"]["u"][k]]) / N.base
        E(abs(v["P"][k] - P) < 1e-6 * (1 + abs(P)), key + ":P", "interface %d carries %g, reported %g" % (num, P, v["P"][k]))
        E(b[0] - T <= P <= b[1] + T, key + ":limit", "interface %d carries %g outside %s" % (num, P, b))
        E((mu > -1e-3 * sc).all() and mu[0] * (P - b[0]) < 2e-2 * sc and mu[1] * (b[1] - P) < 2e-2 * sc, key + ":comp", "interface %d carries %g in %s, multipliers %s" % (num, P, b, mu))
        for l, d in m:
            extra[l] = extra.get(l, 0.) + d * (mu[1] - mu[0])
    c17.certify(N, res, r, key, lam_extra=extra)
