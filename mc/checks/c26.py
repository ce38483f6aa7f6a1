"""C26: unit decommitment never makes things worse and only ever switches off."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.space import apply as sp_apply
from mc.checks import c17
from mc import api

PROP = "C26"
LEVEL = "model_checking"
RULE = ("states: every assignment of unit profiles (minimum output, cost shape, fixed cost, initially off) to the units of a small network x loads x dispatchable load x ratings, plus "
        "single case edits; each is a transition system whose states are commitments (subsets of units) valued by plain OPF runs and whose transitions switch one candidate off; the commitment "
        "returned by the decommitment must be an end state of the documented stage search (ties left open), and the result the OPF of that commitment. Non-trivial: at least one unit may be switched off")
ASSUMPTIONS = ["the plain OPF values of the commitments come from the OPF itself (judged by C17/C18)",
               "candidates are units with positive minimum output whose lower limit has a positive multiplier (the documented rule)"]
PROFILES = {"a": (0., [2, 0, 0, 3, .02, 12., 0.]), "b": (25., [2, 0, 0, 3, .05, 8., 350.]), "c": (25., [2, 0, 0, 2, 6., 20.]), "d": (45., [1, 0, 0, 3, 0., 40., 45., 900., 90., 2400.]),
            "e": (15., [2, 0, 0, 3, .01, 30., 100.]), "x": (20., [2, 0, 0, 2, 9., 10.]), "n": (-10., [2, 0, 0, 2, 20., 5.])}


def net(profiles, load, dl, tight):
    """profiles: letters, one per unit; x starts out of service"""
    B = [20, 5, 11, 5, 20]
    G, C = [], []
    for k, c in enumerate(profiles):
        lo, row = PROFILES[c]
        G.append(gen(B[k], lo, pmax=95., pmin=lo, qmax=90., qmin=-60., status=0 if c == "x" else 1))
        C.append(row + [0] * (12 - len(row)))
    if dl:
        G.insert(1, gen(11, -20., -5., 0., -5., 1., 1, 0., -20.))
        C.insert(1, [2, 0, 0, 2, 22., 0.] + [0] * 6)
    p = mk([bus(20, 3, .2 * load, .05 * load, va=5.), bus(5, 2, .1 * load), bus(11, 2, .7 * load, .2 * load)], G,
           [br(20, 5, .02, .12, .06, rate=70.), br(5, 11, .03, .15, .02, rate=40. if tight else 120.), br(20, 11, .01, .10, 0., rate=45. if tight else 150.)], C)
    return p


def build(tier):
    items, nt = [], 0
    L = "abcdex" if tier == "quick" else "abcdexn"
    n = 3
    for pr in itertools.product(L, repeat=n):
        for load in (35., 110.):
            for dl in (0, 1):
                for tight in (0, 1):
                    nt += 1
                    h = L.index(pr[0]) + 2 * L.index(pr[1]) + 3 * L.index(pr[2])
                    if tier == "quick" and (h + 2 * dl + tight) % 4 and not (len(set(pr)) == 1):
                        continue
                    it = {"pr": "".join(pr), "load": load, "dl": dl, "tight": tight, "seq": []}
                    items.append(dict(it, m="dc"))
                    if tier != "quick" or (h + dl) % 16 == tight * 4:
                        items.append(dict(it, m="ac"))
    for pr in itertools.product("bcde", repeat=4):
        for load in (30., 90., 150.):
            nt += 1
            if tier == "quick" and (sum(map("bcde".index, pr)) + int(load / 30)) % 4 != pr[0].count("b") + 1:
                continue
            items.append({"pr": "".join(pr), "load": load, "dl": 0, "tight": 0, "seq": [], "m": "dc"})
    E = [[("renum", "odd")], [("bus_first", 2)], [("base", 10.)], [("swap", 0, 2)], [("swap", 1, 2)], [("gen_off", 0)], [("qcost",)], [("iso", 1)], [("br_off", 0)], [("plim", 1, 30., 30.)], [("gen_neg", 1)]]
    for e in E:
        for pr, load in itertools.product(("bce", "ebb", "dbc", "ccc", "eda"), (35., 90.)):
            for m in ("dc", "ac"):
                nt += 1
                if e == [("qcost",)] and m == "dc":
                    continue
                items.append({"pr": pr, "load": load, "dl": 1, "tight": 0, "seq": e, "m": m})
    return items, {"transitions": nt}


def do(p, e):
    if e[0] in c17.LOCAL:
        return c17.LOCAL[e[0]](p, *e[1:]) is not False
    return sp_apply(p, e)


TOL = 1e-4


class Model(object):
    def __init__(s, p, m, r):
        s.p, s.m, s.r = p, m, r
        s.table = {}
        g = p["gen"]
        s.load = [i for i in range(len(g)) if g[i, PMIN] < 0 and g[i, PMAX] == 0]
        s.start = frozenset(i for i in range(len(g)) if g[i, GEN_STATUS] > 0)

    def opf(s, S):
        """-> result of the plain OPF with exactly the units S in service"""
        if S not in s.table:
            q = api.clone(s.p)
            for i in range(len(q["gen"])):
                if i not in S and q["gen"][i, GEN_STATUS] > 0:
                    q["gen"][i, [PG, QG, GEN_STATUS]] = 0
            s.table[S] = (api.dcopf if s.m == "dc" else api.opf)(q)
            s.r.evals += 1
        return s.table[S]

    def shed(s, S):
        """commitments after removing units until minimum generation fits the load"""
        g = s.p["gen"]
        on = [i for i in S if i not in s.load]
        cap = s.p["bus"][:, PD].sum() - sum(g[i, PMIN] for i in S if i in s.load)
        if sum(g[i, PMIN] for i in on) <= cap:
            return {S}
        av = dict((i, c17.cost(s.p["gencost"][i], g[i, PMIN]) / g[i, PMIN]) for i in on if g[i, PMIN] > 0)
        out = set()
        for i in av:
            if av[i] >= max(av.values()) - 1e-9:
                out |= s.shed(S - {i})
        return out or {S}

    def ends(s, S):
        """commitments at which the stage search may stop from S"""
        seen, out, todo = set(), set(), [S]
        while todo:
            S = todo.pop()
            if S in seen:
                continue
            seen.add(S)
            g = s.opf(S)["gen"]
            f0 = s.opf(S)["f"]
            sure = [i for i in sorted(S) if g[i, PMIN] > 0 and g[i, MU_PMIN] > 0]
            gain = {}
            for i in sure:
                x = s.opf(S - {i})
                if x["success"]:
                    gain[i] = f0 - x["f"]
            t = TOL * (1 + abs(f0)) * .01
            best = max(list(gain.values()) + [-np.inf])
            if best < t:
                out.add(S)
            if best > -t:
                todo += [S - {i} for i in gain if gain[i] >= best - t and gain[i] > -t]
        s.nstates = len(seen)
        return out


def run(item):
    from pypower.runuopf import runuopf
    from pypower.runduopf import runduopf
    r = Result()
    p = net(item["pr"], item["load"], item["dl"], item["tight"])
    for e in item["seq"]:
        if not do(p, e):
            r.tag("not_enabled"); return r
    key = "%s:%s:%g:%d%d:%s" % (item["m"], item["pr"], item["load"], item["dl"], item["tight"], ";".join("_".join(map(str, e)) for e in item["seq"]))
    r.states.add(canon([p, item["m"]]))
    r.evals += 1
    res = (runduopf if item["m"] == "dc" else runuopf)(api.clone(p), api.opts())
    M = Model(p, item["m"], r)
    first = M.shed(M.start)
    E = r.expect
    ok = bool(res["success"])
    G = res["gen"]
    E(G.shape[0] == len(p["gen"]), key + ":rows", "result has %d units" % G.shape[0])
    if r.violations:
        return r
    S = frozenset(i for i in range(len(G)) if G[i, GEN_STATUS] > 0)
    E(S <= M.start, key + ":on", "units %s switched on" % sorted(S - M.start))
    E(all(i in S for i in M.load if i in M.start), key + ":load", "a dispatchable load was switched off")
    for i in range(len(G)):
        keep = [c for c in (GEN_BUS, QMAX, QMIN, MBASE, PMAX, PMIN) + tuple(range(10, 21))]
        E(np.array_equal(G[i, keep], p["gen"][i, keep]), key + ":input", "data of unit %d changed" % i)
        E(i in S or (G[i, [PG, QG]] == 0).all(), key + ":off", "switched-off unit %d reports %s" % (i, G[i, [PG, QG]]))
        E(i in M.start or G[i, GEN_STATUS] == p["gen"][i, GEN_STATUS], key + ":status", "unit %d status %g" % (i, G[i, GEN_STATUS]))
    solved = [F for F in first if M.opf(F)["success"]]
    if not ok:
        E(len(solved) < len(first), key + ":failure", "failure reported though the OPF of the initial commitment solves")
        r.tag("failed")
        return r
    x = M.opf(S)
    E(x["success"], key + ":opf", "the OPF of the returned commitment %s does not succeed" % sorted(S))
    if x["success"]:
        E(abs(x["f"] - res["f"]) < TOL * (1 + abs(x["f"])), key + ":f", "objective %r, the OPF of the returned commitment gives %r" % (res["f"], x["f"]))
        E(np.allclose(x["gen"][:, PG], G[:, PG], atol=.05) and np.allclose(x["bus"][:, [VM, VA]], res["bus"][:, [VM, VA]], atol=1e-3) and np.allclose(x["branch"][:, PF:QT + 1], res["branch"][:, PF:QT + 1], atol=.1) or len(set(item["pr"])) < len(item["pr"]),
          key + ":solution", "dispatch %s is not the OPF's %s" % (G[:, PG], x["gen"][:, PG]))
        E(abs(sum(c17.cost(p["gencost"][i], G[i, PG]) for i in S) - res["f"]) < 1e-4 * (1 + abs(res["f"])) or item["seq"] and item["seq"][0][0] in ("qcost", "iso"), key + ":cost", "objective %r is not the cost of the dispatch" % res["f"])
    if len(solved) == len(first):
        E(res["f"] <= max(M.opf(F)["f"] for F in first) + TOL * (1 + abs(res["f"])), key + ":worse", "objective %r is above the plain OPF's" % res["f"])
        ends = set().union(*[M.ends(F) for F in first])
        E(S in ends, key + ":search", "stops at commitment %s, the stage search ends in %s" % (sorted(S), [sorted(e) for e in ends]))
        r.validated += 1
        r.tag("n_off_%d" % len(M.start - S))
        if len(first) and M.start not in first:
            r.tag("shed")
    else:
        r.tag("initial_fails")
    if r.sample is None and ok:
        r.sample = {"item": item, "on": sorted(S), "f": float(res["f"]), "commitments_evaluated": len(M.table)}
    return r
