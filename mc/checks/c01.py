"""C01: a successful AC power flow is a physical solution of the given case."""
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import phys, api

PROP = "C01"
LEVEL = "model_checking"
RULE = ("states: every case reached from 3 base networks by all sequences of at most d elementary edits "
        "(merged when identical); each state is solved by the real power flow under each algorithm and compared "
        "with an independent circuit model. non-trivial: the solver reports success so that every clause is evaluated")
ASSUMPTIONS = ["numeric values come from the finite edit alphabet; networks have 2-4 buses (plus the shipped cases)"]
SHIPPED = ["case4gs", "case6ww", "case9", "case9Q", "case14", "case24_ieee_rts", "case30", "case39", "case57", "case118"]


def qinf_alphabet(p):
    nb, ng = len(p["bus"]), len(p["gen"])
    A = []
    for k in range(ng):
        A += [("gen_qinf", k, 1, 1), ("gen_qinf", k, 0, 1), ("gen_qinf", k, 1, 0), ("gen_dup", k), ("gen_off", k), ("gen_move", k, 0)]
    A += [("gen_qinf", ng, 1, 1), ("gen_q", ng, -10., 30.), ("bus_load", nb - 1, 15., -60.)]
    return A


def build(tier):
    if tier == "quick":
        st, n = explore(pf_alphabet, 2)
        st3, n3 = [], 0
    else:
        st, n = explore(pf_alphabet, 2)
        st3, n3 = explore(lambda p: pf_alphabet(p, False), 3)
    items = [{"base": b, "edits": tolist(h)} for b, h in st]
    seen = set((b, h) for b, h in st)
    items += [{"base": b, "edits": tolist(h)} for b, h in st3 if (b, h) not in seen]
    # units without reactive limits, alone and sharing a bus
    sti, ni = explore(qinf_alphabet, 3 if tier == "quick" else 4, bases=("b2", "b3") if tier == "quick" else ("b2", "b3", "b4"))
    seen = set((i["base"], canon(i["edits"])) for i in items)
    items += [{"base": b, "edits": tolist(h)} for b, h in sti if (b, canon(tolist(h))) not in seen]
    n += ni
    # shipped networks: every single-branch and single-unit outage
    import importlib
    ship = SHIPPED if tier == "thorough" else SHIPPED[:8]
    for c in ship:
        p = getattr(importlib.import_module("pypower." + c), c)()
        nl, ng = len(p["branch"]), len(p["gen"])
        step = 1 if tier == "thorough" or nl < 45 else 4
        items.append({"case": c, "edits": []})
        items += [{"case": c, "edits": [["br_off", k]]} for k in range(0, nl, step)]
        items += [{"case": c, "edits": [["gen_off", k]]} for k in range(0, ng, step)]
        items.append({"case": c, "edits": [["renum", "rev"]]})
    return items, {"states": len(items), "transitions": n + n3}


def get(item):
    if "case" in item:
        import importlib
        c = item["case"]
        p = getattr(importlib.import_module("pypower." + c), c)()
        for e in item["edits"]:
            apply(p, e)
        return p
    return build_state(item["base"], item["edits"])


def judge(r, key, p, res, ok, tol):
    """all clauses for a solution claimed successful"""
    from mc.phys import live_gens, live_branches, energised, effective_types
    base = p["baseMVA"]
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    B, G, L = res["bus"], res["gen"], res["branch"]
    if not (r.expect(B.shape[0] == nb and G.shape[0] == ng and L.shape[0] == nl, key + ":shape", "row counts changed")):
        return
    # input-only columns
    keep = [c for c in range(13) if c not in (VM, VA)]
    r.expect(np.array_equal(B[:, keep], p["bus"][:, keep]), key + ":businput", lambda: "bus input columns changed: %r vs %r" % (B[:, keep].tolist(), p["bus"][:, keep].tolist()))
    keep = [c for c in range(p["gen"].shape[1]) if c not in (PG, QG)]
    r.expect(np.array_equal(G[:, keep], p["gen"][:, keep]), key + ":geninput", "gen input columns changed")
    keep = [c for c in range(min(13, p["branch"].shape[1]))]
    r.expect(np.array_equal(L[:, keep], p["branch"][:, keep]), key + ":brinput", "branch input columns changed")
    on, lg, lb = energised(p), live_gens(p), live_branches(p)
    roles = effective_types(p)
    for i in range(ng):
        if i not in lg:
            r.expect(G[i, PG] == 0 and G[i, QG] == 0, key + ":goff", "offline unit %d reports %r" % (i, G[i, [PG, QG]].tolist()))
    for i in range(nl):
        if i not in lb:
            r.expect(np.all(L[i, PF:QT + 1] == 0), key + ":loff", "dead branch %d reports %r" % (i, L[i, PF:QT + 1].tolist()))
    for i in range(nb):
        b = int(p["bus"][i, BUS_I])
        if b not in on:
            r.expect(np.array_equal(B[i, :13], p["bus"][i, :13]), key + ":isol", "isolated bus row changed")
    q = dict(p)
    q["bus"], q["gen"], q["branch"] = B, G, L
    V = phys.volts(q)
    vg = {}
    for i in lg:
        vg.setdefault(int(p["gen"][i, GEN_BUS]), []).append(p["gen"][i, VG])
    for i in range(nb):
        b = int(p["bus"][i, BUS_I])
        if roles.get(b) in ("pv", "ref"):
            r.expect(min(abs(B[i, VM] - v) for v in vg[b]) < 1e-9, key + ":vset",
                     "regulated bus %d at %r, set points %r" % (b, B[i, VM], vg[b]))
        if roles.get(b) == "ref":
            d = (B[i, VA] - p["bus"][i, VA] + 180) % 360 - 180
            r.expect(abs(d) < 1e-9, key + ":refang", "reference angle moved %r" % d)
    # flows
    for i in lb:
        sf, st = phys.branch_flow(L[i], V, base)
        e = max(abs(complex(L[i, PF], L[i, QF]) - sf), abs(complex(L[i, PT], L[i, QT]) - st))
        r.expect(e < 1e-6 * (1 + abs(sf)), key + ":flow", "branch %d reported flow differs from circuit law by %g MVA" % (i, e))
    inj, spec = phys.injections(q, V), phys.spec_injection(q)
    for b in on:
        e = abs(inj[b] - spec[b])
        r.expect(e < base * tol * 2 + 1e-6, key + ":balance", "bus %d power imbalance %g MVA" % (b, e))
    # dispatch
    first = {}
    for i in lg:
        first.setdefault(int(p["gen"][i, GEN_BUS]), i)
    for i in lg:
        b = int(p["gen"][i, GEN_BUS])
        if not (roles[b] == "ref" and first[b] == i):
            r.expect(G[i, PG] == p["gen"][i, PG], key + ":pgset", "unit %d real output moved %r -> %r" % (i, p["gen"][i, PG], G[i, PG]))
    for b in set(int(p["gen"][i, GEN_BUS]) for i in lg):
        ii = [i for i in lg if int(p["gen"][i, GEN_BUS]) == b]
        if roles[b] == "pq":
            e = abs(sum(G[i, QG] for i in ii) - sum(p["gen"][i, QG] for i in ii))
            r.expect(e < base * tol * 2 + 1e-6, key + ":pqq", "bus %d fixed Q moved %g" % (b, e))
        if len(ii) > 1:
            tot = sum(G[i, QG] for i in ii)
            lo, hi = [p["gen"][i, QMIN] for i in ii], [p["gen"][i, QMAX] for i in ii]
            if not np.all(np.isfinite(lo + hi)):
                # no proportional share is defined; any split within the limits will do
                if sum(lo) <= tot <= sum(hi):
                    r.expect(all(a - 1e-6 <= G[i, QG] <= b + 1e-6 for i, a, b in zip(ii, lo, hi)), key + ":qsplitinf",
                             lambda: "bus %d reactive split %r outside limits %r %r" % (b, [G[i, QG] for i in ii], lo, hi))
                continue
            rng = [p["gen"][i, QMAX] - p["gen"][i, QMIN] for i in ii]
            if abs(sum(rng)) < 1e-9:
                want = [tot / len(ii)] * len(ii)
            else:
                want = [p["gen"][i, QMIN] + (tot - sum(p["gen"][j, QMIN] for j in ii)) / sum(rng) * w for i, w in zip(ii, rng)]
            e = max(abs(G[i, QG] - w) for i, w in zip(ii, want))
            r.expect(e < 1e-6, key + ":qsplit", "bus %d reactive split %r expected %r" % (b, [G[i, QG] for i in ii], want))


def run(item):
    r = Result()
    p = get(item)
    roles = phys.effective_types(p)
    key0 = "%s:%s" % (item.get("base", item.get("case")), ";".join("_".join(map(str, e)) for e in item["edits"]))
    r.states.add(canon(p))
    if roles is None:
        r.tag("no_reference_possible")
        return r
    comps = phys.components(p)
    connected = all(any(roles[b] == "ref" for b in c) for c in comps)
    refok = None
    if "base" in item:
        refok = connected and phys.newton_reference(p, roles, maxit=9)[0]
    for alg in (1, 2, 3, 4):
        if alg == 4 and "case" in item and len(p["bus"]) > 15 and item["edits"]:
            continue
        key = "alg%d:%s" % (alg, key0)
        r.evals += 1
        try:
            res, ok = api.pf(p, PF_ALG=alg)
        except Exception:
            if not connected or alg in (2, 3):
                # a singular decoupled factorisation is not an answer at all (see C02)
                if not connected or len([b for b in roles if roles[b] == "pq"]) == 0 or refok is False:
                    r.tag("raised_unsolvable")
                    continue
            raise
        if not ok:
            r.tag("alg%d_reported_failure" % alg)
            if alg == 1 and refok:
                r.bad(key + ":nosolve", "reference Newton solves this case, power flow reported failure")
            continue
        r.tag("alg%d_success" % alg)
        r.validated += 1
        judge(r, key, p, res, ok, 1e-8)
        if r.sample is None:
            r.sample = {"item": item, "alg": alg, "bus_V": [[float(x) for x in row] for row in res["bus"][:, [BUS_I, VM, VA]]][:4],
                        "gen_PQ": [[float(x) for x in row] for row in res["gen"][:, [GEN_BUS, PG, QG]]][:4]}
    return r
