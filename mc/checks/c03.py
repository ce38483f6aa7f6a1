"""C03: DC power flow solves the linearised network exactly."""
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import phys, api

PROP = "C03"
LEVEL = "model_checking"
RULE = ("states: every case reached from 3 base networks by all sequences of at most d elementary edits; the real DC power "
        "flow is run in each and every clause is evaluated against branch-by-branch linear flow laws. Non-trivial: the "
        "network is connected to a reference so a solution exists")
ASSUMPTIONS = ["numeric values come from the finite edit alphabet; networks have 2-4 buses (plus shipped cases)"]
SHIPPED = ["case4gs", "case6ww", "case9", "case14", "case24_ieee_rts", "case30", "case39", "case57", "case118", "case300"]


def build(tier):
    st, n = explore(pf_alphabet, 2)
    if tier == "thorough":
        st3, n3 = explore(lambda p: pf_alphabet(p, False), 3)
        seen = set(st)
        st = st + [s for s in st3 if s not in seen]
        n += n3
    items = [{"base": b, "edits": tolist(h)} for b, h in st]
    import importlib
    for c in SHIPPED:
        p = getattr(importlib.import_module("pypower." + c), c)()
        items.append({"case": c, "edits": []})
        step = 1 if tier == "thorough" else max(1, len(p["branch"]) // 40)
        items += [{"case": c, "edits": [["br_off", k]]} for k in range(0, len(p["branch"]), step)]
        items += [{"case": c, "edits": [["gen_off", k]]} for k in range(0, len(p["gen"]), step)]
    return items, {"transitions": n}


def get(item):
    if "case" in item:
        import importlib
        c = item["case"]
        p = getattr(importlib.import_module("pypower." + c), c)()
        for k in ("bus", "gen", "branch"):
            p[k] = np.array(p[k], float)
        for e in item["edits"]:
            apply(p, e)
        return p
    return build_state(item["base"], item["edits"])


def run(item):
    r = Result()
    p = get(item)
    roles = phys.effective_types(p)
    key = "%s:%s" % (item.get("base", item.get("case")), ";".join("_".join(map(str, e)) for e in item["edits"]))
    r.states.add(canon(p))
    if roles is None:
        r.tag("no_reference_possible")
        return r
    connected = all(any(roles[b] == "ref" for b in c) for c in phys.components(p))
    r.evals += 1
    if not connected:
        try:
            api.dcpf(p)
        except (RuntimeError, ValueError, ZeroDivisionError):
            pass
        r.tag("islanded")
        return r
    res, ok = api.dcpf(p)
    r.expect(bool(ok), key + ":ok", "no success on a connected network")
    r.tag("solved"); r.validated += 1
    base = p["baseMVA"]
    B, G, L = res["bus"], res["gen"], res["branch"]
    if not r.expect(B.shape[0] == len(p["bus"]) and G.shape[0] == len(p["gen"]) and L.shape[0] == len(p["branch"]), key + ":shape", "row counts changed"):
        return r
    keep = [c for c in range(13) if c not in (VM, VA)]
    r.expect(np.array_equal(B[:, keep], p["bus"][:, keep]), key + ":businput", "bus input columns changed")
    keep = [c for c in range(p["gen"].shape[1]) if c not in (PG, QG)]
    r.expect(np.array_equal(G[:, keep], p["gen"][:, keep]), key + ":geninput", "gen input columns changed")
    nc = min(13, p["branch"].shape[1])
    r.expect(np.array_equal(L[:, :nc], p["branch"][:, :nc]), key + ":brinput", "branch input columns changed")
    on, lg, lb = phys.energised(p), phys.live_gens(p), phys.live_branches(p)
    va = {int(x[BUS_I]): np.radians(x[VA]) for x in B}
    for i, x in enumerate(B):
        b = int(x[BUS_I])
        if b in on:
            r.expect(x[VM] == 1.0, key + ":vm", "magnitude %r at bus %d" % (x[VM], b))
            if roles[b] == "ref":
                r.expect(abs(x[VA] - p["bus"][i, VA]) < 1e-9, key + ":refang", "reference angle moved")
        else:
            r.expect(np.array_equal(x[:13], p["bus"][i, :13]), key + ":isol", "isolated bus row changed")
    out = {b: 0. for b in on}
    for i in range(len(L)):
        if i not in lb:
            r.expect(np.all(L[i, PF:QT + 1] == 0), key + ":loff", "dead branch %d reports flow" % i)
            continue
        x = L[i]
        f, t = int(x[F_BUS]), int(x[T_BUS])
        tap = x[TAP] if x[TAP] != 0 else 1.
        want = (va[f] - va[t] - np.radians(x[SHIFT])) / (x[BR_X] * tap) * base
        r.expect(abs(x[PF] - want) < 1e-7 * (1 + abs(want)), key + ":flow", "branch %d flow %r, law gives %r" % (i, x[PF], want))
        r.expect(x[PT] == -x[PF], key + ":lossless", "branch %d to-end flow %r, from-end %r" % (i, x[PT], x[PF]))
        r.expect(x[QF] == 0 and x[QT] == 0, key + ":q", "branch %d reactive flow nonzero" % i)
        out[f] += want; out[t] -= want
    net = {int(x[BUS_I]): -x[PD] - x[GS] for x in p["bus"] if int(x[BUS_I]) in on}
    first = {}
    for i in range(len(G)):
        if i in lg:
            b = int(G[i, GEN_BUS])
            net[b] += G[i, PG]
            first.setdefault(b, i)
            if not (roles[b] == "ref" and first[b] == i):
                r.expect(G[i, PG] == p["gen"][i, PG], key + ":pgset", "unit %d output moved %r -> %r" % (i, p["gen"][i, PG], G[i, PG]))
        else:
            r.expect(G[i, PG] == 0 and G[i, QG] == 0, key + ":goff", "offline unit %d reports output" % i)
    for b in on:
        r.expect(abs(out[b] - net[b]) < 1e-6 * (1 + abs(net[b])), key + ":balance", "bus %d imbalance %g" % (b, out[b] - net[b]))
    if r.sample is None:
        r.sample = {"item": item, "Va": [float(x) for x in B[:5, VA]], "Pf": [float(x) for x in L[:5, PF]]}
    return r
