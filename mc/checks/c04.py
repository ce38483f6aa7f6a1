"""C04: enforcing reactive limits yields a limit-respecting, truthful solution."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import phys, api
from mc.checks import c01

PROP = "C04"
LEVEL = "model_checking"
RULE = ("states: every assignment of reactive ranges (free / binding above / binding below / fixed / tiny) to the units of 5 small "
        "networks x network edit x enforcement mode x algorithm. Each real run is compared with a reference model of the documented "
        "conversion loop (its PV/PQ conversion sequence is the trace) and every clause is judged. Non-trivial: a limit is violated "
        "by the plain power flow")
ASSUMPTIONS = ["ranges come from a 5-letter alphabet placed around the unconstrained solution"]


def n3():
    p = b3(); p["bus"][2, BUS_TYPE] = 2
    p["gen"] = np.vstack([p["gen"], gen(11, 20., vg=1.0, pmax=90.)])
    p["gencost"] = np.vstack([p["gencost"], p["gencost"][1]])
    return p


def n4():
    p = b4(); p["bus"][3, BUS_TYPE] = 2
    p["gen"] = np.vstack([p["gen"], gen(4, 12., vg=1.01, pmax=50.)])
    p["gencost"] = np.vstack([p["gencost"], p["gencost"][1]])
    return p


def n4b():
    """two units at a PV bus, one at a load bus, unsorted rows"""
    p = b4()
    p["gen"] = np.vstack([gen(2, 20., vg=1.02, pmax=90.), p["gen"], gen(7, 5., 3., vg=1.0, pmax=40.)])
    p["gencost"] = np.vstack([p["gencost"], p["gencost"][:2]])
    return p


NETS = {"b3": b3, "n3": n3, "n4": n4, "n4b": n4b, "b4": b4}
LET = "fhlzt"     # free, binding high, binding low, zero range, tight band around the free value


def edits(p):
    E = [(), (("gen_off", len(p["gen"]) - 1),), (("br_shift", 0, 8.),), (("renum", "odd"),), (("bus_load", 2, 60., 45.),), (("gen_off", 0),)]
    return E


def build(tier):
    items = []
    for net in NETS:
        p = NETS[net]()
        ng = len(p["gen"])
        let = LET if (ng <= 3 or tier == "thorough") else "fhlt"
        for e in edits(p):
            if e and tier == "quick" and ng > 4 and e[0][0] != "gen_off":
                continue
            lt = let if not e or ng <= 3 or tier == "thorough" else "fhl"
            for rng in itertools.product(lt, repeat=ng):
                items.append({"net": net, "edits": tolist(e), "rng": "".join(rng)})
    return items


def make(item):
    p = NETS[item["net"]]()
    for e in item["edits"]:
        apply(p, e)
    p["gen"][:, QMIN], p["gen"][:, QMAX] = -300., 300.
    res, ok = api.pf(p)
    if not ok:
        return None
    for i, c in enumerate(item["rng"]):
        q = res["gen"][i, QG] if p["gen"][i, GEN_STATUS] > 0 else 10.
        lo, hi = {"f": (q - 60., q + 70.), "h": (q - 40., q - 3.), "l": (q + 4., q + 40.), "z": (q + 2., q + 2.),
                  "t": (q - .5, q + .75)}[c]
        p["gen"][i, QMIN], p["gen"][i, QMAX] = round(lo, 3), round(hi, 3)
    return p


def split_q(p, on, V, Y, order):
    """bus reactive injection -> unit reactive outputs (equal, then in proportion to range)"""
    pos = {b: i for i, b in enumerate(order)}
    vv = np.array([V[b] for b in order])
    S = vv * np.conj(Y.dot(vv)) * p["baseMVA"]
    out = {}
    for b in order:
        ii = [i for i in on if int(p["gen"][i, GEN_BUS]) == b]
        if not ii:
            continue
        row = [x for x in p["bus"] if int(x[BUS_I]) == b][0]
        tot = S[pos[b]].imag + row[QD]
        R = sum(p["gen"][i, QMAX] - p["gen"][i, QMIN] for i in ii)
        for i in ii:
            if abs(R) < 1e-12:
                out[i] = tot / len(ii)
            else:
                out[i] = p["gen"][i, QMIN] + (tot - sum(p["gen"][j, QMIN] for j in ii)) / R * (p["gen"][i, QMAX] - p["gen"][i, QMIN])
    return out, {b: S[pos[b]].real for b in order}


def reference(p, mode, viol=5e-6):
    """model of the documented loop -> (outcome, V, steps, fragile)"""
    p = api.clone(p)
    order = [int(b) for b in p["bus"][:, BUS_I]]
    Y = phys.ybus_dense(p, order)
    rows = {int(x[BUS_I]): k for k, x in enumerate(p["bus"])}
    roles0 = phys.effective_types(p)
    ref0 = [b for b in roles0 if roles0[b] == "ref"][0]
    va0 = p["bus"][rows[ref0], VA]
    work = api.clone(p)
    steps, fragile = [], False
    internal = lambda i: (order.index(int(p["gen"][i, GEN_BUS])), i)
    while True:
        roles = phys.effective_types(work)
        if roles is None:
            return "fail", None, steps, fragile
        ok, V, it = phys.newton_reference(work, roles, maxit=10)
        if not ok:
            return "diverge", None, steps, True
        on = sorted(phys.live_gens(work), key=internal)
        q, preal = split_q(work, on, V, Y, order)
        ref = [b for b in roles if roles[b] == "ref"][0]
        rg = [i for i in on if int(p["gen"][i, GEN_BUS]) == ref]
        work["gen"][rg[0], PG] = preal[ref] + work["bus"][rows[ref], PD] - sum(work["gen"][i, PG] for i in rg[1:])
        over = {i: q[i] - work["gen"][i, QMAX] for i in on}
        under = {i: work["gen"][i, QMIN] - q[i] for i in on}
        for i in on:
            if 1e-7 < over[i] < 1e-4 or 1e-7 < under[i] < 1e-4:
                fragile = True
        mx = [i for i in on if over[i] > viol]
        mn = [i for i in on if under[i] > viol]
        if not mx and not mn:
            work["gen"][:, QG] = [q.get(i, work["gen"][i, QG]) for i in range(len(work["gen"]))]
            d = va0 - np.degrees(np.angle(V[ref0]))
            return "ok", {b: V[b] * np.exp(1j * np.radians(d)) for b in V}, steps, fragile
        bad = set(int(p["gen"][i, GEN_BUS]) for i in mx + mn)
        reg = set(int(p["gen"][i, GEN_BUS]) for i in on if work["bus"][rows[int(p["gen"][i, GEN_BUS])], BUS_TYPE] in (2, 3))
        if reg <= bad:
            return "fail", None, steps, fragile
        if mode == 2:
            c = [(over[i], i) for i in mx] + [(under[i], i) for i in mn]
            m = max(c)[0]
            if sum(1 for x in c if abs(x[0] - m) < 1e-5) > 1:
                fragile = True
            k = [i for x, i in c if x == m][0]
            mx = [k] if k in mx else []
            mn = [] if mx else [k]
        for i in mx + mn:
            lim = work["gen"][i, QMAX] if i in mx else work["gen"][i, QMIN]
            b = int(p["gen"][i, GEN_BUS])
            work["gen"][i, GEN_STATUS] = 0
            work["bus"][rows[b], PD] -= work["gen"][i, PG]
            work["bus"][rows[b], QD] -= lim
            work["bus"][rows[b], BUS_TYPE] = 1
            steps.append((i, float(lim)))
        # a load bus keeps the output its remaining units had
        for i in on:
            if i not in mx + mn:
                work["gen"][i, QG] = q[i]


def run(item):
    r = Result()
    p = make(item)
    if p is None:
        r.tag("skip"); return r
    r.states.add(canon(p))
    roles0 = phys.effective_types(p)
    refs = [b for b in roles0 if roles0[b] == "ref"]
    plain, pok = api.pf(p)
    lg = phys.live_gens(p)
    viol = {i: max(plain["gen"][i, QG] - p["gen"][i, QMAX], p["gen"][i, QMIN] - plain["gen"][i, QG]) for i in lg}
    regs = [i for i in lg if roles0[int(p["gen"][i, GEN_BUS])] != "pq"]
    for mode in (1, 2):
        for alg in (1, 2):
            key = "mode%d:alg%d:%s:%s:%s" % (mode, alg, item["net"], ";".join("_".join(map(str, e)) for e in item["edits"]), item["rng"])
            q = api.clone(p)
            r.evals += 1
            res, ok = api.pf(q, ENFORCE_Q_LIMS=mode, PF_ALG=alg)
            out, V, steps, fragile = reference(p, mode)
            r.transitions += len(steps) + 1
            r.tag("mode%d_%s_%dsteps" % (mode, out, min(len(steps), 3)))
            if not fragile and out != "diverge":
                r.expect(bool(ok) == (out == "ok"), key + ":outcome", "reference model says %s, power flow success=%r" % (out, ok))
            if pok and all(viol[i] > 1e-3 for i in regs):
                r.expect(not ok, key + ":allviol", "every regulating unit violates but success reported")
            if not ok:
                continue
            r.validated += 1
            if max(viol.values()) < -1e-4 and pok:
                for m in ("bus", "gen", "branch"):
                    r.expect(np.allclose(res[m], plain[m], atol=2e-5, rtol=0), key + ":plain", "%s differs from plain power flow though no limit binds" % m)
            if r.sample is None and steps:
                r.sample = {"item": item, "mode": mode, "conversions": steps, "Qg": [float(x) for x in res["gen"][:, QG]]}
            # soundness clauses
            B, G, L = res["bus"], res["gen"], res["branch"]
            keep = [c for c in range(13) if c not in (VM, VA, BUS_TYPE)]
            r.expect(np.allclose(B[:, keep], p["bus"][:, keep], atol=1e-9, rtol=0), key + ":loads", "bus data changed")
            keep = [c for c in range(p["gen"].shape[1]) if c not in (PG, QG)]
            r.expect(np.array_equal(G[:, keep], p["gen"][:, keep]), key + ":gendata", "unit data or status changed")
            qd = dict(p); qd["bus"], qd["gen"], qd["branch"] = B, G, L
            V1 = phys.volts(qd)
            inj, spec = phys.injections(qd, V1), phys.spec_injection(qd)
            on = phys.energised(p)
            for b in on:
                r.expect(abs(inj[b] - spec[b]) < 1e-5, key + ":balance", "bus %d imbalance %g" % (b, abs(inj[b] - spec[b])))
            for i in phys.live_branches(p):
                sf, st = phys.branch_flow(L[i], V1, p["baseMVA"])
                r.expect(abs(complex(L[i, PF], L[i, QF]) - sf) + abs(complex(L[i, PT], L[i, QT]) - st) < 1e-6, key + ":flow", "branch %d flow" % i)
            limited_bus = set()
            atlim = set()
            for i in lg:
                lo, hi, qq = p["gen"][i, QMIN], p["gen"][i, QMAX], G[i, QG]
                r.expect(lo - 1e-5 <= qq <= hi + 1e-5, key + ":limit", "unit %d Q=%r outside [%r,%r]" % (i, qq, lo, hi))
                if qq == lo or qq == hi:
                    atlim.add(i); limited_bus.add(int(p["gen"][i, GEN_BUS]))
            for i, x in enumerate(B):
                b = int(x[BUS_I])
                if b in on and roles0[b] != "pq" and b not in limited_bus:
                    vs = [p["gen"][j, VG] for j in lg if int(p["gen"][j, GEN_BUS]) == b]
                    r.expect(min(abs(x[VM] - v) for v in vs) < 1e-9, key + ":vset", "bus %d not at set point though no unit there is at a limit" % b)
                if b in refs:
                    d = (x[VA] - p["bus"][i, VA] + 180) % 360 - 180
                    r.expect(abs(d) < 1e-8, key + ":refang", "original reference angle moved by %g" % d)
            refbus = refs[0]
            moved = [i for i in lg if abs(G[i, PG] - p["gen"][i, PG]) > 1e-9]
            slackfirst = [i for i in lg if int(p["gen"][i, GEN_BUS]) == refbus][0]
            others = [i for i in moved if i != slackfirst]
            if refbus not in limited_bus:
                r.expect(not others, key + ":pgset", "real output of units %r moved though the slack is not limited" % others)
            else:
                nref = [int(x[BUS_I]) for x in B if x[BUS_TYPE] == 3]
                r.expect(all(int(p["gen"][i, GEN_BUS]) in nref or int(p["gen"][i, GEN_BUS]) in limited_bus for i in others), key + ":pgset2",
                         "real output of units %r moved, slack now at %r" % (others, nref))
            for i in range(len(G)):
                if i not in lg:
                    r.expect(G[i, PG] == 0 and G[i, QG] == 0, key + ":goff", "offline unit reports output")
            if out == "ok" and not fragile:
                e = max(abs(V[b] - V1[b]) for b in on)
                r.expect(e < 1e-5, key + ":model", "solution differs from the reference conversion model by %g p.u. (steps %r)" % (e, steps))
    return r
