"""C13: shift factors predict DC flows and outages exactly."""
import itertools, importlib
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import phys, api
from mc.checks.c10 import internal, dense

PROP = "C13"
LEVEL = "model_checking"
RULE = ("states: every edited network (full edit alphabet of statuses, taps, phase shifts, parallels, row orders, unit placement) that is "
        "connected; in each, PTDF for every slack bus, several slack distributions and a full slack matrix, and LODF for every outage that "
        "keeps the network connected, against flows re-solved with dense linear algebra; DC power flows of the tree under test are re-run "
        "with every injection change and every outage in the depth-1 states. Non-trivial: networks with a loop")
ASSUMPTIONS = ["connected network; outages that island part of it are excluded"]
SHIPPED = ["case4gs", "case6ww", "case9", "case14", "case24_ieee_rts", "case30", "case39"]


def alphabet(p):
    A = [e for e in pf_alphabet(p) if e[0] not in ("gen_off", "gen_neg", "gen_p", "gen_q", "gen_vset", "gen_dup", "bus_load", "bus_v", "disp", "br_b", "br_r0")]
    A = [e for e in A if not (e[0] == "bus_type" and e[2] in (4,)) and e[0] != "renum"]
    n = len(p["bus"])
    return A + [("line_new", i, j) for i in range(n) for j in range(n) if i != j] + [("bus_load", 0, 60., 0.)]


def build(tier):
    st, nt = explore(alphabet, 2 if tier == "quick" else 3, bases=("b2", "b3", "b4") if tier == "quick" else ("b3", "b4"))
    items = [{"base": b, "edits": tolist(h), "run": len(h) <= 1} for b, h in st]
    items += [{"case": c, "edits": [], "run": c in ("case6ww", "case9")} for c in SHIPPED]
    return items, {"transitions": nt}


def dcnet(branch, nb):
    """nodal susceptance matrix and branch rows (per unit), one branch at a time"""
    L = np.zeros((nb, nb)); R = np.zeros((len(branch), nb))
    for k, row in enumerate(branch):
        if row[BR_STATUS] == 0:
            continue
        b = 1. / (row[BR_X] * (row[TAP] if row[TAP] != 0 else 1.))
        f, t = int(row[0]), int(row[1])
        R[k, f] += b; R[k, t] -= b
        L[f] += R[k]; L[t] -= R[k]
    return L, R


def connected(branch, nb):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for row in branch:
            if row[BR_STATUS] != 0 and a in (int(row[0]), int(row[1])):
                b = int(row[0] + row[1]) - a
                if b not in seen:
                    seen.add(b); todo.append(b)
    return len(seen) == nb


def flows(L, R, inj):
    """flows for balanced injection columns"""
    return R.dot(np.linalg.lstsq(L, inj, rcond=None)[0])


def run(item):
    from pypower.makePTDF import makePTDF
    from pypower.makeLODF import makeLODF
    r = Result()
    if "case" in item:
        p = getattr(importlib.import_module("pypower." + item["case"]), item["case"])()
        for k in ("bus", "gen", "branch"):
            p[k] = np.array(p[k], float)
        p = internal(p)
    else:
        p = internal(build_state(item["base"], item["edits"]))
    p.pop("areas", None)
    key = "%s:%s:" % (item.get("base", item.get("case")), item["edits"])
    nb, nl = len(p["bus"]), len(p["branch"])
    if not connected(p["branch"], nb):
        r.tag("disconnected"); return r
    r.states.add(canon(p))
    L, R = dcnet(p["branch"], nb)
    E = np.eye(nb)
    refs = [i for i in range(nb) if p["bus"][i, BUS_TYPE] == REFT]
    wl = np.abs(p["bus"][:, PD]) + 1.; ws = np.arange(1., nb + 1); wg = wl.copy(); wg[0] = -.4 * wl[1:].sum()
    slacks = [("bus%d" % i, i, E[:, [i]]) for i in range(nb)] + [("np%d" % (nb - 1), np.int64(nb - 1), E[:, [nb - 1]])]
    if len(refs) == 1:
        slacks.append(("default", None, E[:, [refs[0]]]))
    slacks += [("uniform", np.ones(nb), np.ones((nb, 1)) / nb), ("load", wl / wl.sum(), (wl / wl.sum())[:, None]), ("skew", ws, (ws / ws.sum())[:, None]),
               ("signed", wg.copy(), (wg / wg.sum())[:, None]),
               ("onehot", E[nb - 1].copy(), E[:, [nb - 1]]), ("int", np.arange(nb) + 1, (ws / ws.sum())[:, None]),
               ("column", (wl / wl.sum())[:, None].copy(), (wl / wl.sum())[:, None])]
    if nb > 12:
        slacks = slacks[:3] + slacks[nb:]
    # full matrix: column j gives the balanced injection pattern for bus j
    M = E - np.tile((wl / wl.sum())[:, None], (1, nb)); M[:, 0] = E[:, 0] - E[:, nb - 1]
    slacks.append(("matrix", M.copy(), None))
    b0, br0 = p["bus"].copy(), p["branch"].copy()
    ptdf = {}
    for name, s, w in slacks:
        s0 = None if s is None or np.isscalar(s) else s.copy()
        H = np.asarray(dense(makePTDF(p["baseMVA"], p["bus"], p["branch"], s) if s is not None else makePTDF(p["baseMVA"], p["bus"], p["branch"])))
        r.evals += 1
        ref = flows(L, R, E - w if w is not None else M)
        if not r.expect(H.shape == ref.shape, key + "ptdf:%s:shape" % name, "PTDF has shape %s" % (H.shape,)):
            continue
        e = np.abs(H - ref)
        r.expect(np.isfinite(H).all() and e.max() < 1e-8, key + "ptdf:" + name, lambda: "PTDF[%s] is %g, re-solved flow change %g (slack %s)" % (
            np.unravel_index(e.argmax(), e.shape), H.flat[e.argmax()], ref.flat[e.argmax()], name))
        if s0 is not None:
            r.expect(np.array_equal(s, s0), key + "ptdf:%s:mutated" % name, "slack vector modified")
        ptdf[name] = H
    r.transitions += len(slacks)
    # LODF
    outs = []
    for k in range(nl):
        if p["branch"][k, BR_STATUS] == 0:
            continue
        b = p["branch"].copy(); b[k, BR_STATUS] = 0
        if connected(b, nb):
            outs.append((k, b))
    f, t = p["branch"][:, 0].astype(int), p["branch"][:, 1].astype(int)
    for name in ("bus0", "bus%d" % (nb - 1), "load", "uniform") if nb <= 12 else ("bus0", "load"):
        if name not in ptdf:
            continue
        H0 = ptdf[name].copy()
        D = np.asarray(dense(makeLODF(p["branch"], ptdf[name])))
        r.evals += 1
        if not r.expect(D.shape == (nl, nl), key + "lodf:shape", "LODF has shape %s" % (D.shape,)):
            continue
        r.expect(np.array_equal(H0, ptdf[name]), key + "lodf:mutated", "PTDF modified")
        for k, b in outs:
            L2, R2 = dcnet(b, nb)
            inj = E[:, [f[k]]] - E[:, [t[k]]]
            F, F2 = flows(L, R, inj)[:, 0], flows(L2, R2, inj)[:, 0]
            ref = (F2 - F) / F[k]; ref[k] = -1.
            e = np.abs(D[:, k] - ref)
            r.expect(np.isfinite(D[:, k]).all() and e.max() < 1e-7, key + "lodf:%s:%d" % (name, k),
                     lambda: "LODF[%d, %d] is %g, re-solved change %g" % (e.argmax(), k, D[e.argmax(), k], ref[e.argmax()]))
    r.tag("outages_%s" % ("0" if not outs else "some"))
    r.validated += 1
    r.expect(np.array_equal(b0, p["bus"]) and np.array_equal(br0, p["branch"]), key + "mutated", "inputs modified")
    # DC power flows of the tree itself
    roles = phys.effective_types(p)
    if item["run"] and roles and list(roles.values()).count("ref") == 1 and len(refs) == 1 and roles[refs[0]] == "ref":
        base, ok = api.dcpf(p)
        r.evals += 1
        F = base["branch"][:, PF]
        D = np.asarray(dense(makeLODF(p["branch"], ptdf["default"])))
        for i in range(nb):
            q = api.clone(p); q["bus"][i, PD] -= 10.
            res, ok = api.dcpf(q); r.evals += 1
            e = np.abs(res["branch"][:, PF] - F - 10. * ptdf["default"][:, i])
            r.expect(e.max() < 1e-6, key + "dcpf:inj%d" % i, lambda: "flow change of branch %d differs from PTDF prediction by %g" % (e.argmax(), e.max()))
        for k, b in outs:
            q = api.clone(p); q["branch"] = b.copy()
            res, ok = api.dcpf(q); r.evals += 1
            d = res["branch"][:, PF] - F
            e = np.abs(d - D[:, k] * F[k])
            r.expect(e.max() < 1e-6, key + "dcpf:out%d" % k, lambda: "flow change of branch %d differs from LODF prediction by %g" % (e.argmax(), e.max()))
        r.tag("dcpf_replayed")
    return r
