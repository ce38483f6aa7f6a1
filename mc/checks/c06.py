"""C06: results do not depend on how the case is written down."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import phys, api

PROP = "C06"
LEVEL = "model_checking"
RULE = ("states: every way of writing a case reached from a base description by sequences of equivalence-preserving rewrites (all "
        "bus/unit/branch row permutations, renumberings, line reversal, explicit nominal tap, system base, deletion of dead "
        "elements); every analysis is run on every state and element-wise compared with the base description. Non-trivial: the "
        "rewrite changed the case data and the analysis succeeded")
ASSUMPTIONS = ["reactive output of units sharing a bus is compared per bus (its split among them is not unique in OPF); slack power is "
               "compared per bus (assigned to the first unit by definition)"]


def with_off():
    """b4 with dead elements of every kind and an isolated bus carrying a unit, a line and a load"""
    p = b4()
    p["bus"] = np.vstack([p["bus"][:2], bus(33, 4, 44., 11.), p["bus"][2:]])
    p["gen"] = np.vstack([p["gen"][:1], gen(33, 30.), p["gen"][1:2], gen(7, 22., status=0), p["gen"][2:]])
    c = p["gencost"]
    p["gencost"] = np.vstack([c[:1], [[2, 0, 0, 3, .5, 1., 7.]], c[1:2], [[2, 0, 0, 3, .7, 2., 9.]], c[2:]])
    p["branch"] = np.vstack([br(33, 9, .01, .1), p["branch"][:2], br(7, 4, .02, .11, st=0), p["branch"][2:]])
    for b in (1,):
        p["branch"][b + 1, RATE_A] = 40.
    p["branch"][4, RATE_A] = 13.            # binding
    return p


def b3l():
    p = b3()
    p["branch"][1, RATE_A] = 21.            # binding
    p["bus"][:, VMAX] = 1.06; p["bus"][:, VMIN] = .95
    p["gencost"][1, 4] = .02
    return p


def b4s():
    p = b4()
    p["branch"][1, SHIFT] = 4.
    p["branch"][0, RATE_A] = 50.
    p["branch"][1, RATE_A] = 20.            # binding
    p["branch"][2, ANGMIN] = -10.
    p["branch"][2, ANGMAX] = -.5
    return p


def mixed():
    """piecewise and polynomial costs, dispatchable load, reactive costs and a dead unit"""
    p = b3l()
    p["branch"][1, RATE_A] = 30.
    p["gen"] = np.vstack([gen(11, 10., status=0), p["gen"], gen(11, -10., -3., 0., -3., 1., 1, 0., -10.)])
    pc = [[2, 0, 0, 3, .3, 2., 1., 0], [1, 0, 0, 2, 0, 0, 100., 900.], [2, 0, 0, 3, .03, 12., 10., 0], [2, 0, 0, 2, 30., 0, 0, 0]]
    qc = [[2, 0, 0, 3, .1, 0., 0., 0], [2, 0, 0, 3, .02, 0., 0., 0], [2, 0, 0, 3, .03, 0., 0., 0], [2, 0, 0, 2, 0., 0, 0, 0]]
    p["gencost"] = np.array(pc + qc, float)
    return p


NETS = {"b3l": b3l, "b4s": b4s, "off": with_off, "mixed": mixed}


class W(object):
    """a written-down case plus the identity of each row"""
    def __init__(self, p):
        self.p = p
        self.bid = list(range(len(p["bus"]))); self.gid = list(range(len(p["gen"]))); self.lid = [(i, 1) for i in range(len(p["branch"]))]

    def gc(self, order):
        c = self.p["gencost"]; n = len(self.gid)
        rows = list(order) + ([n + i for i in order] if len(c) == 2 * n else [])
        self.p["gencost"] = c[rows]

    def do(self, e):
        p, op, a = self.p, e[0], e[1:]
        if op == "pb":
            p["bus"] = p["bus"][list(a[0])]; self.bid = [self.bid[i] for i in a[0]]
        elif op == "pg":
            self.gc(a[0]); p["gen"] = p["gen"][list(a[0])]; self.gid = [self.gid[i] for i in a[0]]
        elif op == "pl":
            p["branch"] = p["branch"][list(a[0])]; self.lid = [self.lid[i] for i in a[0]]
        elif op == "renum":
            apply(p, ("renum", a[0]))
        elif op == "rev":
            k = a[0]
            x = p["branch"][k]
            if x[TAP] != 0 or x[SHIFT] != 0:
                return False
            x[[F_BUS, T_BUS]] = x[[T_BUS, F_BUS]]; x[[ANGMIN, ANGMAX]] = -x[[ANGMAX, ANGMIN]]
            self.lid[k] = (self.lid[k][0], -self.lid[k][1])
        elif op == "tap1":
            k = a[0]
            if p["branch"][k, TAP] != 0:
                return False
            p["branch"][k, TAP] = 1.
        elif op == "base":
            s = a[0] / p["baseMVA"]; p["baseMVA"] = a[0]
            p["branch"][:, [BR_R, BR_X]] *= s; p["branch"][:, BR_B] /= s
        elif op == "drop":
            on = phys.energised(p)
            lg, ll = phys.live_gens(p), phys.live_branches(p)
            kb = [i for i in range(len(p["bus"])) if int(p["bus"][i, 0]) in on]
            if len(kb) == len(p["bus"]) and len(lg) == len(p["gen"]) and len(ll) == len(p["branch"]):
                return False
            kind = a[0]
            if kind in ("gen", "all", "bus"):
                g = lg if kind != "bus" else [i for i in range(len(p["gen"])) if int(p["gen"][i, 0]) in on]
                self.gc(g); p["gen"] = p["gen"][g]; self.gid = [self.gid[i] for i in g]
            if kind in ("branch", "all", "bus"):
                l = ll if kind != "bus" else [i for i in range(len(p["branch"])) if int(p["branch"][i, 0]) in on and int(p["branch"][i, 1]) in on]
                p["branch"] = p["branch"][l]; self.lid = [self.lid[i] for i in l]
            if kind in ("bus", "all"):
                p["bus"] = p["bus"][kb]; self.bid = [self.bid[i] for i in kb]
                p["areas"] = p["areas"][[i for i in range(len(p["areas"])) if int(p["areas"][i, 1]) in on]]
                if len(p["areas"]) == 0:
                    del p["areas"]
        return True


def rewrites(p, full):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    E = [("renum", k) for k in ("seq", "rev", "odd")]

    def perms(n):
        if full or n <= 3:
            return [q for q in itertools.permutations(range(n)) if list(q) != list(range(n))]
        out = []
        for i in range(n):                       # all transpositions and rotations
            for j in range(i):
                q = list(range(n)); q[i], q[j] = q[j], q[i]; out.append(tuple(q))
        for k in range(1, n):
            out.append(tuple((i + k) % n for i in range(n)))
        out.append(tuple(range(n))[::-1])
        return sorted(set(out))
    E += [("pb", q) for q in perms(nb)] + [("pg", q) for q in perms(ng)] + [("pl", q) for q in perms(nl)]
    E += [("rev", k) for k in range(nl)] + [("tap1", k) for k in range(nl)] + [("base", 50.), ("base", 10.), ("base", 250.)]
    E += [("drop", k) for k in ("gen", "branch", "bus", "all")]
    return E


def build(tier):
    items, nt = [], 0
    for net in NETS:
        p = NETS[net]()
        E = rewrites(p, tier == "thorough" or net != "off")
        S = [e for e in rewrites(p, False)]
        seqs = [(e,) for e in E]
        # pairs and triples: sequences over a thinned alphabet
        nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
        rev = lambda n: tuple(range(n))[::-1]
        rot = lambda n: tuple((i + 1) % n for i in range(n))
        core = [("renum", "rev"), ("renum", "odd"), ("pb", rev(nb)), ("pb", rot(nb)), ("pg", rev(ng)), ("pg", rot(ng)), ("pl", rev(nl)), ("pl", rot(nl)),
                ("base", 50.)] + [("rev", k) for k in range(nl)] + [("drop", "all"), ("drop", "bus")]
        for a in core:
            for b in core:
                if a[0] != b[0] or a[0] in ("rev",) and a != b:
                    seqs.append((a, b))
        if tier == "thorough":
            seqs += [(a, b, c) for a in core for b in core for c in core if len({a[0], b[0], c[0]}) == 3]
        an = {"cheap": ["pf", "dcpf", "dcopf"], "opf": ["opf"]}
        for s in seqs:
            items.append({"net": net, "seq": [[e[0]] + [list(x) if isinstance(x, tuple) else x for x in e[1:]] for e in s], "an": ["pf", "pf2", "dcpf", "dcopf", "opf"]})
    return items


def analyse(p, an):
    if an == "pf":
        return api.pf(p)
    if an == "pf2":
        return api.pf(p, PF_ALG=3)
    if an == "dcpf":
        return api.dcpf(p)
    if an == "dcopf":
        res = api.dcopf(p)
        return res, res["success"]
    res = api.opf(p)
    return res, res["success"]


def extract(w, res, an):
    """element-wise physical results keyed by element identity"""
    out = {}
    p = w.p
    on = phys.energised(p)
    lg, ll = phys.live_gens(p), phys.live_branches(p)
    opf = an in ("opf", "dcopf")
    ref = [int(b[0]) for b in p["bus"] if b[BUS_TYPE] == 3][0]
    for i, k in enumerate(w.bid):
        if int(p["bus"][i, 0]) in on:
            out["V", k] = (res["bus"][i, VM], 1e-6 if not opf else 1e-5); out["A", k] = (res["bus"][i, VA], 1e-5 if not opf else 1e-3)
            if opf:
                out["lamP", k] = (res["bus"][i, LAM_P], 2e-3)
                if an == "opf":
                    out["lamQ", k] = (res["bus"][i, LAM_Q], 2e-3)
                    out["muVM", k] = (res["bus"][i, MU_VMAX], 5.); out["muVm", k] = (res["bus"][i, MU_VMIN], 5.)
    bq = {}
    for i, k in enumerate(w.gid):
        if i in lg:
            b = int(p["gen"][i, 0])
            bk = w.bid[[int(x) for x in p["bus"][:, 0]].index(b)]
            if not opf and b == ref:
                bq["Pb", bk] = bq.get(("Pb", bk), 0) + res["gen"][i, PG]
            else:
                out["Pg", k] = (res["gen"][i, PG], 1e-4 if not opf else 2e-2)
            bq["Qb", bk] = bq.get(("Qb", bk), 0) + res["gen"][i, QG]
            if opf and p["gen"][i, PMIN] >= 0:     # P and Q limits of a dispatchable load are redundant: multipliers not unique
                out["muPx", k] = (res["gen"][i, MU_PMAX], 2e-3); out["muPn", k] = (res["gen"][i, MU_PMIN], 2e-3)
        else:
            out["Pg0", k] = (res["gen"][i, PG] * (0 if opf else 1), 0.)
    for k, v in bq.items():
        out[k] = (v, 1e-4 if not opf else 5e-2)
    for i, (k, s) in enumerate(w.lid):
        if i in ll:
            f = res["branch"][i, [PF, QF, PT, QT]]
            if s < 0:
                f = f[[2, 3, 0, 1]]
            for nme, v in zip("PF QF PT QT".split(), f):
                out[nme, k] = (v, 1e-4 if not opf else 5e-2)
            if opf:
                m = res["branch"][i, [MU_SF, MU_ST]]
                m = m if s > 0 else m[::-1]
                out["muF", k] = (m[0], 5e-3); out["muT", k] = (m[1], 5e-3)
    if opf:
        out["f", 0] = (res["f"], 1e-5 * abs(res["f"]) + 1e-3)
    return out


_BASE = {}


def base_result(net, an):
    if (net, an) not in _BASE:
        w = W(NETS[net]())
        res, ok = analyse(w.p, an)
        _BASE[net, an] = (ok, extract(w, res, an) if ok else None)
    return _BASE[net, an]


def run(item):
    r = Result()
    w = W(NETS[item["net"]]())
    for e in item["seq"]:
        if e[0] in ("pb", "pg", "pl"):
            n = {"pb": len(w.bid), "pg": len(w.gid), "pl": len(w.lid)}[e[0]]
            if len(e[1]) != n:
                e = [e[0], list(range(n))[::-1]]
        if e[0] in ("rev", "tap1") and e[1] >= len(w.lid):
            r.tag("not_enabled"); return r
        if not w.do(e):
            r.tag("not_enabled"); return r
    key0 = "%s:%s" % (item["net"], ";".join("_".join(str(x).replace(" ", "") for x in e) for e in item["seq"]))
    r.states.add(canon(w.p))
    scaled = any(e[0] == "base" for e in item["seq"])
    for an in item["an"]:
        bok, want = base_result(item["net"], an)
        r.evals += 1
        res, ok = analyse(w.p, an)
        key = an + ":" + key0
        if not bok:
            r.bad(key + ":base", "base description not solved")
            continue
        if not r.expect(bool(ok), key + ":ok", "rewritten case is not solved, original is"):
            continue
        got = extract(w, res, an)
        r.validated += 1; r.transitions += len(item["seq"])
        r.tag(an)
        for k in got:
            if k not in want:
                r.bad(key + ":miss", "no counterpart for %r" % (k,)); continue
            tol = max(got[k][1], want[k][1]) * (10 if scaled and an == "opf" else 1) * (200 if an == "pf2" else 1)
            if an == "dcopf" and k[0] in ("lamQ",):
                continue
            if not abs(got[k][0] - want[k][0]) <= tol:
                r.bad("%s:%s" % (key, "".join(map(str, k))), "%s of element %d is %r, in the original description %r" % (k[0], k[1], got[k][0], want[k][0]))
        if r.sample is None:
            r.sample = {"item": item, "an": an, "n_compared": len(got)}
    return r
