"""C05: internal/external numbering conversions are exact inverses."""
import itertools
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix, issparse
from mc.core import Result, canon
from mc.space import *
from mc import api

PROP = "C05"
LEVEL = "model_checking"
RULE = ("states: (case, conversion history). Cases: every status/type/numbering/order edit combination up to the bound, every cell "
        "filled with a distinct value; histories: every sequence of convert / modify / convert-back / field-convert steps up to the "
        "bound; the real objects are compared with a reference model of the reordering after every step. Non-trivial: something is "
        "off, renumbered or reordered, or the history has two steps or more")
ASSUMPTIONS = ["bus numbers below 1000"]


def alphabet(p):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    A = [("br_off", k) for k in range(nl)] + [("bus_type", k, 4) for k in range(nb)]
    A += [("gen_off", k) for k in range(ng)] + [("gen_neg", k) for k in range(ng)] + [("gen_dup", k) for k in range(ng)]
    A += [("gen_last", k) for k in range(ng)] + [("bus_first", k) for k in range(nb)] + [("br_first", nl - 1)]
    A += [("gen_move", k, b) for k in range(ng) for b in range(nb)] + [("br_rev", 0), ("disp", 0)]
    A += [("renum", "seq"), ("renum", "rev"), ("renum", "odd")]
    return A


def build(tier):
    items = []
    st, n = explore(alphabet, 2 if tier == "quick" else 3, bases=("b3", "b4"))
    for b, h in st:
        items.append({"kind": "case", "base": b, "edits": tolist(h)})
    hs = [s for s in st if len(s[1]) <= 1]
    for b, h in hs:
        items.append({"kind": "hist", "base": b, "edits": tolist(h), "depth": 4 if tier == "quick" else 5})
    return items, {"transitions": n}


def fill(p):
    """distinct values everywhere except where they steer the conversion"""
    for key, skip, start in (("bus", (BUS_I, BUS_TYPE), 1000.), ("gen", (GEN_BUS, GEN_STATUS), 3000.),
                             ("branch", (F_BUS, T_BUS, BR_STATUS), 6000.), ("gencost", (), 9000.)):
        m = p[key]
        v = start
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                if j not in skip:
                    v += 1.25
                    m[i, j] = v
    # one area per bus, not in bus order, and a second area priced at the last bus
    p["areas"] = np.array([[i + 1., b] for i, b in enumerate(np.r_[p["bus"][::-1, BUS_I], p["bus"][-1, BUS_I]])])
    return p


class Model(object):
    """reference conversion"""
    def __init__(self, p):
        bus, gen, br = p["bus"], p["gen"], p["branch"]
        on = set(int(b) for b, t in zip(bus[:, 0], bus[:, BUS_TYPE]) if t != 4)
        self.bon = [i for i in range(len(bus)) if int(bus[i, 0]) in on]
        num = {int(bus[i, 0]): k for k, i in enumerate(self.bon)}
        self.num = num
        gon = [i for i in range(len(gen)) if gen[i, GEN_STATUS] > 0 and int(gen[i, 0]) in on]
        self.gon = sorted(gon, key=lambda i: (num[int(gen[i, 0])], i))
        self.lon = [i for i in range(len(br)) if br[i, BR_STATUS] != 0 and int(br[i, 0]) in on and int(br[i, 1]) in on]
        self.aon = [i for i in range(len(p["areas"])) if int(p["areas"][i, 1]) in on] if "areas" in p else []
        self.rows = {"bus": self.bon, "gen": self.gon, "branch": self.lon}
        self.n = {"bus": len(bus), "gen": len(gen), "branch": len(br)}

    def internal(self, p):
        q = {}
        q["bus"] = p["bus"][self.bon].copy(); q["bus"][:, 0] = [self.num[int(b)] for b in q["bus"][:, 0]]
        q["gen"] = p["gen"][self.gon].copy(); q["gen"][:, 0] = [self.num[int(b)] for b in q["gen"][:, 0]]
        q["branch"] = p["branch"][self.lon].copy()
        for c in (0, 1):
            q["branch"][:, c] = [self.num[int(b)] for b in q["branch"][:, c]]
        if "areas" in p:
            q["areas"] = p["areas"][self.aon].copy(); q["areas"][:, 1] = [self.num[int(b)] for b in q["areas"][:, 1]]
        if "gencost" in p:
            ng = self.n["gen"]
            rows = list(self.gon) + ([ng + i for i in self.gon] if len(p["gencost"]) == 2 * ng else [])
            q["gencost"] = p["gencost"][rows].copy()
        for k in ("A", "N"):
            if k in p:
                a = p[k].toarray() if issparse(p[k]) else p[k]
                q[k] = a[:, self.cols(["bus", "bus", "gen", "gen"] if p["_ac"] else ["bus", "gen"], a.shape[1])]
        return q

    def cols(self, ordering, total):
        if isinstance(ordering, str):
            ordering_l = [ordering]
        else:
            ordering_l = ordering
        out, b = [], 0
        for o in ordering_l:
            out += [b + i for i in self.rows[o]]
            b += self.n[o]
        if not isinstance(ordering, str):
            out += list(range(b, total))
        return out


def dense(x):
    return x.toarray() if issparse(x) else np.asarray(x)


def eq(a, b):
    a, b = dense(a), dense(b)
    return a.shape == b.shape and np.array_equal(a, b)


def mats(p, ac, sp, extra=2):
    nb, ng = len(p["bus"]), len(p["gen"])
    n = (2 * nb + 2 * ng if ac else nb + ng) + extra
    A = np.arange(1., 2 * n + 1).reshape(2, n)
    N = 500. + np.arange(3. * n).reshape(3, n)
    f = {0: lambda x: x, 1: csr_matrix, 2: csc_matrix}[sp]
    p["A"], p["N"], p["_ac"] = f(A), f(N), ac
    return p


def run_case(item, r):
    from pypower.ext2int import ext2int
    from pypower.int2ext import int2ext
    from pypower.e2i_data import e2i_data
    from pypower.i2e_data import i2e_data
    from pypower.e2i_field import e2i_field
    from pypower.i2e_field import i2e_field
    base = fill(build_state(item["base"], item["edits"]))
    key0 = "%s:%s" % (item["base"], ";".join("_".join(map(str, e)) for e in item["edits"]))
    r.states.add(canon(base))
    M = Model(base)
    if len(M.bon) == 0:
        return
    variants = [(ac, sp, two) for ac in (0, 1) for sp in (0, 1, 2) for two in (0, 1)]
    if len(item["edits"]) > 1:
        variants = [(0, 1, 1), (1, 0, 0)]
    if len(item["edits"]) > 2:
        variants = [(1, 1, 1)]
    for ac, sp, two in variants:
        p = api.clone(base)
        if two:
            p["gencost"] = np.vstack([p["gencost"], p["gencost"] + 500.])
        mats(p, ac, sp)
        orig = api.clone(p)
        key = "%s:ac%d:sp%d:q%d" % (key0, ac, sp, two)
        r.evals += 1
        i = ext2int(p)
        want = M.internal(orig)
        r.expect(all(eq(p[k], orig[k]) for k in orig if k not in ("version", "baseMVA", "_ac")), key + ":mut", "ext2int changed its argument")
        for k in want:
            r.expect(eq(i[k], want[k]), key + ":int:" + k, lambda: "internal %s is\n%r\nexpected\n%r" % (k, dense(i[k]).tolist(), want[k].tolist()))
        r.transitions += 1
        # extra data in every ordering and dimension
        for ordering in ("bus", "gen", "branch", ["bus", "gen"], ["gen", "gen"], ["branch", "gen", "bus"], ["bus"]):
            nd = M.n[ordering] if isinstance(ordering, str) else sum(M.n[o] for o in ordering) + 1
            ni = len(M.cols(ordering, nd))
            for dim in (0, 1):
                for kind in ("1d", "2d", "sp", "int"):
                    if kind == "1d" and dim:
                        continue
                    shp = (nd,) if kind == "1d" else ((nd, 3) if dim == 0 else (3, nd))
                    v = 10. + np.arange(float(np.prod(shp))).reshape(shp)
                    old = -v - 0.5
                    if kind == "int":
                        v = v.astype(int)
                    vv = csr_matrix(v) if kind == "sp" else v.copy()
                    oo = csr_matrix(old) if kind == "sp" else old.copy()
                    idx = M.cols(ordering, nd)
                    got = e2i_data(i, vv, ordering, dim)
                    ex = v[idx] if dim == 0 else v[:, idx]
                    k2 = "%s:data:%s:%d:%s" % (key, ordering, dim, kind)
                    if not r.expect(eq(got, ex), k2 + ":e2i", lambda: "got %r expected %r" % (dense(got).tolist(), ex.tolist())):
                        continue
                    r.expect(eq(vv, v) and eq(oo, old), k2 + ":mut", "argument changed")
                    # back: internal values come home, rows that are off keep the old values
                    exb = old.copy()
                    if not isinstance(ordering, str):        # the rest has no old part to keep
                        pass
                    if dim == 0:
                        exb[idx] = v[idx]
                    else:
                        exb[:, idx] = v[:, idx]
                    back = i2e_data(i, got, oo, ordering, dim)
                    r.expect(eq(back, exb), k2 + ":i2e", lambda: "got %r expected %r" % (dense(back).tolist(), exb.tolist()))
                    r.evals += 2
        # named (nested) fields
        j = api.clone(i)
        j["x"] = {"y": {"g": np.arange(1., M.n["gen"] + 1), "b": np.arange(2. * M.n["bus"]).reshape(2, -1)}, "l": np.arange(1., M.n["branch"] + 1)}
        j["top"] = np.arange(5., 5. + M.n["gen"])
        o0 = api.clone(j["x"]); t0 = j["top"].copy()
        j = e2i_field(j, ["x", "y", "g"], "gen")
        j = e2i_field(j, ["x", "l"], "branch")
        j = e2i_field(j, ["x", "y", "b"], "bus", 1)
        j = e2i_field(j, "top", "gen")
        r.expect(eq(j["x"]["y"]["g"], o0["y"]["g"][M.gon]), key + ":field:g", "nested field")
        r.expect(eq(j["x"]["y"]["b"], o0["y"]["b"][:, M.bon]), key + ":field:b", "nested field")
        r.expect(eq(j["x"]["l"], o0["l"][M.lon]), key + ":field:l", "nested field")
        r.expect(eq(j["top"], t0[M.gon]), key + ":field:t", "field")
        j["x"]["y"]["g"] = j["x"]["y"]["g"] + 100
        j = i2e_field(j, ["x", "y", "g"], "gen")
        j = i2e_field(j, ["x", "l"], "branch")
        j = i2e_field(j, ["x", "y", "b"], "bus", 1)
        ex = o0["y"]["g"].copy(); ex[M.gon] += 100
        r.expect(eq(j["x"]["y"]["g"], ex), key + ":field:g:back", "nested field back")
        r.expect(eq(j["x"]["y"]["b"], o0["y"]["b"]) and eq(j["x"]["l"], o0["l"]), key + ":field:back", "nested fields back")
        # modified internal data must land in the right rows
        i["bus"][:, VM] += .5; i["bus"][:, VA] = 70. + np.arange(len(i["bus"]))
        i["gen"][:, PG] = 900. + np.arange(len(i["gen"])); i["gen"][:, 1:7] += 0
        i["branch"] = np.hstack([i["branch"], 40. + np.arange(4. * len(i["branch"])).reshape(-1, 4)]) if False else i["branch"]
        i["branch"][:, RATE_A] = 77. + np.arange(len(i["branch"]))
        e = int2ext(i)
        wb, wg, wl = orig["bus"].copy(), orig["gen"].copy(), orig["branch"].copy()
        wb[M.bon, VM] += .5; wb[M.bon, VA] = 70. + np.arange(len(M.bon))
        wg[M.gon, PG] = 900. + np.arange(len(M.gon))
        wl[M.lon, RATE_A] = 77. + np.arange(len(M.lon))
        for k, w in (("bus", wb), ("gen", wg), ("branch", wl), ("areas", orig["areas"]), ("gencost", orig["gencost"]), ("A", orig["A"]), ("N", orig["N"])):
            r.expect(eq(e[k], w), key + ":back:" + k, lambda: "external %s is\n%r\nexpected\n%r" % (k, dense(e[k]).tolist(), dense(w).tolist()))
        # converting the converted-back case again gives the same internal case
        i2 = ext2int(e)
        want["bus"][:, VM] += .5; want["bus"][:, VA] = 70. + np.arange(len(M.bon))
        want["gen"][:, PG] = 900. + np.arange(len(M.gon)); want["branch"][:, RATE_A] = 77. + np.arange(len(M.lon))
        for k in want:
            r.expect(eq(i2[k], want[k]), key + ":again:" + k, "second conversion differs")
        r.validated += 1
        r.transitions += 3
        if r.sample is None and item["edits"]:
            r.sample = {"item": item, "internal_gen_bus": [float(x) for x in want["gen"][:, 0]], "bus_rows": M.bon, "gen_rows": M.gon, "branch_rows": M.lon}
    # matrix-level conversion
    from pypower.ext2int import ext2int1
    from pypower.int2ext import int2ext1
    for wa in (0, 1):
        p = api.clone(base)
        a = [p["bus"], p["gen"], p["branch"]] + ([p["areas"]] if wa else [])
        out = ext2int1(*a)
        pos = {int(b): k for k, b in enumerate(base["bus"][:, 0])}
        r.expect([int(x) for x in out[1][:, 0]] == list(range(len(pos))), key0 + ":m:bus", "ext2int1 bus numbers")
        r.expect([int(x) for x in out[2][:, 0]] == [pos[int(b)] for b in base["gen"][:, 0]], key0 + ":m:gen", "ext2int1 gen")
        r.expect([int(x) for x in out[3][:, 0]] == [pos[int(b)] for b in base["branch"][:, 0]], key0 + ":m:f", "ext2int1 branch")
        r.expect([int(x) for x in out[3][:, 1]] == [pos[int(b)] for b in base["branch"][:, 1]], key0 + ":m:t", "ext2int1 branch")
        if wa:
            r.expect([int(x) for x in out[4][:, 1]] == [pos[int(b)] for b in base["areas"][:, 1]], key0 + ":m:a", "ext2int1 areas")
            bk = int2ext1(out[0], out[1], out[2], out[3], out[4])
        else:
            bk = int2ext1(out[0], out[1], out[2], out[3])
        for k, x in zip(("bus", "gen", "branch", "areas"), bk):
            r.expect(eq(x, base[k]), key0 + ":m:back:" + k, "int2ext1 does not restore " + k)
        r.evals += 1


def run_hist(item, r):
    """all operation sequences"""
    from pypower.ext2int import ext2int
    from pypower.int2ext import int2ext
    from pypower.e2i_field import e2i_field
    from pypower.i2e_field import i2e_field
    base = fill(build_state(item["base"], item["edits"]))
    mats(base, 0, 1)
    if all(t == 4 for t in base["bus"][:, BUS_TYPE]):
        return
    key0 = "hist:%s:%s" % (item["base"], ";".join("_".join(map(str, e)) for e in item["edits"]))
    OPS = ["E", "I", "M", "F", "B", "S"]

    def start():
        q = api.clone(base)
        q["z"] = {"w": np.arange(1., len(q["gen"]) + 1) * 3}
        # model: external truth, mode, field state, counter
        return q, {"ext": api.clone({k: q[k] for k in ("bus", "gen", "branch", "areas", "gencost", "A", "N", "z", "_ac")}),
                   "mode": "e", "f": "e", "c": 0}

    def step(q, m, op):
        m["c"] += 1
        c = m["c"]
        if op == "E":
            q = ext2int(q)
            m["mode"] = "i"
        elif op == "I":
            if "order" not in q:
                return None
            if m["mode"] == "i" and m["f"] == "i":
                return None           # field must be converted back by its owner first
            q = int2ext(q)
            m["mode"] = "e"
        elif op == "M":                # a solver writes to the current representation
            M = Model(m["ext"])
            q["gen"][:, QG] = 1e4 * c + np.arange(len(q["gen"]))
            q["bus"][:, VM] = 2e4 * c + np.arange(len(q["bus"]))
            if m["mode"] == "i":
                m["ext"]["gen"][M.gon, QG] = 1e4 * c + np.arange(len(M.gon))
                m["ext"]["bus"][M.bon, VM] = 2e4 * c + np.arange(len(M.bon))
            else:
                m["ext"]["gen"][:, QG] = 1e4 * c + np.arange(len(m["ext"]["gen"]))
                m["ext"]["bus"][:, VM] = 2e4 * c + np.arange(len(m["ext"]["bus"]))
        elif op == "S":                # switch a unit off in external form
            if m["mode"] != "e" or q["gen"][0, GEN_STATUS] <= 0:
                return None
            q["gen"][0, GEN_STATUS] = 0; m["ext"]["gen"][0, GEN_STATUS] = 0
        elif op == "F":
            if m["mode"] != "i" or m["f"] == "i":
                return None
            q = e2i_field(q, ["z", "w"], "gen")
            m["f"] = "i"
        elif op == "B":
            if m["mode"] != "i" or m["f"] != "i":
                return None
            q = i2e_field(q, ["z", "w"], "gen")
            m["f"] = "e"
        return q, m

    def check(q, m, h):
        k = key0 + ":" + "".join(h)
        M = Model(m["ext"])
        if m["mode"] == "e":
            want = {x: m["ext"][x] for x in ("bus", "gen", "branch", "areas", "gencost", "A", "N")}
        else:
            want = M.internal(m["ext"])
        for x in want:
            r.expect(eq(q[x], want[x]), k + ":" + x, lambda: "%s after %s is\n%r\nexpected\n%r" % (x, h, dense(q[x]).tolist(), dense(want[x]).tolist()))
        z = m["ext"]["z"]["w"]
        if m["f"] == "i":
            z = z[M.gon]
        r.expect(eq(q["z"]["w"], z), k + ":z", "field after %s" % (h,))
        r.states.add(canon([item, m["mode"], m["f"], m["ext"]["gen"], m["ext"]["bus"], len(h) > 0]))

    layer = [()]
    for d in range(item["depth"]):
        nxt = []
        for h in layer:
            for op in OPS:
                if h and op == h[-1] and op in "M":
                    continue
                q, m = start()
                ok = True
                for o in h + (op,):
                    res = step(q, m, o)
                    if res is None:
                        ok = False; break
                    q, m = res
                if not ok:
                    continue
                r.transitions += 1; r.evals += 1; r.validated += 1
                check(q, m, h + (op,))
                nxt.append(h + (op,))
        layer = nxt
    r.tag("histories", len(layer))


def run(item):
    r = Result()
    if item["kind"] == "case":
        run_case(item, r)
    else:
        run_hist(item, r)
    return r
