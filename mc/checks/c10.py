"""C10: network matrices represent the branch model exactly."""
import itertools, importlib
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import phys

PROP = "C10"
LEVEL = "model_checking"
RULE = ("states: every pair (thorough: some triples) of branches over the full attribute alphabet (r, x, charging, tap, shift, status) in every "
        "small motif (parallel, antiparallel, series, star), every edit combination of the base networks and single edits of shipped "
        "networks; each matrix is compared with one assembled branch by branch from the circuit equations. Non-trivial: all but the plain line")
ASSUMPTIONS = ["impedances are not zero"]

R, X, B, T, S, ST = (0., .02), (.1, -.05), (0., .06), (0., 1., .95), (0., 10., -30.), (1., 0.)
MOTIFS = {"par": [(0, 1), (0, 1)], "anti": [(0, 1), (1, 0)], "series": [(0, 1), (1, 2)], "star": [(1, 0), (1, 2)], "in": [(0, 2), (1, 2)]}
SHIPPED = ["case4gs", "case6ww", "case9", "case14", "case24_ieee_rts", "case30", "case30pwl", "case30Q", "case39", "case57", "case118", "case300"]


def attrs(tier):
    return list(itertools.product(R, X, B, T, S if tier != "quick" else S[::2], ST))


def build(tier):
    it = []
    n = len(attrs(tier))
    for m in MOTIFS if tier != "quick" else ("par", "anti", "series"):
        for i in range(n):
            it.append({"k": "pair", "m": m, "i": i, "t": tier})
    st, nt = explore(lambda p: [e for e in pf_alphabet(p) if e[0] != "renum"] + [("base", 50.), ("base", 1.)], 2 if tier == "quick" else 3,
                     bases=("b2", "b3", "b4") if tier == "quick" else ("b2", "b3"))
    for b, h in st:
        it.append({"k": "net", "base": b, "edits": tolist(h)})
    for c in SHIPPED:
        it.append({"k": "ship", "c": c})
    if tier != "quick":
        for i in range(n):
            for j in range(0, n):
                it.append({"k": "triple", "i": i, "j": j, "t": tier})
    return it, {"transitions": nt}


def internal(p):
    """number the buses 0..n-1 in row order (plain relabelling, everything kept)"""
    m = {b: float(i) for i, b in enumerate(p["bus"][:, 0])}
    p["bus"][:, 0] = np.arange(len(p["bus"]))
    p["gen"][:, 0] = [m[b] for b in p["gen"][:, 0]]
    for c in (0, 1):
        p["branch"][:, c] = [m[b] for b in p["branch"][:, c]]
    return p


def ref_ac(bus, branch, base, zero=()):
    nb, nl = len(bus), len(branch)
    Yf = np.zeros((nl, nb), complex); Yt = np.zeros((nl, nb), complex)
    Y = np.zeros((nb, nb), complex)
    for k, row in enumerate(branch):
        if row[BR_STATUS] == 0:
            continue
        row = row.copy()
        for z in [z for z in zero if z != "BS"]:
            row[z] = 1. if z == TAP else 0.
        f, t = int(row[0]), int(row[1])
        a, b = phys.two_port(row, 1., 0.)
        c, d = phys.two_port(row, 0., 1.)
        Yf[k, f] += a; Yf[k, t] += c; Yt[k, f] += b; Yt[k, t] += d
        Y[f] += Yf[k]; Y[t] += Yt[k]
    for i, r in enumerate(bus):
        Y[i, i] += complex(r[GS], 0. if "BS" in zero else r[BS]) / base
    return Y, Yf, Yt


def ref_dc(bus, branch, base):
    nb, nl = len(bus), len(branch)
    Bf = np.zeros((nl, nb)); Pf = np.zeros(nl); Bb = np.zeros((nb, nb)); Pb = np.zeros(nb)
    for k, row in enumerate(branch):
        if row[BR_STATUS] == 0:
            continue
        f, t = int(row[0]), int(row[1])
        y = 1. / row[BR_X] / (row[TAP] if row[TAP] != 0 else 1.)
        Bf[k, f] += y; Bf[k, t] -= y
        Pf[k] = -y * np.pi * row[SHIFT] / 180.
        Bb[f] += Bf[k]; Bb[t] -= Bf[k]
        Pb[f] += Pf[k]; Pb[t] -= Pf[k]
    return Bb, Bf, Pb, Pf


def dense(m):
    return m.toarray() if hasattr(m, "toarray") else np.asarray(m)


def check(r, bus, gen, branch, base, key):
    from pypower.makeYbus import makeYbus
    from pypower.makeBdc import makeBdc
    from pypower.makeB import makeB
    from pypower.makeSbus import makeSbus
    nb, nl = len(bus), len(branch)
    before = (bus.copy(), gen.copy(), branch.copy())

    def eq(name, x, y):
        x = dense(x)
        x = x.reshape(-1) if y.ndim == 1 and x.size == y.size else x
        r.evals += 1
        if x.shape != y.shape:
            r.bad("%s:%s:shape" % (key, name), "%s: %s has shape %s, expected %s" % (key, name, x.shape, y.shape)); return
        sc = 1 + np.abs(y).max() if y.size else 1
        if not (np.abs(x - y) <= 1e-10 * sc).all():
            i = np.unravel_index(np.argmax(np.abs(x - y)), x.shape)
            r.bad("%s:%s" % (key, name), "%s: %s%s = %s, expected %s" % (key, name, list(map(int, i)), x[i], y[i]))
    for name, x, y in zip(("Ybus", "Yf", "Yt"), makeYbus(base, bus, branch), ref_ac(bus, branch, base)):
        eq(name, x, y)
    for name, x, y in zip(("Bbus", "Bf", "Pbusinj", "Pfinj"), makeBdc(base, bus, branch), ref_dc(bus, branch, base)):
        eq(name, x, y)
    for alg in (2, 3):
        zr = (BR_R,)
        try:
            Bp, Bpp = makeB(base, bus, branch, alg)
        except Exception as e:
            r.bad("%s:makeB%d" % (key, alg), "makeB raised %s: %s" % (type(e).__name__, e)); continue
        eq("Bp%d" % alg, Bp, -ref_ac(bus, branch, base, ("BS", BR_B, TAP) + (zr if alg == 2 else ()))[0].imag)
        eq("Bpp%d" % alg, Bpp, -ref_ac(bus, branch, base, (SHIFT,) + (zr if alg == 3 else ()))[0].imag)
    s = -(bus[:, PD] + 1j * bus[:, QD])
    for g in gen:
        if g[GEN_STATUS] > 0:
            s[int(g[0])] += complex(g[PG], g[QG])
    eq("Sbus", makeSbus(base, bus, gen), s / base)
    r.expect(all(np.array_equal(a, b) for a, b in zip(before, (bus, gen, branch))), key + ":mutated", key + ": inputs modified")
    r.validated += 1


def star(m):
    n = 1 + max(max(e) for e in m)
    bs = np.array([bus(i, 3 if i == 0 else 1, 10. * i, 3. * i, .5 * i, 2. * i - 3) for i in range(n)], float)
    gs = np.array([gen(n - 1, 20., 5.), gen(0, 7., 1., status=0), gen(n - 1, 3., -2.), gen(0, 5., 4., status=-1)], float)
    return bs, gs


def run(item):
    r = Result()
    k = item["k"]
    if k in ("pair", "triple"):
        at = attrs(item["t"])
        if k == "pair":
            m = MOTIFS[item["m"]]
            combos = [(item["i"], j) for j in range(len(at))]
        else:
            m = [(0, 1), (1, 0), (1, 2)]
            combos = [(item["i"], item["j"], j) for j in range(0, len(at), 5)]
        bs, gs = star(m)
        for cb in combos:
            rows = []
            for (f, t), a in zip(m, cb):
                rr, x, b, tp, s, st = at[a]
                rows.append(br(f, t, rr, x, b, 100., tp, s, st))
            check(r, bs, gs, np.array(rows), 100., "pair:%s:%s" % (item.get("m"), cb))
            r.states.add(canon((item.get("m"), cb)))
        r.tag(k, len(combos))
    elif k == "net":
        p = internal(build_state(item["base"], item["edits"]))
        check(r, p["bus"], p["gen"], p["branch"], p["baseMVA"], "net:%s:%s" % (item["base"], item["edits"]))
        r.tag("net"); r.states = {canon(item["edits"]) + item["base"]}
    else:
        from pypower.loadcase import loadcase
        p = internal(loadcase(getattr(importlib.import_module("pypower." + item["c"]), item["c"])()))
        for base in (p["baseMVA"], 37.):
            check(r, p["bus"], p["gen"], p["branch"], base, "ship:%s:%s" % (item["c"], base))
            q = p["branch"].copy(); q[::3, BR_STATUS] = 0; q[1::4, SHIFT] += 7.; q[2::5, TAP] = .93
            check(r, p["bus"], p["gen"], q, base, "ship2:%s:%s" % (item["c"], base))
        r.tag("shipped"); r.states = {item["c"]}
    return r
