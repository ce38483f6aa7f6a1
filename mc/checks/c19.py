"""C19: OPF constraint builders describe exactly the intended feasible sets."""
import itertools
import numpy as np
from mc.core import Result, canon
from mc.space import gen, br, GEN_BUS, PMAX, PMIN, QMAX, QMIN, PC1, PC2, QC1MIN, QC1MAX, QC2MIN, QC2MAX, ANGMIN, ANGMAX

PROP = "C19"
LEVEL = "model_checking"
RULE = ("states: every list of one to three units (branches) over alphabets of cost curves, capability curves, dispatchable-load limits and "
        "angle limits, x base MVA x variable offsets; for each, membership of a full product grid of points in the returned linear set is compared "
        "with the documented requirement. Non-trivial: at least one constrained unit or branch")
ASSUMPTIONS = ["piecewise-linear costs are convex", "capability data consistent (Pc1 <= Pc2, Qc2max <= Qc1max, Qc2min >= Qc1min)",
               "dispatchable loads have one zero reactive limit"]
inf = np.inf

CURVES = {"-": None, "p3": [(0., 5.), (5., 20.), (20., 100.)], "p4": [(-8., 40.), (-1., 2.), (6., 1.), (9., 30.)], "p2": [(0., 0.), (10., 50.)], "n3": [(-20., -90.), (-10., -60.), (0., 0.)]}
CAPS = {"none": (0., 0., 0., 0., 0., 0.), "both": (20., 90., -60., 70., -10., 30.), "up": (0., 100., -100., 80., -100., 20.), "low": (10., 80., -50., 100., 0., 100.),
        "flat": (0., 50., -40., 40., -40., 40.), "wide": (0., 100., -500., 500., -400., 400.), "short": (5., 40., -60., 60., -20., 25.)}
BOX = [(0., 100., -50., 60.), (10., 60., -80., 80.)]
LOADS = {"gen": (0., 100., -50., 50.), "ind": (-40., 0., -20., 0.), "cap": (-30., 0., 0., 10.), "unity": (-25., 0., 0., 0.), "pump": (-20., 10., -5., 0.), "neg": (-50., -10., -20., 0.)}
ANG = [(-360., 360.), (0., 0.), (-30., 30.), (0., 20.), (-10., 0.), (-360., 15.), (-25., 360.), (5., 40.), (-400., 10.), (-200., 360.), (0., 250.), (-300., 20.)]


def build(tier):
    it = []
    deep = tier != "quick"
    for n in (1, 2, 3):
        cs = sorted(CURVES) if n < 3 or deep else ["-", "p3", "n3"]
        for t in itertools.product(cs, repeat=n):
            for q in itertools.product(["", "-", "p3", "p4"], repeat=n) if n < 3 else [("",) * n, ("-", "p3", "-"), ("p4", "-", "p3")]:
                if "" in q and any(q):
                    continue
                it.append({"k": "ay", "p": list(t), "q": list(q) if any(q) else None})
        caps = sorted(CAPS)
        for t in itertools.product(caps, repeat=n):
            it.append({"k": "apq", "c": list(t)})
        for t in itertools.product(sorted(LOADS), repeat=n):
            it.append({"k": "avl", "l": list(t)})
        for t in itertools.product(range(len(ANG)), repeat=n):
            it.append({"k": "ang", "a": list(t)})
    return it


def mat(A, key, r, ncol):
    A = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
    r.expect(A.ndim == 2 and A.shape[1] == ncol, key + ":columns", "matrix has shape %s, expected %d columns" % (A.shape, ncol))
    return A


def inside(A, lo, hi, x, skip=1e-7):
    """True / False / None when within rounding of the boundary"""
    v = A.dot(x)
    m = np.inf
    lo = np.full(len(v), -inf) if lo is None or not len(lo) else lo
    for a, l, u in zip(v, lo, hi):
        m = min(m, a - l, u - a)
    return None if abs(m) < skip else m > 0


def ay(item, r):
    from pypower.makeAy import makeAy
    P, Q = item["p"], item["q"]
    ng = len(P)
    rows = [CURVES[c] for c in P] + ([CURVES[c] for c in Q] if Q else [])
    w = 8
    gc = np.zeros((len(rows), 4 + w + 1))
    for i, c in enumerate(rows):
        gc[i, :4] = [1 if c else 2, 0, 0, len(c) if c else 3]
        v = np.ravel(c) if c else [.1, 2., 3.]
        gc[i, 4:4 + len(v)] = v
    for base, dc in itertools.product((100., 10.), (0, 1)):
        if dc and Q:
            continue
        nq = 0 if dc else ng
        off = 3             # variables in front of Pg
        for pg in (1, 1 + off):
            qg = np.array([]) if dc and pg == 1 else pg + ng
            yb = pg + ng + nq
            key = "ay:%s:%s:%g:%d:%d" % (P, Q, base, dc, pg)
            g0 = gc.copy()
            A, b = makeAy(base, ng, gc, pg, qg, yb)
            r.evals += 1
            r.expect(np.array_equal(gc, g0), key + ":mutated", "gencost modified")
            ipwl = [i for i, c in enumerate(rows) if c]
            ncol = pg - 1 + ng + nq + len(ipwl)
            A = mat(A, key, r, ncol)
            b = np.asarray(b, float)
            if not r.expect(A.shape == (sum(len(rows[i]) - 1 for i in ipwl), ncol) and b.shape == (len(A),), key + ":shape",
                            "shapes %s %s for %d curves" % (A.shape, b.shape, len(ipwl))):
                continue
            # every curve in turn over a grid, the other units well above their curves
            for j, i in enumerate(ipwl):
                c = rows[i]
                slopes = [((y2 - y1) / (x2 - x1), x1, y1) for (x1, y1), (x2, y2) in zip(c, c[1:])]
                for q in (-30., -8., -4., -1., 0., 2.5, 5., 6., 8., 15., 20., 31.):
                    F = max(m * (q - x1) + y1 for m, x1, y1 in slopes)
                    for dy in (-1e3, -1., -1e-3, 1e-3, 1., 1e3):
                        x = np.zeros(ncol)
                        x[pg - 1:pg - 1 + ng + nq] = .07
                        x[ncol - len(ipwl):] = 1e5
                        x[pg - 1 + i] = q / base
                        x[ncol - len(ipwl) + j] = F + dy
                        ok = inside(A, None, b, x, 1e-9)
                        r.transitions += 1
                        r.expect(ok == (dy > 0), key + ":member:%d" % i, lambda: "unit %d at %g with cost variable %g above the curve is %s" % (i, q, dy, "inside" if ok else "outside"))
            r.states.add(canon(key))
    r.tag("ay_%d" % len([c for c in rows if c]))


def apq(item, r):
    from pypower.makeApq import makeApq
    from pypower.hasPQcap import hasPQcap
    names = item["c"]
    ng = len(names)
    for off in (0, 1):
        g = np.array([gen(i + 1, 0.) for i in range(ng)])
        for i, n in enumerate(names):
            pc1, pc2, q1n, q1x, q2n, q2x = CAPS[n]
            pmin, pmax, qmin, qmax = BOX[(i + off) % 2]
            g[i, [PMIN, PMAX, QMIN, QMAX]] = [pmin, pmax, qmin, qmax]
            g[i, [PC1, PC2, QC1MIN, QC1MAX, QC2MIN, QC2MAX]] = [pc1, pc2, q1n, q1x, q2n, q2x]
        hi = lambda i, p: g[i, QC1MAX] + (p - g[i, PC1]) * (g[i, QC2MAX] - g[i, QC1MAX]) / (g[i, PC2] - g[i, PC1])
        lo = lambda i, p: g[i, QC1MIN] + (p - g[i, PC1]) * (g[i, QC2MIN] - g[i, QC1MIN]) / (g[i, PC2] - g[i, PC1])
        U = [bool(g[i, PC1] != g[i, PC2] and any(hi(i, p) < g[i, QMAX] for p in g[i, [PMIN, PMAX]])) for i in range(ng)]
        L = [bool(g[i, PC1] != g[i, PC2] and any(lo(i, p) > g[i, QMIN] for p in g[i, [PMIN, PMAX]])) for i in range(ng)]
        key = "apq:%s:%d" % (names, off)
        g0 = g.copy()
        for arg, ref in (("U", U), ("L", L), ("B", [a or b for a, b in zip(U, L)])):
            o = np.asarray(hasPQcap(g, arg))
            r.evals += 1
            r.expect([bool(v) for v in o] == ref, key + ":has" + arg, "hasPQcap(%s) = %s, expected %s" % (arg, o, ref))
        r.expect([bool(v) for v in hasPQcap(g)] == [a or b for a, b in zip(U, L)], key + ":has", "hasPQcap default")
        for base in (100., 10.):
            Ah, bh, Al, bl, data = makeApq(base, g)
            r.evals += 1
            Ah, Al = mat(Ah, key, r, 2 * ng), mat(Al, key, r, 2 * ng)
            r.expect(len(Ah) == sum(U) == len(bh) and len(Al) == sum(L) == len(bl), key + ":rows", "rows %d/%d for curves %s %s" % (len(Ah), len(Al), U, L))
            r.expect(list(data["ipqh"]) == [i for i in range(ng) if U[i]] and list(data["ipql"]) == [i for i in range(ng) if L[i]], key + ":index", "unit indices %s %s" % (data["ipqh"], data["ipql"]))
            for A, b in ((Ah, bh), (Al, bl)):
                for row in A:
                    r.expect(abs(np.linalg.norm(row) - 1) < 1e-9, key + ":norm", "constraint row is not normalised: %s" % row)
            centre = np.zeros(2 * ng)
            for i in range(ng):
                p = .5 * (g[i, PMIN] + g[i, PMAX])
                ub = min([g[i, QMAX]] + ([hi(i, p)] if g[i, PC1] != g[i, PC2] else [])); lb = max([g[i, QMIN]] + ([lo(i, p)] if g[i, PC1] != g[i, PC2] else []))
                centre[i], centre[ng + i] = p / base, .5 * (ub + lb) / base
            for i in range(ng):
                has = g[i, PC1] != g[i, PC2]
                for p in np.linspace(g[i, PMIN], g[i, PMAX], 7):
                    for q in np.linspace(g[i, QMIN], g[i, QMAX], 9):
                        x = centre.copy(); x[i], x[ng + i] = p / base, q / base
                        for A, b, want, edge, nm in ((Ah, bh, not has or q <= hi(i, p), has and abs(q - hi(i, p)) < 1e-6, "upper"), (Al, bl, not has or q >= lo(i, p), has and abs(q - lo(i, p)) < 1e-6, "lower")):
                            if edge:
                                continue
                            ok = inside(A, None, b, x, 0.) if len(A) else True
                            r.transitions += 1
                            r.expect(bool(ok) == bool(want), key + ":member:%s:%d" % (nm, i), lambda: "unit %d at (%g, %g): %s set membership %s, capability curve says %s" % (i, p, q, nm, ok, want))
        r.expect(np.array_equal(g, g0), key + ":mutated", "gen modified")
        r.states.add(canon(key))
    r.tag("apq_%d" % sum(U))


def avl(item, r):
    from pypower.makeAvl import makeAvl
    from pypower.isload import isload
    names = item["l"]
    ng = len(names)
    g = np.array([gen(i + 1, 0.) for i in range(ng)])
    for i, n in enumerate(names):
        g[i, [PMIN, PMAX, QMIN, QMAX]] = LOADS[n]
        f = .5
        g[i, 1] = f * LOADS[n][0]
        g[i, 2] = f * (LOADS[n][2] if LOADS[n][3] == 0 else LOADS[n][3])
    key = "avl:%s" % names
    g0 = g.copy()
    load = [n in ("ind", "cap", "unity") for n in names]
    r.expect([bool(v) for v in isload(g)] == load, key + ":isload", "isload = %s" % isload(g))
    for base in (100., 10.):
        A, l, u, iv = makeAvl(base, g)
        r.evals += 1
        con = [i for i in range(ng) if names[i] in ("ind", "cap")]
        A = mat(A, key, r, 2 * ng)
        if not r.expect(len(A) == len(con) == len(l) == len(u) and list(iv) == con, key + ":rows", "%d rows for dispatchable loads %s" % (len(A), con)):
            continue
        for i in range(ng):
            ql = LOADS[names[i]][2] if LOADS[names[i]][3] == 0 else LOADS[names[i]][3]
            for p in np.linspace(g[i, PMIN], g[i, PMAX], 5):
                for q in (ql, .5 * ql, -ql, 0., ql * p / g[i, PMIN] if g[i, PMIN] else 0., 3.):
                    x = np.zeros(2 * ng); x[i], x[ng + i] = p / base, q / base
                    want = i not in con or abs(q * g[i, PMIN] - ql * p) < 1e-9
                    v = A.dot(x)
                    ok = bool(np.all(v >= np.asarray(l) - 1e-9) and np.all(v <= np.asarray(u) + 1e-9))
                    r.transitions += 1
                    r.expect(ok == want, key + ":member:%d" % i, lambda: "unit %d (%s) at (%g, %g): membership %s, constant power factor %s" % (i, names[i], p, q, ok, want))
        for row in A:
            r.expect(abs(np.linalg.norm(row) - 1) < 1e-9, key + ":norm", "constraint row is not normalised: %s" % row)
    r.expect(np.array_equal(g, g0), key + ":mutated", "gen modified")
    r.states.add(canon(key))
    r.tag("avl_%d" % len(con))


def ang(item, r):
    from pypower.makeAang import makeAang
    from pypower.ppoption import ppoption
    nb = 3
    ends = [(0, 1), (2, 1), (0, 2)]
    b = np.array([br(ends[i][0], ends[i][1], .01, .1, amin=ANG[a][0], amax=ANG[a][1]) for i, a in enumerate(item["a"])])
    lim = []
    for lo, hi in (ANG[a] for a in item["a"]):
        if (lo != 0 and lo > -360) or (hi != 0 and hi < 360):
            lim.append((lo if lo != 0 else -inf, hi if hi != 0 else inf))
        else:
            lim.append(None)
    con = [i for i, v in enumerate(lim) if v]
    for ign in (0, 1):
        key = "ang:%s:%d" % (item["a"], ign)
        b0 = b.copy()
        A, l, u, iang = makeAang(100., b, nb, ppoption(OPF_IGNORE_ANG_LIM=ign))
        r.evals += 1
        A = mat(A, key, r, nb)
        want_rows = [] if ign else con
        if not r.expect([int(i) for i in iang] == want_rows and len(A) == len(want_rows) == len(l) == len(u), key + ":rows", "constrained branches %s, expected %s" % (iang, want_rows)):
            continue
        r.expect(np.array_equal(b, b0), key + ":mutated", "branch modified")
        for t in itertools.product((0., -25., 12., 33., -170., 270.), (0., 7., -40., -350.), (0., 18., -31.)):
            va = np.radians(np.array(t))
            ok = inside(A, l, u, va, 1e-9) if len(A) else True
            d = [t[ends[i][0]] - t[ends[i][1]] for i in want_rows]
            if any(min(abs(v - lim[i][0]), abs(v - lim[i][1])) < 1e-7 for v, i in zip(d, want_rows)):
                continue
            want = all(lim[i][0] < v < lim[i][1] for v, i in zip(d, want_rows))
            r.transitions += 1
            r.expect(ok == want, key + ":member", lambda: "angles %s: membership %s, limits %s say %s" % (t, ok, lim, want))
        r.states.add(canon(key))
    r.tag("ang_%d" % len(con))


def run(item):
    r = Result()
    {"ay": ay, "apq": apq, "avl": avl, "ang": ang}[item["k"]](item, r)
    r.validated += 1
    return r
