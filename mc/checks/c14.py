"""C14: cost evaluation and cost transformations follow their algebra."""
import itertools
import numpy as np
from mc.core import Result, canon

PROP = "C14"
LEVEL = "model_checking"
RULE = ("states: every table of one or two (thorough: three) rows over an alphabet of polynomial (1-5 coefficients, zeros, signs) and piecewise-"
        "linear rows (2-4 points, convex and not, negative quantities) in several table widths; in each, every sequence of at most d "
        "transformations (scale/shift of value/quantity x factors) is replayed on the real functions and compared on a quantity grid with the "
        "transformed curve; derivatives of every order, P/Q splits and polynomial-to-piecewise conversions likewise. Non-trivial: a row that is not constant")
ASSUMPTIONS = ["breakpoints strictly increasing", "quantity scale factors of piecewise-linear rows are positive"]

ROWS = {
    "c0": (2, [7.]), "c0z": (2, [0.]), "l": (2, [5., -3.]), "lz": (2, [0., 4.]), "q": (2, [.5, -2., 1.]), "qz": (2, [0., 0., 9.]), "q0": (2, [2., 0., 0.]),
    "k": (2, [.01, .2, -3., 4.]), "kz": (2, [-.02, 0., 0., 0.]), "f": (2, [1e-3, -.01, .1, 2., 5.]),
    "p2": (1, [(0., 0.), (10., 50.)]), "p2n": (1, [(-10., 30.), (10., -5.)]), "p3": (1, [(0., 5.), (5., 20.), (20., 100.)]),
    "p3c": (1, [(-8., 40.), (-1., 2.), (6., 1.)]), "p4": (1, [(1., 1.), (2., 5.), (4., 6.), (12., 60.)]),
    "p6": (1, [(-12., 9.), (-4., 1.), (0., 0.), (3., 2.), (8., 12.), (15., 40.)]), "s": (2, [1e-5, -2e-4, 0., .1, 1.5, -3.]),
}
GRID = np.array([-25., -10., -8., -3.5, -1., 0., .5, 1., 2., 3., 4., 5., 6., 7.5, 10., 12., 19., 20., 33.])
OPS = [(t, a) for t in ("SCALE_F", "SCALE_X", "SHIFT_F", "SHIFT_X") for a in (2., .5, -3.)] + [(t, 0.) for t in ("SCALE_F", "SHIFT_F", "SHIFT_X")] + \
      [(t, 2) for t in ("SCALE_F", "SCALE_X", "SHIFT_F", "SHIFT_X")] + [("default", 3.)]


def table(names, pad):
    w = max(len(r[1]) * (2 if r[0] == 1 else 1) for r in (ROWS[n] for n in names)) + pad
    out = np.zeros((len(names), 4 + w))
    for i, n in enumerate(names):
        m, v = ROWS[n]
        v = np.ravel(v)
        out[i, :4] = [m, 100. + i, 10. * i, len(ROWS[n][1])]
        out[i, 4:4 + len(v)] = v
    return out


def build(tier):
    it = []
    names = sorted(ROWS)
    for n in names:
        for pad in (0, 1, 3):
            it.append({"rows": [n], "pad": pad, "d": (2 if pad else 3) if tier != "quick" or pad == 1 else 2})
    for a, b in itertools.product(names, names):
        for pad in (0, 1):
            it.append({"rows": [a, b], "pad": pad, "d": 1 if tier == "quick" else 2})
    for t in itertools.product(names, repeat=3):
        if tier != "quick" or len(set(t)) == 3 and t[0] < t[1]:
            it.append({"rows": list(t), "pad": 1, "d": 1})
    for n in range(1, 4):
        for on in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)):
            it.append({"k": "pq", "n": n, "on": list(on)})
    polys = [n for n in names if ROWS[n][0] == 2]
    for a in polys:
        for b in polys:
            it.append({"k": "pwl", "rows": [a, b]})
    return it


def curve(name):
    m, v = ROWS[name]
    if m == 2:
        def F(x):
            s = 0.
            for c in v:
                s = s * x + c
            return s
        return F

    def F(x):
        for k in range(len(v) - 1):
            (x1, y1), (x2, y2) = v[k], v[k + 1]
            if x <= x2 or k == len(v) - 2:
                return y1 + (y2 - y1) * (x - x1) / (x2 - x1)
    return F


def step(F, op, a):
    if op in ("SCALE_F", "default"):
        return lambda x: a * F(x)
    if op == "SCALE_X":
        return lambda x: F(x / a)
    if op == "SHIFT_F":
        return lambda x: F(x) + a
    return lambda x: F(x - a)


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b).max() if b.size else 1)))


def evaluate(r, key, gc, Fs):
    from pypower.totcost import totcost
    g0 = gc.copy()
    n = len(Fs)
    for s in range(len(GRID)):          # every unit at a different grid point
        x = np.array([GRID[(s + 5 * i) % len(GRID)] for i in range(n)])
        x0 = x.copy()
        y = totcost(gc, x)
        ref = np.array([F(v) for F, v in zip(Fs, x)])
        r.evals += 1
        if not r.expect(close(y, ref), key + ":totcost", lambda: "cost of %s at %s is %s, expected %s" % (gc.tolist(), x, y, ref)):
            return False
        r.expect(np.array_equal(x, x0), key + ":totcost:mut", "quantity vector modified")
    X = np.array([[GRID[(s + 5 * i) % len(GRID)] for s in range(7)] for i in range(n)])
    Y = totcost(gc, X)
    r.expect(close(Y, np.array([[F(v) for v in row] for F, row in zip(Fs, X)])), key + ":totcost:matrix", "matrix evaluation of %s gives %s" % (gc.tolist(), Y))
    r.expect(np.array_equal(gc, g0), key + ":totcost:mutated", "cost table modified")
    return True


def derivs(r, key, gc, names):
    from pypower.polycost import polycost
    x = np.array([GRID[(3 + 7 * i) % len(GRID)] for i in range(len(names))])
    for d in range(6):
        for xs in (x, -x + 1.5, np.zeros(len(x))):
            ref = []
            for n, v in zip(names, xs):
                c = list(ROWS[n][1])[::-1]
                for _ in range(d):
                    c = [k * c[k] for k in range(1, len(c))]
                ref.append(sum(ck * v ** k for k, ck in enumerate(c)))
            y = polycost(gc, xs, d) if d else polycost(gc, xs)
            r.evals += 1
            r.expect(close(y, ref), key + ":polycost%d" % d, lambda: "derivative %d of %s at %s is %s, expected %s" % (d, gc.tolist(), xs, y, ref))


def run(item):
    r = Result()
    if item.get("k") == "pq":
        return pq(item, r)
    if item.get("k") == "pwl":
        return pwl(item, r)
    from pypower.modcost import modcost
    names = item["rows"]
    gc = table(names, item["pad"])
    key = "%s/%d" % ("+".join(names), item["pad"])
    F0 = [curve(n) for n in names]
    haspwl = any(ROWS[n][0] == 1 for n in names)
    if not evaluate(r, key, gc, F0):
        return r
    if not haspwl:
        derivs(r, key, gc, names)
    r.states.add(canon(gc))

    def walk(g, Fs, hist):
        for op, a in OPS:
            if op == "SCALE_X" and haspwl and a <= 0:
                continue
            g0 = g.copy()
            h = modcost(g, a) if op == "default" else modcost(g, a, op)
            r.transitions += 1
            k = key + ":" + ",".join("%s(%g)" % o for o in hist + [(op, a)])
            r.expect(np.array_equal(g, g0), k + ":mutated", "modcost changed its argument")
            if not r.expect(h.shape == g.shape and np.array_equal(h[:, :4], g[:, :4]), k + ":head", "model, startup, shutdown or size changed: %s" % h.tolist()):
                continue
            G = [step(F, op, a) for F in Fs]
            ok = evaluate(r, k, h, G)
            r.states.add(canon(h))
            if ok and len(hist) + 1 < item["d"]:
                walk(h, G, hist + [(op, a)])
    walk(gc, F0, [])
    r.validated += 1
    r.tag("mixed" if haspwl and any(ROWS[n][0] == 2 for n in names) else "pwl" if haspwl else "poly")
    return r


def pq(item, r):
    from pypower.pqcost import pqcost
    n, on = item["n"], item["on"]
    names = ["q", "p3", "l", "k", "p2", "c0"]
    for rows in (n, 2 * n):
        gc = table(names[:rows], 1)
        for how, arg in (("none", None), ("array", np.array(on, int)), ("list", list(on))):
            sel = list(range(n)) if arg is None else on
            g0 = gc.copy()
            p, q = pqcost(gc, n) if arg is None else pqcost(gc, n, arg)
            r.evals += 1
            k = "pq:%d:%s:%s:%d" % (n, on, how, rows)
            r.expect(np.array_equal(p, g0[sel]), k + ":p", "active cost rows are %s" % np.asarray(p).tolist())
            r.expect(np.array_equal(q, g0[[n + s for s in sel]]) if rows == 2 * n else np.size(q) == 0, k + ":q", "reactive cost rows are %s" % np.asarray(q).tolist())
            r.expect(np.array_equal(gc, g0), k + ":mut", "table modified")
            if len(sel):
                p[:] = -1.
                r.expect(np.array_equal(gc, g0), k + ":alias", "result shares memory with the table")
        r.states.add(canon([n, on, rows]))
    r.tag("pq"); r.validated += 1
    return r


def pwl(item, r):
    from pypower.poly2pwl import poly2pwl
    from pypower.totcost import totcost
    names = item["rows"]
    F = [curve(n) for n in names]
    lims = [(0., 40.), (10., 50.), (-20., 30.), (-30., 0.), (-30., -5.), (2., 3.)]
    for i, (l0, l1) in enumerate(itertools.product(lims, lims)):
        for npts in (3, 4, 7):
            pad = i % 2
            gc = table(names, pad)
            g0 = gc.copy()
            pmin, pmax = np.array([l0[0], l1[0]]), np.array([l0[1], l1[1]])
            h = poly2pwl(gc, pmin, pmax, npts)
            r.evals += 1
            k = "pwl:%s:%s:%s:%d" % ("+".join(names), l0, l1, npts)
            r.expect(np.array_equal(gc, g0), k + ":mutated", "poly2pwl changed its argument")
            for j in range(2):
                if not r.expect(h[j, 0] == 1 and h[j, 1] == g0[j, 1] and h[j, 2] == g0[j, 2] and h[j, 3] == npts and h.shape[1] >= 4 + 2 * npts,
                                k + ":head", "row header is %s" % h[j, :4]):
                    continue
                x, y = h[j, 4:4 + 2 * npts:2], h[j, 5:5 + 2 * npts:2]
                want = np.linspace(pmin[j], pmax[j], npts) if pmin[j] <= 0 else np.r_[0., np.linspace(pmin[j], pmax[j], npts - 1)]
                r.expect(close(x, want), k + ":x%d" % j, "points are %s, expected %s" % (x, want))
                r.expect(close(y, [F[j](v) for v in want]), k + ":y%d" % j, "values at %s are %s" % (x, y))
                r.expect(not h[j, 4 + 2 * npts:].any(), k + ":pad", "old data left in the row: %s" % h[j])
            mid = .5 * (pmin + pmax)
            if npts % 2 and (pmin <= 0).all():
                r.expect(close(totcost(h, mid), [F[j](mid[j]) for j in range(2)]), k + ":mid", "midpoint cost differs")
            r.states.add(canon(h))
    r.tag("poly2pwl"); r.validated += 1
    return r
