"""C15: LP/QP solutions are optimal, certified and honestly reported."""
import itertools
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix
from mc.core import Result, canon
from mc.qpref import solve, rows, _null

PROP = "C15"
LEVEL = "model_checking"
RULE = ("states: every QP/LP over small coefficient alphabets (all Hessians x costs x bound patterns x row multisets, 1-3 variables, 0-3 rows); "
        "each is solved by the real solver and judged by complete active-set enumeration (feasible / unbounded / optimum) and by the "
        "optimality conditions; every calling form and solver selection on the problems with at most one row. Non-trivial: the problem has a constraint")
ASSUMPTIONS = ["convex problems", "a solvable problem must be solved when its equality constraints are independent, it has a strictly feasible point and its set of solutions is bounded"]
inf = np.inf

H1 = [[[0.]], [[1.]], [[4.]]]
C1 = [(0.,), (1.,), (-1.,)]
B1 = [((-inf,), (inf,)), ((0.,), (inf,)), ((-1.,), (1.,)), ((-inf,), (2.,)), ((1.,), (1.,)), ((.5,), (.5006,))]
R1 = [((a,), lu) for a in (1., -1., 2.) for lu in ((-inf, 1.), (0., inf), (0., 1.), (1., 1.), (-inf, inf), (3., 5.), (1., 1.0006))]
H2 = [np.zeros((2, 2)).tolist(), np.eye(2).tolist(), [[1., 0.], [0., 0.]], [[2., 1.], [1., 2.]], [[1., 1.], [1., 1.]]]
C2 = [(0., 0.), (1., 0.), (-1., -1.), (1., -2.)]
THIN = [((1., 1.), (1., 1.0006)), ((1., -2.), (.5, .5004))]
B2 = [((-inf, -inf), (inf, inf)), ((0., 0.), (inf, inf)), ((-1., -1.), (1., 1.)), ((0., -inf), (2., 1.)), ((1., -1.), (1., inf))]
R2 = [(a, lu) for a in ((1., 0.), (1., 1.), (1., -1.), (0., 2.)) for lu in ((-inf, 1.), (0., inf), (0., 1.), (1., 1.))] + THIN
R2x = R2 + [((1., 1.), (5., 6.)), ((1., 1.), (-inf, inf)), ((2., -1.), (-1., 3.)), ((1., -1.), (-inf, -1.))]
H3 = [np.zeros((3, 3)).tolist(), np.diag([1., 2., 0.]).tolist(), [[2., 1., 0.], [1., 3., 1.], [0., 1., 1.]]]
C3 = [(1., 1., 1.), (-1., 0., 2.), (0., 0., 0.)]
B3 = [((0.,) * 3, (inf,) * 3), ((-1.,) * 3, (1., 2., 3.)), ((-inf, 0., -inf), (inf, inf, 1.))]
R3 = [(a, lu) for a in ((1., 1., 1.), (1., -1., 0.), (0., 1., 2.), (1., 0., 3.)) for lu in ((1., 1.), (-inf, 1.), (.5, 2.), (-1., inf))]
SPACE = {1: (H1, C1, B1, R1), 2: (H2, C2, B2, R2), 3: (H3, C3, B3, R3)}
FORMS = ["dict", "dictNone", "None", "csc", "x0", "alg200", "alg250", "noopt", "pips", "pipsdict", "cost_mult", "max_it0", "max_it1", "verbose"]


def build(tier):
    it = []
    deep = tier != "quick"
    for n, (Hs, cs, bs, rs) in SPACE.items():
        if n == 2 and deep:
            rs = R2x
        if n == 3 and not deep:
            rs = rs[::3]
        combos = [()] + [(i,) for i in range(len(rs))] + list(itertools.combinations_with_replacement(range(len(rs)), 2))
        if deep and n > 1:
            combos += list(itertools.combinations(range(len(rs)), 3))
        for h in range(len(Hs)):
            for c in range(len(cs)):
                for b in range(len(bs)):
                    for k in range(0, len(combos), 40):
                        it.append({"n": n, "h": h, "c": c, "b": b, "r": combos[k:k + 40], "x": deep, "forms": n == 1 or deep or (n == 2 and c in (0, 3))})
    return it


def mat(M, sparse=csr_matrix):
    return sparse(np.array(M, float))


def bounded_solutions(H, c, G, E, n):
    base = np.vstack([E, H, c[None]])
    if _null(np.vstack([base, G]), n).shape[1]:
        return False
    for k in range(n + 1):
        for s in itertools.combinations(range(len(G)), k):
            N = _null(np.vstack([base, G[list(s)]]), n)
            if N.shape[1] == 1:
                for d in (N[:, 0], -N[:, 0]):
                    if not len(G) or (G.dot(d) <= 1e-9).all():
                        return False
    return True


def strict(G, h, E, d, n):
    """does E x = d, G x < h have a point?  maximise the slack by vertex enumeration"""
    if not len(G):
        return True
    A = np.vstack([np.hstack([G, np.ones((len(G), 1))]), np.hstack([E, np.zeros((len(E), 1))])])
    k, f, x, _ = solve(np.zeros((n + 1, n + 1)), np.r_[np.zeros(n), -1.], A, np.r_[np.full(len(G), -inf), d], np.r_[h, d],
                       np.full(n + 1, -inf), np.r_[np.full(n, inf), 1.])
    return k == "optimal" and f < -1e-6


def certificate(r, key, H, c, A, l, u, lo, hi, x, f, lam, fopt, tolf, cm=1.):
    m, n = len(A), len(c)
    r.expect(np.all(np.isfinite(x)), key + ":finite", "x = %s" % x)
    sc = 1 + np.abs(x).max()
    Ax = A.dot(x) if m else np.zeros(0)
    v = max([0.] + list(l - Ax) + list(Ax - u) + list(lo - x) + list(x - hi))
    r.expect(v <= 1e-5 * sc, key + ":feasible", lambda: "reported optimum %s violates its constraints by %g" % (x, v))
    fx = .5 * x.dot(H).dot(x) + c.dot(x)
    r.expect(abs(fx - f) <= 1e-8 * (1 + abs(fx)), key + ":value", lambda: "f = %g but the objective at x is %g" % (f, fx))
    r.expect(abs(f - fopt) <= tolf * (1 + abs(fopt)), key + ":optimal", lambda: "f = %.8g, minimum is %.8g" % (f, fopt))
    for name, k in (("mu_l", m), ("mu_u", m), ("lower", n), ("upper", n)):
        if not r.expect(name in lam and np.shape(lam[name]) == (k,), key + ":%s:shape" % name, lambda: "multipliers %s have shape %s" % (name, np.shape(lam.get(name)))):
            return
    ml, mu, zl, zu = (np.asarray(lam[k]) for k in ("mu_l", "mu_u", "lower", "upper"))
    big = max([0.] + [np.abs(a).max() for a in (ml, mu, zl, zu) if len(a)])
    r.expect(min([0.] + [a.min() for a in (ml, mu, zl, zu) if len(a)]) >= -1e-9 * (1 + big), key + ":sign", "negative multiplier: %s" % {k: lam[k].tolist() for k in ("mu_l", "mu_u", "lower", "upper")})
    g = H.dot(x) + c + (A.T.dot(mu - ml) if m else 0) + zu - zl
    r.expect(np.abs(g).max() <= 2e-5 / cm * (1 + big), key + ":stationary", lambda: "gradient of the Lagrangian is %s at x=%s with %s" % (g, x, {k: lam[k].tolist() for k in ("mu_l", "mu_u", "lower", "upper")}))
    for mult, slack, nm in ((ml, Ax - l, "mu_l"), (mu, u - Ax, "mu_u"), (zl, x - lo, "lower"), (zu, hi - x, "upper")):
        for a, s in zip(mult, slack):
            bad = a > 1e-9 * (1 + big) if not np.isfinite(s) else a * s > 1e-4 / cm * (1 + abs(fopt)) * sc
            if not r.expect(not bad, key + ":slack:" + nm, lambda: "multiplier %g of a constraint with slack %g (%s)" % (a, s, nm)):
                return


def run(item):
    from pypower.qps_pypower import qps_pypower
    from pypower.qps_pips import qps_pips
    r = Result()
    n = item["n"]
    Hs, cs, bs, rs = SPACE[n]
    if n == 2 and item["x"]:
        rs = R2x
    if n == 3 and not item["x"]:
        rs = rs[::3]
    H = np.array(Hs[item["h"]]); c = np.array(cs[item["c"]]); lo, hi = (np.array(v) for v in bs[item["b"]])
    for comb in item["r"]:
        R = [rs[k] for k in comb]
        m = len(R)
        A = np.array([q[0] for q in R]).reshape(-1, n); l = np.array([q[1][0] for q in R]); u = np.array([q[1][1] for q in R])
        key = "n%d:h%d:c%d:b%d:r%s" % (n, item["h"], item["c"], item["b"], "_".join(map(str, comb)))
        kind, fopt, xopt, _ = solve(H, c, A, l, u, lo, hi)
        G, h, E, d = rows(n, A, l, u, lo, hi)
        easy = kind == "optimal" and (not len(E) or np.linalg.matrix_rank(E) == len(E)) and strict(G, h, E, d, n) and bounded_solutions(H, c, G, E, n)
        r.states.add(canon([H, c, A, l, u, lo, hi]))
        forms = ["plain"] + (FORMS if m <= 1 and item["forms"] else ["alg250"] if item["x"] else [])
        x00 = None
        for form in forms:
            sA = mat(A, csc_matrix if form == "csc" else csr_matrix) if m else None
            sH = mat(H, csc_matrix if form == "csc" else csr_matrix)
            args = dict(H=sH, c=c.copy(), A=sA, l=l.copy(), u=u.copy(), xmin=lo.copy(), xmax=hi.copy(), x0=None, opt={"verbose": 0})
            if form in ("None", "dictNone"):
                if not H.any() and (m or np.isfinite(lo).any() or np.isfinite(hi).any()):
                    args["H"] = None
                if m and np.isinf(l).all(): args["l"] = None
                if m and np.isinf(u).all(): args["u"] = None
                if not m: args["l"] = args["u"] = None
                if np.isinf(lo).all(): args["xmin"] = None
                if np.isinf(hi).all(): args["xmax"] = None
                if not c.any() and form == "dictNone": args["c"] = None
                if args["H"] is None and m == 0 and args["xmin"] is None and args["xmax"] is None:
                    continue
            opt = args["opt"]
            if form == "x0": args["x0"] = np.array([.3, -.2, .5])[:n]
            elif form == "alg200": opt["alg"] = 200
            elif form == "alg250": opt["alg"] = 250
            elif form == "noopt": args["opt"] = None
            elif form == "cost_mult": opt["pips_opt"] = {"cost_mult": 1e-2}
            elif form == "max_it0": opt["max_it"] = 0
            elif form == "max_it1": opt["max_it"] = 1
            elif form == "verbose": opt["verbose"] = 3
            order = ("H", "c", "A", "l", "u", "xmin", "xmax", "x0", "opt")
            solver = qps_pips if form.startswith("pips") else qps_pypower
            if solver is qps_pips:
                args["opt"] = {"verbose": 0}
            snap = canon([None if args[k] is None else (args[k].toarray() if hasattr(args[k], "toarray") else args[k]) for k in order])
            k2 = key + ":" + form
            r.evals += 1
            if form in ("dict", "dictNone", "pipsdict"):
                prob = {k: v for k, v in args.items() if v is not None}
                if form == "dictNone":
                    prob = dict(args)
                    if prob["opt"] is None: del prob["opt"]
                keys0 = sorted(prob)
                x, f, ok, out, lam = solver(prob)
                r.expect(sorted(prob) == keys0, k2 + ":mutated", "problem dict gained or lost keys")
            else:
                x, f, ok, out, lam = solver(*[args[k] for k in order])
            r.expect(canon([None if args[k] is None else (args[k].toarray() if hasattr(args[k], "toarray") else args[k]) for k in order]) == snap,
                     k2 + ":mutated", "arguments modified")
            r.tag("%s_%s" % (kind, "ok" if ok else "fail"))
            success = bool(ok) and ok > 0
            if form == "max_it1":
                r.expect(out["iterations"] <= 1, k2 + ":iterations", "%d iterations with a limit of 1" % out["iterations"])
            if solver is qps_pypower:
                r.expect(out.get("alg") == (250 if form == "alg250" else 200), k2 + ":alg", "output reports algorithm %s" % out.get("alg"))
            if success:
                if r.expect(kind == "optimal", k2 + ":" + kind, "success reported for an %s problem (x=%s, f=%s)" % (kind, x, f)):
                    certificate(r, k2, H, c, A, l, u, lo, hi, np.asarray(x, float), float(f), lam, fopt, (1e-4 if easy else 1e-3) * (10 if form == "cost_mult" else 1), 1e-2 if form == "cost_mult" else 1.)
            elif form != "max_it1":
                r.expect(not easy, k2 + ":unsolved", lambda: "problem with minimum %.6g at %s not solved: %s" % (fopt, xopt, out.get("message")))
            if form == "plain":
                x00, f00, ok00 = x, f, success
            elif form in ("dict", "dictNone", "None", "csc", "alg200", "noopt", "pips", "pipsdict", "max_it0", "verbose"):
                r.transitions += 1
                r.expect(success == ok00 and (not success or np.allclose(x, x00, 1e-7, 1e-7) or abs(f - f00) <= 1e-7 * (1 + abs(f00))), k2 + ":differs",
                         lambda: "form %s gives %s/%s, plain call %s/%s" % (form, success, x, ok00, x00))
        r.validated += 1
    return r
