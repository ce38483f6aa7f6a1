"""C16: the nonlinear solver reports first-order optimal points truthfully."""
import itertools
import numpy as np
from scipy.sparse import csr_matrix
from mc.core import Result, canon

PROP = "C16"
LEVEL = "model_checking"
RULE = ("states: the product objective x bound pattern x linear constraints x nonlinear constraints x starting point x option setting x calling "
        "form; each run of the real solver is judged by feasibility, first-order conditions with the returned multipliers, the convergence flag "
        "against the recorded history, and the iteration-by-iteration prefix property under smaller iteration limits. Non-trivial: at least one constraint")
ASSUMPTIONS = ["smooth problems with exact derivatives supplied"]
inf = np.inf


def quad(a, b, w=(1., 1.)):
    w = np.array(w); p = np.array([a, b])
    return (lambda x: (w * (x - p) ** 2).sum(), lambda x: 2 * w * (x - p), lambda x: np.diag(2 * w))


OBJ = {
    "quad": quad(2., 1.),
    "quad0": quad(-.5, -1., (1., 5.)),
    "lin": (lambda x: -x[0] - 2 * x[1], lambda x: np.array([-1., -2.]), lambda x: np.zeros((2, 2))),
    "exp": (lambda x: np.exp(x[0]) + np.exp(-x[1]) + .5 * (x[0] + x[1]) ** 2, lambda x: np.array([np.exp(x[0]) + x[0] + x[1], -np.exp(-x[1]) + x[0] + x[1]]),
            lambda x: np.array([[np.exp(x[0]) + 1, 1.], [1., np.exp(-x[1]) + 1]])),
    "rosen": (lambda x: (1 - x[0]) ** 2 + 10 * (x[1] - x[0] ** 2) ** 2,
              lambda x: np.array([-2 * (1 - x[0]) - 40 * x[0] * (x[1] - x[0] ** 2), 20 * (x[1] - x[0] ** 2)]),
              lambda x: np.array([[2 - 40 * x[1] + 120 * x[0] ** 2, -40 * x[0]], [-40 * x[0], 20.]])),
    "bilin": (lambda x: -x[0] * x[1] + .1 * x[0], lambda x: np.array([-x[1] + .1, -x[0]]), lambda x: np.array([[0., -1.], [-1., 0.]])),
}
CONVEX = ("quad", "quad0", "lin", "exp")
BND = {"none": ((-inf, -inf), (inf, inf)), "lo": ((0., -inf), (inf, inf)), "up": ((inf * -1, -inf), (1.5, 1.)), "box": ((-1., -1.), (1., 2.)), "fix": ((.5, -inf), (.5, 3.)),
       "mix": ((-inf, -.5), (1., inf))}
LIN = {"none": [], "le": [((1., 1.), -inf, 1.)], "ge": [((1., -2.), -1., inf)], "two": [((1., 1.), -1., 1.5)], "eq": [((1., 2.), 1., 1.)],
       "many": [((1., 0.), -inf, 5.), ((1., 1.), .25, .25), ((0., 1.), -2., inf), ((1., -1.), -3., 3.)], "free": [((1., 1.), -inf, inf)]}
# nonlinear functions: value, gradient, hessian
CIRC = lambda rr: (lambda x: x[0] ** 2 + x[1] ** 2 - rr, lambda x: 2 * x, lambda x: 2 * np.eye(2))
PARA = (lambda x: x[0] ** 2 - x[1] - 1., lambda x: np.array([2 * x[0], -1.]), lambda x: np.diag([2., 0.]))
HYP = (lambda x: x[0] * x[1] - .5, lambda x: np.array([x[1], x[0]]), lambda x: np.array([[0., 1.], [1., 0.]]))
NLN = {"none": ([], []), "ineq": ([], [CIRC(4.)]), "eq": ([CIRC(2.)], []), "both": ([HYP], [CIRC(9.)]), "ineq2": ([], [CIRC(4.), PARA]), "tight": ([], [CIRC(1e-2)]),
       "emptyfcn": ([], [])}
X0 = [(0., 0.), (1., .5), (-1.5, 2.), (.5, -3.)]
OPTS = {"def": {}, "sc": {"step_control": True}, "cm": {"cost_mult": 100.}, "cms": {"cost_mult": 1e-2, "step_control": True},
        "loose": {"feastol": 1e-4, "gradtol": 1e-4, "comptol": 1e-4, "costtol": 1e-4}, "tight": {"feastol": 1e-8, "gradtol": 1e-8, "comptol": 1e-8, "costtol": 1e-8},
        "verb": {"verbose": 3}}


def build(tier):
    it = []
    for o, b, l, n in itertools.product(OBJ, BND, LIN, NLN):
        it.append({"o": o, "b": b, "l": l, "n": n, "deep": tier != "quick"})
    return it


def jac(fs, x):
    return np.array([g(x) for _, g, _ in fs]).reshape(-1, 2)


def call(item, x0, opt, form):
    from pypower.pips import pips
    f, df, d2 = OBJ[item["o"]]
    eqs, ins = NLN[item["n"]]
    lin = LIN[item["l"]]
    lo, hi = (np.array(v, float) for v in BND[item["b"]])
    nonlinear = item["n"] != "none"

    def f_fcn(x, ret=False):
        return (f(x), df(x), csr_matrix(d2(x))) if ret or nonlinear else (f(x), df(x))

    def f2(x, ret=False):       # objective asked for the Hessian only when linear
        if ret:
            return f(x), df(x), csr_matrix(d2(x))
        return f(x), df(x)

    def gh(x):
        g = np.array([q[0](x) for q in eqs]); h = np.array([q[0](x) for q in ins])
        dg = csr_matrix(jac(eqs, x).T) if len(eqs) else None
        dh = csr_matrix(jac(ins, x).T) if len(ins) else None
        return h, g, dh, dg

    def hess(x, lam, cost_mult=1):
        L = cost_mult * d2(x)
        for m, q in zip(lam["eqnonlin"], eqs):
            L = L + m * q[2](x)
        for m, q in zip(lam["ineqnonlin"], ins):
            L = L + m * q[2](x)
        return csr_matrix(L)
    A = csr_matrix(np.array([r[0] for r in lin])) if lin else None
    l = np.array([r[1] for r in lin]) if lin else None
    u = np.array([r[2] for r in lin]) if lin else None
    if form == "none":          # absent means unlimited
        lo = None if np.isinf(lo).all() else lo
        hi = None if np.isinf(hi).all() else hi
        l = None if l is None or np.isinf(l).all() else l
        u = None if u is None or np.isinf(u).all() else u
    x0 = np.array(x0)
    opt = dict(opt); opt.setdefault("verbose", 0)
    o0, x00 = dict(opt), x0.copy()
    if form == "dict":
        p = {"f_fcn": f2, "x0": x0, "A": A, "l": l, "u": u, "xmin": lo, "xmax": hi, "opt": opt}
        if nonlinear:
            p["gh_fcn"] = gh; p["hess_fcn"] = hess
        k0 = sorted(p)
        s = pips(p)
        same = sorted(p) == k0
    else:
        s = pips(f2, x0, A, l, u, lo, hi, gh if nonlinear else None, hess if nonlinear else None, opt)
        same = True
    same = same and opt == o0 and np.array_equal(x0, x00)
    return s, same


def judge(r, key, item, s, opt):
    """feasibility and first-order conditions of a converged point"""
    f, df, d2 = OBJ[item["o"]]
    eqs, ins = NLN[item["n"]]
    lin = LIN[item["l"]]
    lo, hi = (np.array(v, float) for v in BND[item["b"]])
    x, lam = np.asarray(s["x"], float), s["lmbda"]
    cm = opt.get("cost_mult", 1.)
    ft, gt, ct = (opt.get(k, 1e-6) for k in ("feastol", "gradtol", "comptol"))
    A = np.array([q[0] for q in lin]).reshape(-1, 2); l = np.array([q[1] for q in lin]); u = np.array([q[2] for q in lin])
    g = np.array([q[0](x) for q in eqs]); h = np.array([q[0](x) for q in ins])
    Ax = A.dot(x)
    gaps = np.r_[h, l - Ax, Ax - u, lo - x, x - hi]
    fin = gaps[np.isfinite(gaps)]
    sc = 1 + max([np.abs(x).max()] + [np.abs(fin).max()] if len(fin) else [np.abs(x).max()])
    viol = max([0.] + list(np.abs(g)) + list(fin))
    r.expect(viol <= 1.05 * ft * sc + 1e-12, key + ":feasible", lambda: "converged at %s with violation %g" % (x, viol))
    r.expect(abs(s["f"] - f(x)) <= 1e-9 * (1 + abs(f(x))), key + ":f", lambda: "f = %g, objective at x is %g" % (s["f"], f(x)))
    le = np.asarray(lam.get("eqnonlin", np.zeros(len(g))), float); li = np.asarray(lam.get("ineqnonlin", np.zeros(len(h))), float)
    if not r.expect(le.shape == g.shape and li.shape == h.shape and all(np.shape(lam[k]) == (n,) for k, n in (("mu_l", len(A)), ("mu_u", len(A)), ("lower", 2), ("upper", 2))),
                    key + ":shapes", lambda: "multiplier shapes %s" % {k: np.shape(v) for k, v in lam.items()}):
        return
    ml, mu, zl, zu = (np.asarray(lam[k], float) for k in ("mu_l", "mu_u", "lower", "upper"))
    big = max([0.] + [np.abs(v).max() for v in (le, li, ml, mu, zl, zu) if len(v)])
    r.expect(all((v >= -1e-9 * (1 + big)).all() for v in (li, ml, mu, zl, zu)), key + ":sign", "negative multiplier %s" % {k: list(v) for k, v in lam.items()})
    Lx = df(x) + jac(eqs, x).T.dot(le) + jac(ins, x).T.dot(li) + A.T.dot(mu - ml) + zu - zl
    # multipliers below 1e-5 of slack constraints are zeroed by the solver
    slackterm = 1e-5 * (sum(np.abs(q).sum() for q in jac(ins, x)) + np.abs(A).sum() + 4)
    tol = (1.05 * gt * (1 + cm * big) + slackterm) / cm
    r.expect(np.abs(Lx).max() <= tol, key + ":stationary", lambda: "gradient of the Lagrangian is %s (tolerance %g) at %s with %s" % (Lx, tol, x, {k: list(v) for k, v in lam.items()}))
    tc = (1.05 * ct * (1 + np.abs(x).max()) + 2 * cm * big * ft * sc) / cm
    for m, gap in zip(np.r_[li, ml, mu, zl, zu], gaps):
        bad = m != 0 if not np.isfinite(gap) else m * -gap > tc
        if not r.expect(not bad, key + ":slackness", lambda: "multiplier %g of a constraint with gap %g" % (m, gap)):
            break


def run(item):
    r = Result()
    x0s = X0 if item["deep"] else X0[1:3]
    convex = item["o"] in CONVEX and item["n"] in ("none", "ineq", "ineq2", "emptyfcn")
    bounded = item["o"] in ("quad", "quad0", "exp") or item["b"] in ("up", "box") or item["n"].startswith("ineq")
    key0 = "%s:%s:%s:%s" % (item["o"], item["b"], item["l"], item["n"])
    solved = 0
    for i0, x0 in enumerate(x0s):
        full = None
        for on, opt in OPTS.items():
            forms = ("args", "dict", "none") if on == "def" else ("args",)
            if on in ("verb",) and i0:
                continue
            for form in forms:
                key = "%s:x%d:%s:%s" % (key0, i0, on, form)
                s, same = call(item, x0, opt, form)
                r.evals += 1
                r.states.add(canon(key))
                r.expect(same, key + ":mutated", "options, start point or problem dict modified")
                ok = bool(s["eflag"]) and s["eflag"] == 1
                it, hist = s["output"]["iterations"], s["output"]["hist"]
                r.tag("converged" if ok else "failed")
                r.expect(it <= 150 and len(hist) == it + 1 or not ok and len(hist) in (it, it + 1), key + ":hist", "%d iterations, history of %d" % (it, len(hist)))
                r.expect(("onverged" in s["output"]["message"]) == ok or "not" in s["output"]["message"], key + ":message", "message %r with flag %s" % (s["output"]["message"], s["eflag"]))
                conds = all(hist[-1][c] < opt.get(t, 1e-6) for c, t in (("feascond", "feastol"), ("gradcond", "gradtol"), ("compcond", "comptol"), ("costcond", "costtol")))
                r.expect(conds == ok or (not ok and len(hist) == it), key + ":flag", lambda: "flag %s but last conditions %s" % (s["eflag"], hist[-1]))
                if ok:
                    judge(r, key, item, s, opt)
                    solved += 1
                elif item["o"].startswith("quad") and item["n"] in ("none", "emptyfcn") and on != "tight":
                    # strictly feasible convex quadratic program: must be solved
                    r.expect(not strictly(item), key + ":unsolved", lambda: "convex problem not solved: %s after %d iterations" % (s["output"]["message"], it))
                if on == "def" and form == "args":
                    full = s
                elif on == "def":
                    r.transitions += 1
                    r.expect(np.array_equal(s["x"], full["x"]) and s["f"] == full["f"] and it == full["output"]["iterations"], key + ":differs",
                             lambda: "calling form changes the result: %s vs %s" % (s["x"], full["x"]))
        # iteration limits: a shorter run is a prefix of the longer one
        n = full["output"]["iterations"]
        for k in (0, 1, 2, max(n - 1, 0), n):
            if i0 and k > 1 and not item["deep"]:
                continue
            s, same = call(item, x0, {"max_it": k}, "args")
            r.evals += 1; r.transitions += 1
            key = "%s:x%d:max_it%d" % (key0, i0, k)
            r.expect(s["output"]["iterations"] <= k, key + ":limit", "%d iterations with a limit of %d" % (s["output"]["iterations"], k))
            if k < n:
                r.expect(not s["eflag"], key + ":flag", "convergence reported after %d of %d iterations" % (k, n))
            a, b = s["output"]["hist"], full["output"]["hist"]
            r.expect(all(np.allclose([u[c] for c in u], [v[c] for c in u], 1e-9, 1e-300, True) for u, v in zip(a, b)) and len(a) == min(k, n) + 1 or len(b) != n + 1,
                     key + ":prefix", "the first iterations differ from the unlimited run")
        r.validated += 1
    r.expect(solved or not (convex and bounded and strictly(item)), key0 + ":neversolved", "strictly feasible convex problem not solved from any start with any options")
    return r


_STRICT = {}


def strictly(item):
    """a grid point satisfying every constraint strictly (equalities: found on a fine line grid)"""
    k = (item["b"], item["l"], item["n"])
    if k not in _STRICT:
        lo, hi = (np.array(v, float) for v in BND[item["b"]])
        _, ins = NLN[item["n"]]
        lin = LIN[item["l"]]
        eq = [(np.array(a), b) for a, b, c in lin if b == c] + [(np.eye(2)[i], lo[i]) for i in range(2) if lo[i] == hi[i]]
        pts = []
        if not eq:
            t = np.arange(-3, 3.01, .25) + .01
            pts = [np.array(p) for p in itertools.product(t, t)]
        elif len(eq) == 1:
            a, b = eq[0]
            base = a * b / a.dot(a); d = np.array([-a[1], a[0]])
            pts = [base + s * d for s in np.arange(-3, 3.001, .01)]
        elif abs(np.linalg.det(np.array([e[0] for e in eq[:2]]))) > 1e-9 and len(eq) == 2:
            pts = [np.linalg.solve(np.array([e[0] for e in eq]), np.array([e[1] for e in eq]))]
        ok = False
        for x in pts:
            if all(q[0](x) < -.05 for q in ins) and all((b == c) or (np.dot(a, x) < c - .05 and np.dot(a, x) > b + .05) for a, b, c in lin) and \
               all(lo[i] == hi[i] or (lo[i] + .05 < x[i] < hi[i] - .05) for i in range(2)):
                ok = True; break
        _STRICT[k] = ok
    return _STRICT[k]
