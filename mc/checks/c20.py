"""C20: user-supplied OPF constraints, variables and costs."""
import itertools, math, os, shutil, tempfile
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix, coo_matrix, lil_matrix
from mc.core import Result, canon
from mc.space import *
from mc.space import apply as sp_apply
from mc.checks import c17, c18
from mc import phys, api

PROP = "C20"
LEVEL = "model_checking"
RULE = ("states: every set of at most two user extras (rows on one or two variables, equalities, one-sided rows, extra variables with bounds and initial values, "
        "linear / quadratic / dead-zone / shifted / scaled / cross-coupled costs) x case edits (units, branches, buses out of service, orderings, numbering, base) x DC/AC; the solution is judged by a complete "
        "first-order certificate of the problem so extended (in the DC problem a proof of optimality) and every supply route must give the identical answer. Non-trivial: the extended problem was solved")
ASSUMPTIONS = ["user costs with a non-differentiable point at the solution are only checked for feasibility and cost", "columns of units and buses that are out of service count as zero",
               "the DC problem is only claimed for costs that are linear or quadratic (d=1, h=0), others must be refused",
               "success is demanded in the DC problem when an LP finds a point with margin 1e-3, in the AC problem when an independent NLP search finds a point with margin 1e-3"]
INF = np.inf


def n3():
    p = mk([bus(20, 3, 20., 5., va=5., vmax=1.06, vmin=.94), bus(5, 2, 10., vmax=1.07, vmin=.93), bus(11, 1, 70., 25., 1., 4., vmin=.95)],
           [gen(20, 40., pmax=150., pmin=10., qmax=80., qmin=-40.), gen(5, 35., pmax=120., pmin=0., qmax=50., qmin=-30.), gen(20, 20., pmax=60., pmin=0., qmax=30., qmin=-20.)],
           [br(20, 5, .02, .12, .06, rate=60.), br(5, 11, .03, .15, .02, rate=45.), br(20, 11, .01, .10, 0., tap=.97, rate=90.)],
           [[2, 100, 0, 3, .10, 5., 20.] + [0] * 3, [2, 50, 0, 3, .06, 8., 2.] + [0] * 3, [1, 0, 0, 3, 0., 0., 25., 300., 60., 900.]])
    return p


def n4():
    return mk([bus(7, 1, 30., 10., zone=2), bus(2, 2, area=2), bus(9, 3, 25., 5., va=-4.), bus(4, 1, 35., 12., area=2)],
              [gen(9, 10., pmax=200., pmin=0.), gen(2, 45., pmax=90.), gen(4, 15., pmax=60., pmin=0.)],
              [br(7, 2, .02, .10, .04, rate=60.), br(2, 9, .015, .09, .03, rate=50.), br(9, 7, .01, .08, 0., tap=1.02, rate=0.), br(9, 4, .03, .14, .05, rate=50.),
               br(9, 4, .025, .12, .02, rate=100., shift=2.)],
              [[2, 0, 0, 3, .08, 6., 10.], [2, 0, 0, 3, .03, 14., 1.], [2, 0, 0, 3, .05, 7., 4.]])


NETS = {"n3": n3, "n4": n4}


# ------------------------------------------------------------------ extras (external ordering, p.u. and radians)
def X(rows=(), z=(), costs=(), H=()):
    """rows: (coefs, l, u); z: (z0, lo, hi); costs: (coefs, Cw, (d, rh, h, m)); H: (i, j, v)"""
    return {"rows": list(rows), "z": list(z), "costs": list(costs), "H": list(H)}


def P(k): return ("Pg", k)
def Q(k): return ("Qg", k)
def A(k): return ("Va", k)
def V(k): return ("Vm", k)
Z0 = ("z", 0)

ROWS = {
    "pmax": X([({P(1): 1.}, -INF, .2)]), "pmin": X([({P(1): 1.}, .6, INF)]), "peq": X([({P(0): 1.}, .33, .33)]), "pdiff": X([({P(0): 1., P(1): -1.}, -.05, .05)]),
    "psum": X([({P(1): 1., P(2): 2.}, 1.1, 1e12)]), "ploose": X([({P(0): 1., P(1): 1., P(2): 1.}, -1e12, 50.)]), "pscaled": X([({P(2): 100.}, -1e10, 12.)]),
    "ang": X([({A(0): 1., A(2): -1.}, -.02, .02)]), "ang1": X([({A(1): 2.}, -INF, 2 * .06)]), "pang": X([({P(1): 1., A(2): 3.}, -INF, .3)]),
    "two": X([({P(0): 1.}, -INF, .45), ({P(1): 1., A(1): -1.}, .2, .4)]), "zuse": X([({P(1): 1., Z0: -10.}, 0., 0.)], [(0., -INF, INF)], [({Z0: 1.}, 1., (2, 0., 0., 3000.))]),
    "zH": X([({P(1): 1., Z0: -1.}, .1, .1)], [(.2, -5., 5.)], [({Z0: 1.}, 4., None)], [(0, 0, 2500.)]),
    "zsoft": X([({P(1): 1., Z0: 1.}, .7, INF)], [(0., 0., INF)], [({Z0: 1.}, 1200., None)]), "zbox": X([({P(0): 1., P(2): 1., Z0: 1.}, .9, .9)], [(.5, .2, .35)]),
    "zdef": X([({P(0): 1., Z0: -1.}, 0., 0.)], [None], [({Z0: 1.}, 0., None)], [(0, 0, 900.)]), "z2": X([({P(1): 1., ("z", 1): 1.}, .7, INF), ({Z0: 1., ("z", 1): 1.}, .5, .5)], [(0., 0., .4), (.2, 0., INF)], [({Z0: 1.}, 300., None), ({("z", 1): 2.}, 450., None)]),
    "infeas": X([({P(0): 1., P(1): 1., P(2): 1.}, -INF, .4)]), "none": X([({P(1): 1.}, -INF, INF)]), "zero": X([({}, -1., 1.)]),
}
ACROWS = {"qmax": X([({Q(1): 1.}, -INF, .02)]), "qsum": X([({Q(0): 1., Q(1): 1., Q(2): 1.}, .1, .12)]), "vmax": X([({V(2): 1.}, -INF, .99)]), "vdiff": X([({V(0): 1., V(1): -1.}, -.001, .001)]),
          "pq": X([({P(1): 1., Q(1): -2.}, -INF, .1)]), "zv": X([({V(2): 1., Z0: 1.}, 1.02, INF)], [(0., 0., .2)], [({Z0: 1.}, 800., None)])}
COSTS = {
    "cl": X(costs=[({P(1): 1.}, 700., None)]), "clneg": X(costs=[({P(1): 1.}, -300., (1, 0., 0., 1.))]), "cm": X(costs=[({P(0): 1.}, -25., (1, .2, 0., -8.))]),
    "ch": X(costs=[({P(1): 1.}, 0., (1, .3, 0., 2.))], H=[(0, 0, 1500.)]), "chdef": X(costs=[({P(1): 1.}, -200., None)], H=[(0, 0, 800.)]),
    "cx": X(costs=[({P(0): 1., P(1): -1.}, 30., (1, .1, 0., 1.)), ({P(2): 1., A(1): 1.}, -20., (1, -.05, 0., 3.))], H=[(0, 0, 900.), (0, 1, 200.), (1, 0, 200.), (1, 1, 400.)]),
    "ca": X(costs=[({A(0): 1., A(2): -1.}, 0., None)], H=[(0, 0, 2e4)]),
    "csum": X(costs=[({P(0): .5, P(1): .5, P(2): .5}, 100., (1, .1, 0., 2.)), ({P(1): 1.}, 50., (1, 0., 0., 1.))]),
}
NLCOSTS = {
    "cq": X(costs=[({P(1): 1.}, 1., (2, .2, 0., 2000.))]), "cdz": X(costs=[({P(1): 1.}, 1., (2, .45, .1, 3000.))]), "cdzin": X(costs=[({P(0): 1.}, 1., (2, .45, 3., 3000.))]),
    "cd1": X(costs=[({P(1): 1.}, 400., (1, .1, .05, 1.))]), "cdH": X(costs=[({P(2): 1.}, 0., (1, .5, .1, 1.))], H=[(0, 0, 5000.)]), "cqm": X(costs=[({P(0): 2.}, -3., (2, .3, .02, -400.))]),
    "cmix": X(costs=[({P(1): 1.}, 1., (2, .1, .05, 900.)), ({P(0): 1.}, 200., (1, .2, 0., 1.))]),
}
ACCOSTS = {"cv": X(costs=[({V(2): 1.}, 1., (2, .97, 0., 3e4))]), "cvd": X(costs=[({V(0): 1., V(1): -1.}, 1., (2, .02, .005, 5e4))]), "cvq": X(costs=[({Q(1): 1.}, 1., (2, .3, .02, 800.))]), "cql": X(costs=[({Q(0): 1.}, 150., None)])}
ALL = {}
for d in (ROWS, ACROWS, COSTS, NLCOSTS, ACCOSTS):
    ALL.update(d)


def join(names):
    out = X()
    for n in names:
        e = ALL[n]
        sh, nc = len(out["z"]), len(out["costs"])
        mv = lambda c: dict((("z", v[1] + sh) if v[0] == "z" else v, x) for v, x in c.items())
        out["rows"] += [(mv(c), l, u) for c, l, u in e["rows"]]
        out["costs"] += [(mv(c), w, f) for c, w, f in e["costs"]]
        out["z"] += e["z"]
        out["H"] += [(i + nc, j + nc, v) for i, j, v in e["H"]]
    return out


EDITS = [(), (("gen_off", 1),), (("gen_off", 0),), (("bus_first", 2), ("renum", "odd")), (("swap", 0, 1),), (("br_off", 1),), (("base", 10.),), (("iso3",),), (("isoref2",),), (("gen_neg", 2), ("bus_first", 1))]


def e_iso3(p):
    """an isolated first bus with a unit and a branch of its own in front of everything"""
    p["bus"] = np.vstack([bus(33, 4, 50., 9., va=11.), p["bus"]])
    p["branch"] = np.vstack([br(33, p["bus"][1, 0], .01, .1), p["branch"]])

def e_isoref2(p):
    p["bus"] = np.vstack([p["bus"][:2], bus(1, 4, 12., 3.), p["bus"][2:]])
    p["gen"] = np.vstack([p["gen"][:1], gen(1, 22., pmax=90.), p["gen"][1:]])
    c = np.zeros((1, p["gencost"].shape[1])); c[0, :6] = 2, 0, 0, 2, 3., 1.
    p["gencost"] = np.vstack([p["gencost"][:1], c, p["gencost"][1:]])


def do(p, e):
    if e[0] in ("iso3", "isoref2"):
        globals()["e_" + e[0]](p); return True
    return c18.do(p, e)


def dims(p):
    return len(p["bus"]), len(p["gen"])


def col(p, v, form):
    nb, ng = dims(p)
    if form == "ac":
        off = {"Va": 0, "Vm": nb, "Pg": 2 * nb, "Qg": 2 * nb + ng, "z": 2 * nb + 2 * ng}
    else:
        off = {"Va": 0, "Pg": nb, "z": nb + ng}
    return off[v[0]] + v[1]


def arrays(p, x, form):
    nb, ng = dims(p)
    nx = (2 * nb + 2 * ng) if form == "ac" else nb + ng
    n = nx + len(x["z"])
    def mat(rows):
        M = np.zeros((len(rows), n))
        for i, c in enumerate(rows):
            for v, a in c.items():
                M[i, col(p, v, form)] += a
        return M
    f = {}
    if x["rows"]:
        f["A"] = csr_matrix(mat([c for c, l, u in x["rows"]])); f["l"] = np.array([l for c, l, u in x["rows"]]); f["u"] = np.array([u for c, l, u in x["rows"]])
    if x["costs"]:
        f["N"] = csr_matrix(mat([c for c, w, q in x["costs"]])); f["Cw"] = np.array([w for c, w, q in x["costs"]], float)
        if any(q is not None for c, w, q in x["costs"]):
            f["fparm"] = np.array([q or (1, 0., 0., 1.) for c, w, q in x["costs"]], float)
        if x["H"]:
            m = len(x["costs"])
            H = np.zeros((m, m))
            for i, j, v in x["H"]:
                H[i, j] += v
            f["H"] = csr_matrix(H)
    if any(z is not None for z in x["z"]):
        zz = [z or (0., -INF, INF) for z in x["z"]]
        for k, i in (("z0", 0), ("zl", 1), ("zu", 2)):
            f[k] = np.array([q[i] for q in zz], float)
    return f


def convexDC(x):
    return all(q is None or (q[0] == 1 and q[2] == 0) for c, w, q in x["costs"])


# ------------------------------------------------------------------ routes
E0 = np.array([])


def routes(p, x, dc, tier):
    f = arrays(p, x, "dc" if dc else "ac")
    out = ["field"]
    hasz, hasn = "z0" in f, "N" in f
    if "A" in f:
        out += ["opf5" if not hasn and not hasz else "opf12"]
        out += ["mat10" if not hasn and not hasz else "mat17"]
        if not hasz:
            out += ["opf9", "mat14"]
            if not hasn:
                out += ["opf4", "mat9"] if not dc else []
        if hasn or hasz:
            out += ["mixA"]
        if (np.array(f["l"]) <= -1e9).all() or (np.array(f["u"]) >= 1e9).all():
            out += ["emptybound", "emptybound-field"]
    elif hasn:
        out += ["opf9", "mat14", "opf12"]
    out += ["csc", "lil", "file", "mat"]
    if dc:
        out += ["acform"]
    if "fparm" not in f and hasn:
        out += ["fparmdef"]
    if hasn and "H" not in f:
        out += ["Hzero"]
    if hasz:
        out += ["z0none"]
    if all(float(v).is_integer() for k in f for v in np.asarray(f[k].toarray() if k in "ANH" else f[k]).ravel()):
        out += ["int"]
    if all(v in (0, 1, -1) for k in "AN" if k in f for v in f[k].toarray().ravel()):
        out += ["intmat"]
    out += ["uopf"]
    return out


def call(p, x, route, dc, opt, tmp):
    """-> results dict"""
    from pypower.opf import opf
    from pypower.runopf import runopf
    from pypower.rundcopf import rundcopf
    from pypower.runuopf import runuopf
    from pypower.runduopf import runduopf
    form = "dc" if dc else "ac"
    f = arrays(p, x, "ac" if route == "acform" else form)
    q = api.clone(p)
    o = api.opts(**dict(opt, **({"PF_DC": True} if dc else {})))
    g = lambda k: f.get(k, None if k in ("A", "N", "H") else E0)
    if route == "mixA":
        for k in f:
            if k not in ("A", "l", "u"):
                q[k] = f[k]
        return opf(q, f["A"], f["l"], f["u"], o)
    if route == "emptybound":
        l, u = (E0, f["u"]) if (f["l"] <= -1e9).all() else (f["l"], E0)
        if len(f) == 3:
            return opf(q, f["A"], l, u, o)
        return opf(q, f["A"], l, u, o, *[g(k) for k in ("N", "fparm", "H", "Cw", "z0", "zl", "zu")])
    if route.startswith("opf") or route.startswith("mat") and route != "mat":
        n = int(route[3:])
        a = [g("A"), g("l"), g("u"), o, g("N"), g("fparm"), g("H"), g("Cw"), g("z0"), g("zl"), g("zu")]
        if route.startswith("opf"):
            return opf(*([q] + a[:n - 1]))
        return opf(*([q["baseMVA"], q["bus"], q["gen"], q["branch"], q["areas"], q["gencost"]] + a[:n - 6]))
    if route in ("csc", "lil", "coo"):
        mk_ = {"csc": csc_matrix, "lil": lil_matrix, "coo": coo_matrix}[route]
        f = dict((k, mk_(v) if k in "ANH" else v) for k, v in f.items())
    if route == "int":
        f = dict((k, v.astype(int)) for k, v in f.items())
    if route == "intmat":
        f = dict((k, v.astype(int) if k in "AN" else v) for k, v in f.items())
    if route == "fparmdef":
        f["fparm"] = np.tile([1., 0., 0., 1.], (len(f["Cw"]), 1))
    if route == "Hzero":
        f["H"] = csr_matrix((len(f["Cw"]),) * 2)
    if route == "z0none":
        del f["z0"]
    if route == "emptybound-field":
        f["l" if (f["l"] <= -1e9).all() else "u"] = E0
    q.update(f)
    if route == "file":
        fn = os.path.join(tmp, "usercase.py")
        dump = lambda v: repr(v) if not isinstance(v, np.ndarray) else "array(%s)" % v.tolist()
        with open(fn, "w") as fh:
            fh.write("from numpy import array, inf\nfrom scipy.sparse import csr_matrix\nnan = None\ndef usercase():\n    p = {}\n")
            for k, v in q.items():
                fh.write("    p[%r] = %s\n" % (k, "csr_matrix(%s)" % v.toarray().tolist() if k in ("A", "N", "H") else dump(v)))
            fh.write("    return p\n")
        q = fn
    elif route == "mat":
        from scipy.io import savemat
        fn = os.path.join(tmp, "usercase.mat")
        savemat(fn, {"ppc": q})
        q = fn
    if route == "uopf":
        return (runduopf if dc else runuopf)(q, o)
    return (rundcopf if dc else runopf)(q, o)


def build(tier):
    quick = tier == "quick"
    items = []
    for dc in (True, False):
        names = sorted(ROWS) + sorted(COSTS) + sorted(NLCOSTS) + ([] if dc else sorted(ACROWS) + sorted(ACCOSTS))
        rows = [n for n in names if ALL[n]["rows"]]
        costs = [n for n in names if not ALL[n]["rows"]]
        core_r, core_c = ["pdiff", "zsoft", "zbox", "ang", "pmin", "vdiff"], ["cl", "cx", "cdz", "cv", "ch"]
        for net in sorted(NETS):
            for ei, ed in enumerate(EDITS):
                base = {"dc": dc, "net": net, "ed": ei, "quick": quick}
                for ni, n in enumerate(names):
                    if quick and not dc and net == "n4" and ei and (ni + ei) % 2 and ei != 3:
                        continue
                    rt = not quick or (ei in (0, 2, 8) if net == "n3" else ei in (3,))
                    if quick and rt and not dc:     # the plain net with everything, the edited ones with every third extra
                        rt = ei == 0 or (ni + ei) % 3 == 0
                    items.append(dict(base, k="x", ex=[n], routes=rt))
                if quick and ei not in (0, 2, 3, 7, 8):
                    continue
                for a, b in itertools.combinations(names, 2):
                    core = (a in core_r + core_c) + (b in core_r + core_c)
                    if quick and (core < 2 if (ei or net == "n4" or not dc) else core < 1):
                        continue
                    if quick and ei not in (0, 8) and not dc and net == "n4":
                        continue
                    if {a, b} & {"infeas"} and quick:
                        continue
                    items.append(dict(base, k="x", ex=[a, b], routes=not quick and core == 2 and ei in (0, 2, 8)))
            for n in ([] if quick and net == "n4" else names):
                items.append({"dc": dc, "net": net, "ed": 0, "k": "x", "ex": [n], "routes": False, "opt": {"OPF_ALG_DC": 250} if dc else {"OPF_ALG": 565}})
        items.append({"k": "malformed", "dc": dc, "net": "n3"})
        items.append({"k": "native", "dc": dc, "net": "n3"})
        items.append({"k": "native", "dc": dc, "net": "n4"})
    items.append({"k": "args", "dc": False, "net": "n3"})
    return items


def run(item):
    r = Result()
    tmp = tempfile.mkdtemp(prefix="c20_")
    try:
        globals()["k_" + item["k"]](r, item, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r


# ------------------------------------------------------------------ judging one solution
def uvalue(x, val):
    """cost, gradient dict, kink flag of the user cost at val(var)"""
    m = len(x["costs"])
    H = np.zeros((m, m))
    for i, j, v in x["H"]:
        H[i, j] += v
    w, dw, kink = np.zeros(m), np.zeros(m), False
    C = np.zeros(m)
    for i, (c, cw, q) in enumerate(x["costs"]):
        d, rh, h, mm = q or (1, 0., 0., 1.)
        u = sum(a * val(v) for v, a in c.items()) - rh
        if h > 0 and d == 1 and abs(abs(u) - h) < 1e-4:
            kink = True
        uu = 0. if abs(u) <= h else u - math.copysign(h, u)
        if h == 0:
            uu = u
        w[i] = mm * (uu if d == 1 else uu ** 2)
        dw[i] = 0. if h > 0 and abs(u) <= h else mm * (1. if d == 1 else 2 * uu)
        C[i] = cw
    g = dw * (C + H.dot(w))
    grad = {}
    for i, (c, cw, q) in enumerate(x["costs"]):
        for v, a in c.items():
            grad[v] = grad.get(v, 0.) + g[i] * a
    return float(.5 * w.dot(H).dot(w) + C.dot(w)), grad, kink


def live(p, v):
    if v[0] == "z":
        return True
    if v[0] in ("Pg", "Qg"):
        return v[1] in phys.live_gens(p)
    return p["bus"][v[1], BUS_TYPE] != 4


def valuer(p, res):
    base = p["baseMVA"]
    def val(v):
        if not live(p, v):
            return 0.
        k = v[1]
        if v[0] == "Pg": return res["gen"][k, PG] / base
        if v[0] == "Qg": return res["gen"][k, QG] / base
        if v[0] == "Va": return math.radians(res["bus"][k, VA])
        if v[0] == "Vm": return res["bus"][k, VM]
        return res["var"]["val"]["z"][k]
    return val


def judge(r, p, x, res, dc, key, flow=0):
    base = p["baseMVA"]
    E = r.expect
    val = valuer(p, res)
    f = arrays(p, x, "dc" if dc else "ac")
    if x["z"]:
        z = np.asarray(res["var"]["val"].get("z", []))
        if not E(z.shape == (len(x["z"]),), key + ":z", "extra variables in the results have shape %s" % (z.shape,)):
            return
    xm = 1 + np.abs(res["x"]).max()
    uc, grad, kink = uvalue(x, val)
    mult = {}
    nr = len(x["rows"])
    lam = [0.]
    for b in res["bus"]:
        if b[BUS_TYPE] != 4:
            lam += [abs(b[LAM_P]), abs(b[LAM_Q])]
    sc = (1 + max(lam)) * base
    if nr:
        ml, mu = np.asarray(res["lin"]["mu"]["l"]["usr"]), np.asarray(res["lin"]["mu"]["u"]["usr"])
        if not E(ml.shape == (nr,) and mu.shape == (nr,), key + ":mushape", "multipliers of %d user rows have shapes %s %s" % (nr, ml.shape, mu.shape)):
            return
        for i, (c, l, u) in enumerate(x["rows"]):
            a = sum(cc * val(v) for v, cc in c.items())
            sz = max([1.] + [abs(cc) for cc in c.values()])
            t = 2e-5 * xm * sz
            E(l - t <= a <= u + t, key + ":row", "user row %d is %g outside [%g, %g]" % (i, a, l, u))
            E(ml[i] > -1e-5 * sc and mu[i] > -1e-5 * sc, key + ":rowsign", "user row %d multipliers %g %g" % (i, ml[i], mu[i]))
            tc = 2e-4 * sc * xm
            if l == u:
                pass
            else:
                E((l <= -1e10 and ml[i] == 0) or ml[i] * (a - l) < tc, key + ":rowcomp", "user row %d at %g of [%g, %g], multipliers %g %g" % (i, a, l, u, ml[i], mu[i]))
                E((u >= 1e10 and mu[i] == 0) or mu[i] * (u - a) < tc, key + ":rowcomp", "user row %d at %g of [%g, %g], multipliers %g %g" % (i, a, l, u, ml[i], mu[i]))
            for v, cc in c.items():
                mult[v] = mult.get(v, 0.) + cc * (mu[i] - ml[i])
        E(np.array_equal(res["A"].toarray(), f["A"].toarray()), key + ":A", "results do not carry the user rows in external ordering")
    for v in grad:
        mult[v] = mult.get(v, 0.) + grad[v]
    if x["costs"]:
        E(abs(res["cost"]["usr"] - uc) < 1e-6 * (1 + abs(uc)) + 1e-6, key + ":ucost", "reported user cost %r, the solution costs %r" % (res["cost"]["usr"], uc))
        E(np.array_equal(res["N"].toarray(), f["N"].toarray()), key + ":N", "results do not carry the user cost rows in external ordering")
    for j, zz in enumerate(x["z"]):
        z0, lo, hi = zz or (0., -INF, INF)
        v = val(("z", j)); t = 2e-5 * xm
        E(lo - t <= v <= hi + t, key + ":zlim", "extra variable %d at %g outside [%g, %g]" % (j, v, lo, hi))
        a, b = res["var"]["mu"]["l"]["z"][j], res["var"]["mu"]["u"]["z"][j]
        E(a > -1e-5 * sc and b > -1e-5 * sc, key + ":zsign", "extra variable %d multipliers %g %g" % (j, a, b))
        E((a == 0 if lo == -INF else a * (v - lo) < 2e-4 * sc * xm) and (b == 0 if hi == INF else b * (hi - v) < 2e-4 * sc * xm), key + ":zcomp", "extra variable %d at %g of [%g, %g], multipliers %g %g" % (j, v, lo, hi, a, b))
        if not kink:
            E(abs(mult.get(("z", j), 0.) + b - a) < 1e-3 * sc, key + ":zstat", "extra variable %d has reduced cost %g" % (j, mult.get(("z", j), 0.) + b - a))
    if kink:
        r.tag("kink")
        q = Result()
    else:
        q = r
    mult = dict((v, m) for v, m in mult.items() if live(p, v))
    mup = dict((v[1], m / base) for v, m in mult.items() if v[0] == "Pg")
    nm = dict((k, int(b[0])) for k, b in enumerate(p["bus"]))
    if dc:
        c17.certify(c17.Net(p), res, q, key, extra_cost=uc, mup=mup, angx=dict((nm[v[1]], m) for v, m in mult.items() if v[0] == "Va"))
    else:
        muq = dict((v[1], m / base) for v, m in mult.items() if v[0] == "Qg")
        va = dict((nm[v[1]], m) for v, m in mult.items() if v[0] == "Va"); vm = dict((nm[v[1]], m) for v, m in mult.items() if v[0] == "Vm")
        more = lambda VV: sum(m * np.angle(VV[b]) for b, m in va.items()) + sum(m * abs(VV[b]) for b, m in vm.items())
        c18.certify(p, res, flow, q, key, more=more, extra_cost=uc, mup=mup, muq=muq, slack=3.)
    if kink:
        for k, m in q.violations:
            if ":stat" not in k and ":comp" not in k:
                r.bad(k, m)


def dcmargin(p, x):
    """LP margin of the extended DC problem"""
    N = c17.Net(p)
    nz = len(x["z"])
    pos = dict((i, k) for k, i in enumerate(N.lg))
    def aug(nb, n, bal, rhs):
        Ae, be, Ai, bi = [], [], [], []
        def c_(v):
            if v[0] == "Va":
                return N.bi[int(p["bus"][v[1], 0])]
            if v[0] == "Pg":
                return nb + pos[v[1]]
            return n - 1 - nz + v[1]
        rows = [(c, l, u) for c, l, u in x["rows"]] + [({("z", j): 1.}, zz[1], zz[2]) for j, zz in enumerate(x["z"]) if zz]
        for c, l, u in rows:
            q = np.zeros(n)
            for v, a in c.items():
                if live(p, v):
                    q[c_(v)] += a
            if l == u:
                Ae.append(q); be.append(l); continue
            if u < 1e10:
                w = q.copy(); w[-1] = 1.; Ai.append(w); bi.append(u)
            if l > -1e10:
                w = -q; w[-1] = 1.; Ai.append(w); bi.append(-l)
        return Ae, be, Ai, bi
    return N.margin(nz, aug)


def acmargin(p, x):
    """largest margin t found by an independent NLP search (SLSQP over voltages, dispatch, extra variables)"""
    from scipy.optimize import minimize
    on = sorted(phys.energised(p)); lg = phys.live_gens(p); ll = phys.live_branches(p); base = p["baseMVA"]
    nb, ng, nz = len(on), len(lg), len(x["z"])
    row = dict((int(b[0]), b) for b in p["bus"]); bi = dict((b, i) for i, b in enumerate(on)); gi = dict((g, i) for i, g in enumerate(lg))
    refs = [b for b in on if row[b][BUS_TYPE] == 3]
    n = 2 * nb + 2 * ng + nz + 1
    def parts(y):
        return y[:nb], y[nb:2 * nb], y[2 * nb:2 * nb + ng], y[2 * nb + ng:2 * nb + 2 * ng], y[2 * nb + 2 * ng:-1], y[-1]
    def V(y):
        va, vm = y[:nb], y[nb:2 * nb]
        return dict((b, vm[i] * np.exp(1j * va[i])) for b, i in bi.items())
    def val(y, v):
        va, vm, pg, qg, z, t = parts(y)
        if not live(p, v):
            return 0.
        if v[0] == "z":
            return z[v[1]]
        if v[0] in ("Pg", "Qg"):
            return (pg if v[0] == "Pg" else qg)[gi[v[1]]]
        return (va if v[0] == "Va" else vm)[bi[int(p["bus"][v[1], 0])]]
    eqrows = [q for q in x["rows"] if q[1] == q[2]]; inrows = [q for q in x["rows"] if q[1] != q[2]] + [({("z", j): 1.}, zz[1], zz[2]) for j, zz in enumerate(x["z"]) if zz]
    def eq(y):
        va, vm, pg, qg, z, t = parts(y)
        inj = phys.injections(p, V(y))
        s = dict((b, -complex(row[b][PD], row[b][QD])) for b in on)
        for i, g in enumerate(lg):
            s[int(p["gen"][g, 0])] += base * complex(pg[i], qg[i])
        d = [(inj[b] - s[b]) / base for b in on]
        return np.array([q.real for q in d] + [q.imag for q in d] + [va[bi[b]] - math.radians(row[b][VA]) for b in refs] + [sum(a * val(y, v) for v, a in c.items()) - l for c, l, u in eqrows])
    def ineq(y):
        va, vm, pg, qg, z, t = parts(y)
        o = []
        VV = V(y)
        for b in on:
            o += [row[b][VMAX] - vm[bi[b]], vm[bi[b]] - row[b][VMIN]]
        for i, g in enumerate(lg):
            G = p["gen"][g]
            o += [G[PMAX] / base - pg[i], pg[i] - G[PMIN] / base, G[QMAX] / base - qg[i], qg[i] - G[QMIN] / base]
        for l in ll:
            R = p["branch"][l]
            if 0 < R[RATE_A] < 1e9:
                a, b = phys.branch_flow(R, VV, base)
                o += [(R[RATE_A] - abs(a)) / base, (R[RATE_A] - abs(b)) / base]
        for c, l, u in inrows:
            a = sum(cc * val(y, v) for v, cc in c.items())
            if u < 1e10:
                o.append(u - a)
            if l > -1e10:
                o.append(a - l)
        return np.array(o) - t
    y0 = np.zeros(n); y0[nb:2 * nb] = 1.
    y0[:nb] = math.radians(row[refs[0]][VA])
    for i, g in enumerate(lg):
        y0[2 * nb + i] = p["gen"][g, [PMIN, PMAX]].mean() / base
    y0[-1] = -1.
    res = minimize(lambda y: -y[-1], y0, jac=lambda y: np.r_[np.zeros(n - 1), -1.], constraints=[{"type": "eq", "fun": eq}, {"type": "ineq", "fun": ineq}],
                   bounds=[(None, None)] * (n - 1) + [(None, .05)], method="SLSQP", options={"maxiter": 150, "ftol": 1e-9})
    if not res.success or np.abs(eq(res.x)).max() > 1e-6:
        return None
    return res.x[-1]


def case(item):
    p = NETS[item["net"]]()
    for e in EDITS[item["ed"]]:
        do(p, e)
    return p


def remap(p, item, x):
    """extras are stated for the buses and units of the original network; move them to the rows of the edited case"""
    o = NETS[item["net"]]()
    ed = EDITS[item["ed"]]
    if ("iso3",) in ed:
        shift = lambda v: (v[0], v[1] + 1) if v[0] in ("Va", "Vm") else v
    elif ("isoref2",) in ed:
        shift = lambda v: (v[0], v[1] + (v[1] >= 2)) if v[0] in ("Va", "Vm") else (v[0], v[1] + (v[1] >= 1)) if v[0] in ("Pg", "Qg") else v
    else:
        return x
    m = lambda c: dict((shift(v), a) for v, a in c.items())
    return {"rows": [(m(c), l, u) for c, l, u in x["rows"]], "z": x["z"], "costs": [(m(c), w, q) for c, w, q in x["costs"]], "H": x["H"]}


SAME = [("bus", slice(0, 17)), ("gen", slice(0, 25)), ("branch", slice(0, 21))]


def k_x(r, item, tmp):
    dc, opt = item["dc"], item.get("opt", {})
    p = case(item)
    x = remap(p, item, join(item["ex"]))
    if "isoref2" in [e[0] for e in EDITS[item["ed"]]] and len(item["ex"]) == 1:
        # also mention the dead unit and the dead bus
        x["rows"] = [(dict(c, **{}), l, u) for c, l, u in x["rows"]]
        for c, l, u in x["rows"]:
            c[("Pg", 1)] = 7.; c[("Va", 2)] = -3.
        for c, w, q in x["costs"]:
            c[("Pg", 1)] = 7.; c[("Va", 2)] = -3.
    key = "%s:%s:%s:%s%s" % ("dc" if dc else "ac", item["net"], item["ed"], "+".join(item["ex"]), ":" + str(sorted(opt.items())) if opt else "")
    r.states.add(canon([p, str(x), dc, opt]))
    f = arrays(p, x, "dc" if dc else "ac")
    before = canon(p)
    refuse = dc and not convexDC(x)
    try:
        res = call(p, x, "field", dc, opt, tmp)
    except ValueError as e:
        if refuse:
            r.tag("refused"); r.evals += 1
            return
        raise
    r.evals += 1
    r.transitions += len(x["rows"]) + len(x["costs"]) + len(x["z"])
    r.expect(canon(p) == before, key + ":input", "the case was modified")
    ok = bool(res["success"])
    if ok:
        judge(r, p, x, res, dc, key)
        r.tag("solved"); r.validated += 1
        if dc:
            m, indep = dcmargin(p, x)
            r.expect(m is not None and m > -1e-3, key + ":infeasible", "success though the user limits cannot be met (margin %s)" % m)
        if r.sample is None:
            r.sample = {"item": item, "f": float(res["f"])}
    elif dc:
        m, indep = dcmargin(p, x)
        r.expect(not (m is not None and m > 1e-3 and indep and not opt), key + ":unsolved", "failure though the extended problem has margin %s" % m)
        r.tag("infeasible" if m is None or m < 1e-3 else "unsolved")
    else:
        m = acmargin(p, x)
        r.expect(not (m is not None and m > 1e-3 and not opt and not any(q and q[0] == 1 and q[2] > 0 for c, w, q in x["costs"])), key + ":unsolved", "failure though the extended problem has margin %s" % m)
        r.tag("infeasible" if m is None or m < 1e-3 else "unsolved")
    if not item["routes"]:
        return
    full, fullok = res, ok
    if not dc:      # the answer after four iterations of the AC solver is as good for comparing routes as the final one
        short = dict(opt, PDIPM_MAX_IT=4)
        part = call(p, x, "field", dc, short, tmp)
    for rt in routes(p, x, dc, None):
        if rt == "field" or rt == "uopf" and item.get("quick") and not dc and item["ed"] not in (0, 3):
            continue
        whole = dc or rt in ("opf4", "mat9", "uopf", "z0none")
        res, ok = (full, fullok) if whole else (part, bool(part["success"]))
        q = call(p, x, rt, dc, opt if whole else short, tmp)
        r.evals += 1; r.transitions += 1
        if rt == "uopf":
            if q["success"] and ok:
                s = api.clone(p); s["gen"][:, GEN_STATUS] = np.minimum(s["gen"][:, GEN_STATUS], (q["gen"][:, GEN_STATUS] > 0) * 1.)
                judge(r, s, x, q, dc, key + ":uopf")
                r.expect(q["f"] <= res["f"] + 1e-3 * (1 + abs(res["f"])), key + ":uopf:f", "unit decommitment costs %r, plain OPF %r" % (q["f"], res["f"]))
                r.tag("uopf")
            else:
                r.expect(not ok, key + ":uopf:fail", "unit decommitment fails, plain OPF succeeds")
            continue
        r.expect(bool(q["success"]) == ok, key + ":" + rt + ":success", "route %s: success %s, as fields: %s" % (rt, q["success"], ok))
        r.tag("routes")
        if whole and (not ok or not q["success"]):
            continue
        tol = 1e-9 if rt != "z0none" else 1e-3
        for k, cols in SAME:
            a, b = res[k][:, cols], q[k][:, cols]
            d = np.abs(a - b) / (1 + np.abs(a).max()) if a.shape == b.shape else np.array([[INF]])
            r.expect(d.max() <= tol, key + ":" + rt + ":" + k, lambda: "route %s: %s differs from the field route by %g" % (rt, k, d.max()))
        r.expect(abs(q["f"] - res["f"]) <= tol * (1 + abs(res["f"])), key + ":" + rt + ":f", "route %s: cost %r, as fields %r" % (rt, q["f"], res["f"]))
        if x["costs"]:
            r.expect(abs(q["cost"]["usr"] - res["cost"]["usr"]) <= tol * (1 + abs(res["f"])), key + ":" + rt + ":usr", "route %s: user cost %r, as fields %r" % (rt, q["cost"]["usr"], res["cost"]["usr"]))
        if x["rows"]:
            for s_ in "lu":
                a, b = np.asarray(res["lin"]["mu"][s_]["usr"]), np.asarray(q["lin"]["mu"][s_].get("usr", []))
                r.expect(a.shape == b.shape and np.abs(a - b).max() <= tol * (1 + np.abs(a).max()), key + ":" + rt + ":mu", "route %s: multipliers %s, as fields %s" % (rt, b, a))
        if x["z"]:
            a, b = np.asarray(res["var"]["val"]["z"]), np.asarray(q["var"]["val"]["z"])
            r.expect(a.shape == b.shape and np.abs(a - b).max() <= tol * (1 + np.abs(a).max()), key + ":" + rt + ":z", "route %s: extra variables %s, as fields %s" % (rt, b, a))


def k_native(r, item, tmp):
    """extras that say the same as native case data"""
    dc = item["dc"]
    base = 100.
    def cmp(x, edit, name):
        p = NETS[item["net"]]()
        q = api.clone(p); edit(q)
        a = call(p, x, "field", dc, {}, tmp)
        b = (api.dcopf if dc else api.opf)(q)
        r.evals += 2; r.transitions += 1; r.states.add(canon([p, str(x), dc, "native"]))
        key = "native:%s:%s:%s" % ("dc" if dc else "ac", item["net"], name)
        if not r.expect(a["success"] == b["success"], key + ":success", "user form %s, native form %s" % (a["success"], b["success"])) or not a["success"]:
            return None, None
        r.validated += 1; r.tag("native")
        r.expect(abs(a["f"] - b["f"]) < 1e-4 * (1 + abs(b["f"])), key + ":f", "user form costs %r, native form %r" % (a["f"], b["f"]))
        for k, cols in (("bus", [VM, VA, LAM_P, LAM_Q]), ("gen", [PG, QG])):
            d = np.abs(a[k][:, cols] - b[k][:, cols]).max()
            lim = .05 if not dc or k == "bus" else .01
            if cols[1] == QG and not dc:
                d = np.abs(a[k][:, PG] - b[k][:, PG]).max()
            r.expect(d < lim * (5 if item["net"] == "n4" else 1) , key + ":" + k, lambda: "%s differs by %g" % (k, d))
        return a, b
    for k in range(3):
        p = NETS[item["net"]]()
        for v in (5., 25., 38.):
            if v < p["gen"][k, PMIN]:
                continue
            def ed(q): q["gen"][k, PMAX] = v
            a, b = cmp(X([({P(k): 1.}, -INF, v / base)]), ed, "pmax%d_%g" % (k, v))
            if a is not None:
                r.expect(abs(a["lin"]["mu"]["u"]["usr"][0] / base - b["gen"][k, MU_PMAX]) < .1, "native:mu:pmax", "row multiplier %s, limit multiplier %g" % (a["lin"]["mu"]["u"]["usr"] / base, b["gen"][k, MU_PMAX]))
        for v in (45., 58.):
            def ed(q): q["gen"][k, PMIN] = v
            a, b = cmp(X([({P(k): 1.}, v / base, INF)]), ed, "pmin%d_%g" % (k, v))
            if a is not None:
                r.expect(abs(a["lin"]["mu"]["l"]["usr"][0] / base - b["gen"][k, MU_PMIN]) < .1, "native:mu:pmin", "row multiplier %s, limit multiplier %g" % (a["lin"]["mu"]["l"]["usr"] / base, b["gen"][k, MU_PMIN]))
        # cost c*Pg and q*Pg^2 through the user cost
        if p["gencost"][k, 0] == 2:
            def ed(q): q["gencost"][k, 4] += .04; q["gencost"][k, 5] += 3.; q["gencost"][k, 6] += 0.
            cmp(X(costs=[({P(k): base}, 3., None)], H=[(0, 0, .08)]), ed, "costH%d" % k)
            if not dc:
                cmp(X(costs=[({P(k): base}, 1., (2, 0., 0., .04)), ({P(k): base}, 3., None)]), ed, "costd2%d" % k)
            cmp(X([({P(k): 1., Z0: -1.}, 0., 0.)], [None], [({Z0: base}, 3., None)], [(0, 0, .08)]), ed, "costz%d" % k)
    for l in range(3):
        p = NETS[item["net"]]()
        f, t = [[int(v) for v in p["bus"][:, 0]].index(int(p["branch"][l, c])) for c in (0, 1)]
        def ed(q): q["branch"][l, ANGMIN], q["branch"][l, ANGMAX] = -1.2, .7
        cmp(X([({A(f): 1., A(t): -1.}, math.radians(-1.2), math.radians(.7))]), ed, "ang%d" % l)
    if not dc:
        for k in range(3):
            def ed(q): q["bus"][k, VMAX] = 1.01
            a, b = cmp(X([({V(k): 1.}, -INF, 1.01)]), ed, "vmax%d" % k)
            def ed(q): q["gen"][k, QMAX] = 6.
            cmp(X([({Q(k): 1.}, -INF, .06)]), ed, "qmax%d" % k)


def k_malformed(r, item, tmp):
    """extras of the wrong size are not silently dropped: the call raises or reports failure"""
    dc = item["dc"]
    p = NETS[item["net"]]()
    x = join(["two", "z2", "cx"])
    f = arrays(p, x, "dc" if dc else "ac")
    bad = []
    for k, v in f.items():
        if k in ("A", "N"):
            bad += [(k, v[:, :-1]), (k, v[:, :3]), (k, v[:-1])]
        elif k == "H":
            bad += [(k, v[:-1]), (k, v[:, :-1]), (k, v[:-1, :-1])]
        elif k == "fparm":
            bad += [(k, v[:-1]), (k, v[:, :3])]
        else:
            bad += [(k, v[:-1]), (k, np.r_[v, 5.])]
    from pypower.runopf import runopf
    for i, (k, v) in enumerate(bad):
        q = api.clone(p); q.update(f); q[k] = v
        r.evals += 1; r.transitions += 1; r.states.add(canon(["bad", dc, i]))
        try:
            res = runopf(q, api.opts(PF_DC=dc))
        except Exception:
            r.tag("raises"); continue
        r.expect(not res["success"], "malformed:%s:%s:%d" % ("dc" if dc else "ac", k, i), "%s of shape %s accepted" % (k, v.shape))
        r.tag("rejected")


def k_args(r, item, tmp):
    """wrong numbers of arguments are rejected"""
    from pypower.opf import opf
    p = NETS[item["net"]]()
    x = join(["two", "zsoft", "cx"])
    f = arrays(p, x, "ac")
    a = [f["A"], f["l"], f["u"], api.opts(), f["N"], f["fparm"], f["H"], f["Cw"], f["z0"], f["zl"], f["zu"]]
    for lead, good in (([p], (1, 2, 3, 4, 5, 9, 12)), ([p["baseMVA"], p["bus"], p["gen"], p["branch"], p["areas"], p["gencost"]], (6, 7, 8, 9, 10, 14, 17))):
        for n in range(len(lead), len(lead) + 13):
            if n in good:
                continue
            args = (api.clone(lead) + a + [1, 2])[:n]
            r.evals += 1; r.states.add(canon(["args", n, len(lead)]))
            try:
                opf(*args)
            except Exception:
                r.tag("raises"); continue
            r.bad("args:%d:%d" % (len(lead), n), "%d arguments accepted" % n)
