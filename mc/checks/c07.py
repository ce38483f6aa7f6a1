"""C07: analyses leave the caller's data alone and have no memory."""
import os, pickle, shutil, signal, struct, sys, tempfile, traceback, types
import numpy as np
from scipy.sparse import csr_matrix, issparse
from mc.core import Result, canon
from mc.space import *
from mc import api, phys

PROP = "C07"
LEVEL = "model_checking"
RULE = ("states: histories of analysis / query calls (every sequence of two, in the thorough tier three, over the alphabet of calls, including failing and raising ones) on one shared set of argument objects in a process forked from a pristine one; "
        "after each call the arguments and the process-wide settings must be unchanged, every returned array is scribbled over, and each result must be bit-identical to the history-free run. "
        "Chains: every call on a result of every analysis equals the call on the plain case data of that result. Non-trivial: the call ran in a non-empty history")
ASSUMPTIONS = ["functions documented to change their argument (add/remove_userfcn, toggle_*, set_reorder, the opf_model methods) are not queries", "elapsed times are not compared", "one thread"]
INF = np.inf


# ------------------------------------------------------------------ worlds
def w_rich():
    """unsorted numbers, unit/branch/bus out of service, pwl and polynomial costs, dispatchable load, all-float"""
    p = mk([bus(7, 1, 30., 10., zone=2), bus(2, 2, vm=1.02, va=1., area=2), bus(50, 4, 5., 1.), bus(9, 3, 25., 5., va=-4.), bus(4, 1, 35., 12., 1., 6., vm=.98, area=2, zone=2)],
           [gen(9, 10., pmax=200., pmin=0., qmax=90., qmin=-60.), gen(50, 5.), gen(2, 45., vg=1.02, pmax=90., qmax=50., qmin=-40.), gen(4, -12., -4., 0., -5., 1., 1, 0., -15.), gen(9, 15., vg=1., pmax=60., pmin=0., qmax=40., qmin=-30.), gen(2, 3., status=0)],
           [br(7, 2, .02, .10, .04, rate=60.), br(2, 9, .015, .09, .03, rate=50.), br(9, 50, .01, .1), br(9, 7, .01, .08, 0., tap=1.02, rate=0.), br(9, 4, .03, .14, .05, rate=50.), br(7, 4, .05, .3, st=0), br(9, 4, .025, .12, .02, rate=100., shift=2.)],
           [[2, 0, 0, 3, .08, 6., 10.] + [0] * 5, [2, 0, 0, 2, 5., 0.] + [0] * 6, [1, 0, 0, 4, 0., 10., 20., 210., 50., 660., 90., 1500.], [2, 0, 0, 2, 30., 0.] + [0] * 6, [2, 0, 0, 3, .05, 7., 4.] + [0] * 5, [1, 0, 0, 2, 0., 0., 10., 90.] + [0] * 4])
    p["gen"][3, QG] = -12. * 5 / 15
    p["areas"] = np.array([[2., 2.], [1., 9.]])
    return p


def w_plain():
    """already consecutively numbered, nothing out of service (nothing to convert)"""
    p = mk([bus(1, 3, 20., va=5., vm=1.02), bus(2, 2, 10., 2., vm=1.01), bus(3, 1, 70., 25., 1., 4., vmin=.95)],
           [gen(1, 40., vg=1.02, pmax=150., pmin=10., qmax=80., qmin=-40.), gen(2, 35., vg=1.01, pmax=120., pmin=0., qmax=50., qmin=-30.)],
           [br(1, 2, .02, .12, .06, rate=60.), br(2, 3, .03, .15, .02, rate=45.), br(1, 3, .01, .10, 0., tap=.97, rate=90.)],
           [[2, 100, 0, 3, .10, 5., 20.] + [0] * 3, [1, 50, 0, 3, 0., 0., 60., 500., 120., 1200.]])
    p["gen"][1, [PC1, PC2, QC1MIN, QC1MAX, QC2MIN, QC2MAX]] = [0., 100., -30., 45., -15., 20.]
    return p


def w_full():
    """plain case that already has all result columns (as a solved case has)"""
    p = w_plain()
    p["bus"] = np.c_[p["bus"], np.zeros((3, 4))]; p["gen"] = np.c_[p["gen"], np.zeros((2, 4))]; p["branch"] = np.c_[p["branch"], np.zeros((3, 8))]
    p["branch"][:, 13:17] = 3.; p["bus"][:, 13] = 7.
    return p


def w_res():
    """reserve and interface-limit callbacks installed"""
    from pypower.toggle_reserves import toggle_reserves
    from pypower.toggle_iflims import toggle_iflims
    p = w_rich()
    ng = len(p["gen"])
    p["reserves"] = {"zones": np.ones((1, ng)), "req": np.array([12.]), "cost": np.arange(1., ng + 1), "qty": np.full(ng, 25.)}
    p["if"] = {"map": np.array([[1., 2.], [1., -4.]]), "lims": np.array([[1., -45., 45.]])}
    p = toggle_reserves(p, "on")
    return toggle_iflims(p, "on")


def w_dcl():
    """DC lines, one out of service, with costs"""
    from pypower.toggle_dcline import toggle_dcline
    p = w_rich()
    p["dcline"] = np.array([[7., 4., 1., 10., 9., 0., 0., 1., 1., -20., 20., -10., 10., -10., 10., .5, .02], [2., 9., 0., 2., 2., 0., 0., 1., 1., 0., 5., -1., 1., -1., 1., 0., 0.]])
    p["dclinecost"] = np.array([[2., 0., 0., 2., 1.5, 0.], [2., 0., 0., 2., 1., 0.]])
    return toggle_dcline(p, "on")


WORLDS = {"dcl": w_dcl, "rich": w_rich, "plain": w_plain, "full": w_full, "res": w_res}


def internal(p):
    """0-based arrays without dead parts (own conversion)"""
    on, lg, ll = [int(b[0]) for b in p["bus"] if b[BUS_TYPE] != 4], phys.live_gens(p), phys.live_branches(p)
    ix = dict((b, i) for i, b in enumerate(on))
    d = {"baseMVA": p["baseMVA"], "bus": p["bus"][[i for i in range(len(p["bus"])) if p["bus"][i, BUS_TYPE] != 4]].copy(), "gen": p["gen"][lg].copy(), "branch": p["branch"][ll].copy(), "gencost": p["gencost"][lg].copy()}
    d["bus"][:, 0] = np.arange(len(on))
    d["gen"][:, 0] = [ix[int(b)] for b in d["gen"][:, 0]]
    for c in (0, 1):
        d["branch"][:, c] = [ix[int(b)] for b in d["branch"][:, c]]
    return d


class W(object):
    """everything the calls of a history share"""
    def __init__(s, world, tmp):
        from pypower.ppoption import ppoption
        s.p = WORLDS[world]()
        nb, ng, nl = len(s.p["bus"]), len(s.p["gen"]), len(s.p["branch"])
        s.t = api.clone(s.p); s.t["bus"][:, PD] *= 1.4
        s.bad = api.clone(s.p); s.bad["bus"][-1, PD] = 4000.
        s.o = ppoption(VERBOSE=0, OUT_ALL=0)
        s.opt = lambda **k: dict(s.o, **k)
        s.dc = dict(s.o, PF_DC=True); s.oalg = dict(s.o, OPF_ALG=560); s.o1 = dict(s.o, PF_MAX_IT=1, PDIPM_MAX_IT=1)
        s.oq = dict(s.o, ENFORCE_Q_LIMS=1); s.overb = dict(s.o, VERBOSE=1, OUT_ALL=1)
        s.o2 = dict(s.o, PF_ALG=2); s.o3 = dict(s.o, PF_ALG=3); s.o4 = dict(s.o, PF_ALG=4, PF_MAX_IT_GS=300); s.obad = dict(s.o, PF_ALG=77, OPF_ALG=77, OPF_ALG_DC=77)
        s.o250 = dict(s.o, OPF_ALG_DC=250); s.o565 = dict(s.o, OPF_ALG=565); s.ocpf = dict(s.o, CPF_STOP_AT=.3, CPF_STEP=.1)
        s.A = csr_matrix((np.ones(2), ([0, 0], [2 * nb, 2 * nb + 2])), (1, 2 * nb + 2 * ng + 1)) if ng > 2 else csr_matrix((np.ones(2), ([0, 0], [2 * nb, 2 * nb + 1])), (1, 2 * nb + 2 * ng + 1))
        s.l, s.u = np.array([-INF]), np.array([.9])
        s.N = csr_matrix((np.ones(1), ([0], [2 * nb])), (1, 2 * nb + 2 * ng + 1)); s.fp = np.array([[1., .1, 0., 2.]]); s.H = csr_matrix(np.array([[300.]])); s.Cw = np.array([20.])
        s.z0, s.zl, s.zu = np.array([.1]), np.array([0.]), np.array([.5])
        s.pu = dict(s.p, A=s.A, l=s.l, u=s.u, N=s.N, fparm=s.fp, H=s.H, Cw=s.Cw, z0=s.z0, zl=s.zl, zu=s.zu)
        s.i = internal(s.p)
        b = s.i["bus"]
        s.V0 = b[:, VM] * np.exp(1j * np.radians(b[:, VA]))
        ref = [i for i in range(len(b)) if b[i, 1] == 3]; s.ref = np.array(ref); s.pv = np.array([i for i in range(len(b)) if b[i, 1] == 2]); s.pq = np.array([i for i in range(len(b)) if b[i, 1] == 1])
        s.lamv = np.linspace(.5, 2., len(b))
        s.qpH = csr_matrix(np.diag([2., 4., 1.])); s.qpc = np.array([-3., 1., 0.]); s.qpA = csr_matrix(np.array([[1., 1., 1.], [1., -1., 0.]])); s.qpl = np.array([.5, -INF]); s.qpu = np.array([.5, 1.]); s.xmin = np.array([-1., -INF, 0.]); s.xmax = np.array([INF, 2., 5.]); s.x0 = np.array([0., 0., .2])
        s.popt = {"feastol": 1e-7, "max_it": 60}; s.qopt = {"alg": 200, "verbose": 0, "pips_opt": {"max_it": 50}}
        s.problem = {"H": s.qpH, "c": s.qpc, "A": s.qpA, "l": s.qpl, "u": s.qpu, "xmin": s.xmin, "xmax": s.xmax, "x0": s.x0, "opt": s.qopt}
        s.pips_in = {"f_fcn": quad, "x0": s.x0, "A": s.qpA, "l": s.qpl, "u": s.qpu, "xmin": s.xmin, "xmax": s.xmax, "opt": s.popt}
        s.zone = np.array([0] * (nb - 2) + [1, 2]); s.sl = {"scale": "QUANTITY"}; s.slv = np.array([60., 20.])
        s.boom = {}
        from pypower.add_userfcn import add_userfcn
        for st in ("ext2int", "formulation", "int2ext"):
            q = api.clone(s.p)
            add_userfcn(q, st, boom)
            s.boom[st] = q
        s.pyfile = os.path.join(tmp, "thecase.py")
        if not os.path.exists(s.pyfile):
            with open(s.pyfile, "w") as f:
                f.write("from numpy import array\nBUS = array(%s)\ndef thecase():\n    return {'version': '2', 'baseMVA': 100., 'bus': BUS, 'gen': array(%s), 'branch': array(%s), 'gencost': array(%s)}\n" % tuple(np.asarray(s.p[k]).tolist() for k in ("bus", "gen", "branch", "gencost")))
        s.tmp = tmp


def boom(*a):
    raise RuntimeError("callback fails")


def quad(x, return_hessian=False):
    H = np.diag([2., 4., 1.]); c = np.array([-3., 1., 0.])
    f, df = .5 * x.dot(H).dot(x) + c.dot(x), H.dot(x) + c
    return (f, df, csr_matrix(H)) if return_hessian else (f, df)


# ------------------------------------------------------------------ freezing
SKIPKEY = ("et",)


def freeze(o, seen=None):
    """nested tuples that determine the value of o"""
    seen = {} if seen is None else seen
    if isinstance(o, dict):
        return ("d", tuple((str(k), freeze(o[k], seen)) for k in sorted(o, key=str) if k not in SKIPKEY))
    if isinstance(o, (list, tuple)):
        return ("l", tuple(freeze(x, seen) for x in o))
    if issparse(o):
        c = o.tocoo(); k = np.lexsort((c.col, c.row))
        return ("s", o.shape, c.row[k].tobytes() if c.row.dtype == np.int32 else c.row[k].astype(np.int32).tobytes(), c.col[k].astype(np.int32).tobytes(), str(c.dtype), c.data[k].tobytes())
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("o", o.shape, tuple(freeze(x, seen) for x in o.ravel()))
        return ("a", o.shape, str(o.dtype), np.ascontiguousarray(o).tobytes())
    if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type)):
        return ("f", getattr(o, "__qualname__", str(o)))
    if isinstance(o, np.generic):
        return ("n", o.dtype.str, o.tobytes())
    if isinstance(o, BaseException):
        return ("e", type(o).__name__, str(o))
    if o is None or isinstance(o, (int, float, complex, str, bytes, bool)):
        return ("v", repr(o))
    if id(o) in seen:
        return ("cycle",)
    seen[id(o)] = o
    return ("O", type(o).__name__, freeze(vars(o), seen) if hasattr(o, "__dict__") else repr(o))


def where(a, b, path=""):
    """first difference of two frozen values"""
    if a == b:
        return None
    if a[0] != b[0] or a[0] not in "dlO":
        if a[0] == b[0] == "a" and a[1:3] == b[1:3]:
            x, y = np.frombuffer(a[3], a[2]), np.frombuffer(b[3], b[2])
            k = [i for i in range(len(x)) if x[i] != y[i]][:1]
            return "%s: element %s of %s: %s / %s" % (path, k, a[1], x[k], y[k])
        return "%s: %s / %s" % (path, str(a)[:120], str(b)[:120])
    if a[0] == "d":
        x, y = dict(a[1]), dict(b[1])
        for k in sorted(set(x) | set(y)):
            if k not in x or k not in y:
                return "%s[%s] only on one side" % (path, k)
            w = where(x[k], y[k], "%s[%s]" % (path, k))
            if w:
                return w
    if a[0] == "O":
        return where(a[2], b[2], path + "." + a[1]) if a[1] == b[1] and isinstance(a[2], tuple) else "%s: %s / %s" % (path, a[1], b[1])
    if len(a[1]) != len(b[1]):
        return "%s: %d / %d entries" % (path, len(a[1]), len(b[1]))
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        w = where(x, y, "%s[%d]" % (path, i))
        if w:
            return w
    return path + " differs"


def scribble(o, seen=None, own=()):
    """overwrite everything reachable from a result"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, dict):
        for k in list(o):
            scribble(o[k], seen)
        for k in list(o):
            if not callable(o[k]):
                o[k] = "scribbled"
        o["scribbled"] = 1
    elif isinstance(o, (list, tuple)):
        for x in o:
            scribble(x, seen)
        if isinstance(o, list):
            o[:] = ["scribbled"]
    elif issparse(o):
        if hasattr(o, "data") and isinstance(o.data, np.ndarray) and o.data.dtype != object:
            o.data[...] = -777.
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o.ravel():
                scribble(x, seen)
        elif o.flags.writeable and o.dtype.kind in "fciub":
            o[...] = 1 if o.dtype.kind == "b" else -777 if o.dtype.kind != "u" else 7
    elif hasattr(o, "__dict__") and not isinstance(o, (type, types.FunctionType, types.MethodType, types.ModuleType)):
        for x in list(vars(o).values()):
            scribble(x, seen)


def world_state(w):
    return freeze(dict((k, v) for k, v in vars(w).items() if k not in ("tmp", "pyfile")))


def process_state():
    import warnings
    return freeze({"err": np.geterr(), "print": dict((k, str(v)) for k, v in np.get_printoptions().items()), "cwd": os.getcwd(), "path": list(sys.path), "fds": len(os.listdir("/proc/self/fd")), "rnd": np.random.get_state()[1].tobytes(),
                   "filters": str(len(warnings.filters)), "rec": sys.getrecursionlimit(), "env": dict(os.environ), "out": id(sys.stdout), "err2": id(sys.stderr)})


# ------------------------------------------------------------------ the calls
def imp(name, mod=None):
    m = __import__("pypower." + (mod or name), fromlist=[name])
    return getattr(m, name)


OPS = {}


def op(name, f, worlds=None, kind="query"):
    OPS[name] = (f, worlds, kind)


AN = "analysis"
for nm, o in (("runpf", "o"), ("runpf:fd", "o2"), ("runpf:fdbx", "o3"), ("runpf:gs", "o4"), ("runpf:qlim", "oq"), ("rundcpf", "o"), ("runopf", "o"), ("runopf:565", "o565"), ("rundcopf", "o"), ("rundcopf:250", "o250"), ("runuopf", "o"), ("runduopf", "o"),
              ("runpf:verbose", "overb"), ("runopf:verbose", "overb"), ("runopf:dc", "dc"), ("runpf:dc", "dc")):
    op(nm, (lambda nm, o: lambda w, p=None: imp(nm.split(":")[0])(w.p if p is None else p, getattr(w, o)))(nm, o), None, AN)
for nm, o in (("runpf:1it", "o1"), ("runpf:badalg", "obad"), ("runopf:1it", "o1"), ("runopf:badalg", "obad"), ("rundcopf:badalg", "obad"), ("rundcopf:1it", "o1"), ("runuopf:1it", "o1")):
    op(nm, (lambda nm, o: lambda w: imp(nm.split(":")[0])(w.p, getattr(w, o)))(nm, o), ("rich", "plain"))
for nm in ("runpf", "runopf", "rundcopf", "runuopf"):
    op(nm + ":bad", (lambda nm: lambda w: imp(nm)(w.bad, w.o))(nm), ("rich",))
for st in ("ext2int", "formulation", "int2ext"):
    op("runopf:boom:" + st, (lambda st: lambda w: imp("runopf")(w.boom[st], w.o))(st), ("rich", "plain"))
op("runpf:nocase", lambda w: imp("runpf")("/nonexistent/case", w.o), ("plain",))
op("runpf:noargs", lambda w: imp("runpf")(ppopt=w.o), ("plain",))
op("runcpf", lambda w, p=None: imp("runcpf")(w.p if p is None else p, w.t, w.ocpf), None, AN)
op("opf", lambda w, p=None: imp("opf")(w.p if p is None else p, w.o), None, AN)
op("opf:noopt", lambda w: imp("opf")(w.p), ("plain",))
op("dcopf", lambda w, p=None: imp("dcopf")(w.p if p is None else p, w.o), None, AN)
op("opf:A", lambda w: imp("opf")(w.p, w.A, w.l, w.u, w.o, w.N, w.fp, w.H, w.Cw, w.z0, w.zl, w.zu))
op("opf:Afields", lambda w: imp("runopf")(w.pu, w.o))
op("dcopf:Afields", lambda w: imp("rundcopf")(w.pu, w.o))
op("opf:matrices", lambda w: imp("opf")(w.p["baseMVA"], w.p["bus"], w.p["gen"], w.p["branch"], w.p.get("areas"), w.p["gencost"], w.A, w.l, w.u, w.o, w.N, w.fp, w.H, w.Cw, w.z0, w.zl, w.zu), ("rich", "plain", "full"))
op("uopf", lambda w, p=None: imp("uopf")(w.p if p is None else p, w.o), None, AN)
op("opf:file", lambda w: imp("runopf")(w.pyfile, w.o), ("rich", "plain"))
op("opf_args", lambda w: imp("opf_args")(w.pu, w.o))
op("opf_args2", lambda w: imp("opf_args2", "opf_args")(w.pu, w.o))
op("loadcase", lambda w, p=None: imp("loadcase")(w.p if p is None else p))
op("loadcase:parts", lambda w: imp("loadcase")(w.p, False))
op("loadcase:file", lambda w: imp("loadcase")(w.pyfile), ("rich", "plain"))
op("loadcase:fail", lambda w: imp("loadcase")(os.path.join(w.tmp, "no.py")), ("plain",))
op("ext2int", lambda w, p=None: imp("ext2int")(w.p if p is None else p))
op("ext2int:A", lambda w: imp("ext2int")(w.pu))
def _full(p):
    q = imp("loadcase")(p)
    return q
op("int2ext", lambda w, p=None: imp("int2ext")(imp("ext2int")(w.p if p is None else p)))
def i2(w):
    q = imp("ext2int")(w.pu)
    return [imp("e2i_data")(q, w.p["gen"], "gen"), imp("e2i_data")(q, w.p["bus"][:, 2], "bus"), imp("i2e_data")(q, q["gen"], w.p["gen"], "gen"), imp("i2e_data")(q, q["bus"][:, PD], w.p["bus"][:, PD], "bus")]
op("e2i_data", i2)
op("printpf", lambda w: imp("printpf")(w.p["baseMVA"], w.p["bus"], w.p["gen"], w.p["branch"], None, 1, .1, sys.stdout, w.overb), ("full",))
op("savecase", lambda w, p=None: (imp("savecase")(os.path.join(w.tmp, "sv.py"), w.p if p is None else p), open(os.path.join(w.tmp, "sv.py")).read()))
op("savecase:mat", lambda w: imp("savecase")(os.path.join(w.tmp, "sv.mat"), w.p), ("rich", "plain"))
op("total_load", lambda w, p=None: [imp("total_load")((w.p if p is None else p)["bus"], (w.p if p is None else p)["gen"], lz, wt) for lz in (None, "all", "area") for wt in ("BOTH", "FIXED", "DISPATCHABLE")])
op("scale_load", lambda w: imp("scale_load")(1.3, w.p["bus"], w.p["gen"]))
op("scale_load:q", lambda w: imp("scale_load")(w.slv, w.p["bus"], w.p["gen"], w.zone, w.sl))
op("scale_load:fail", lambda w: imp("scale_load")(np.ones(7), w.p["bus"], w.p["gen"], w.zone), ("rich",))
op("totcost", lambda w: [imp("totcost")(w.p["gencost"], w.p["gen"][:, PG]), imp("totcost")(w.p["gencost"][0], 30.)], ("rich", "plain"))
op("polycost", lambda w: [imp("polycost")(w.p["gencost"][[0]], w.p["gen"][[0], PG], d) for d in (0, 1, 2)], ("rich", "plain"))
op("poly2pwl", lambda w: imp("poly2pwl")(w.p["gencost"][[0]], w.p["gen"][[0], PMIN], w.p["gen"][[0], PMAX], 4), ("rich", "plain"))
op("pqcost", lambda w: imp("pqcost")(w.p["gencost"], len(w.p["gen"])), ("rich", "plain"))
for mt in ("SCALE_F", "SCALE_X", "SHIFT_F", "SHIFT_X"):
    op("modcost:" + mt, (lambda mt: lambda w: imp("modcost")(w.p["gencost"], 1.7, mt))(mt), ("rich", "plain"))
op("isload", lambda w: [imp("isload")(w.p["gen"]), imp("hasPQcap")(w.p["gen"]), imp("hasPQcap")(w.p["gen"], "U")], ("rich", "plain"))
op("bustypes", lambda w: imp("bustypes")(w.i["bus"], w.i["gen"]), ("rich", "plain"))
op("makeYbus", lambda w: imp("makeYbus")(w.i["baseMVA"], w.i["bus"], w.i["branch"]), ("rich", "plain"))
op("makeBdc", lambda w: imp("makeBdc")(w.i["baseMVA"], w.i["bus"], w.i["branch"]), ("rich", "plain"))
op("makeB", lambda w: [imp("makeB")(w.i["baseMVA"], w.i["bus"], w.i["branch"], a) for a in (2, 3)], ("rich", "plain"))
op("makeSbus", lambda w: imp("makeSbus")(w.i["baseMVA"], w.i["bus"], w.i["gen"]), ("rich", "plain"))
op("makePTDF", lambda w: imp("makePTDF")(w.i["baseMVA"], w.i["bus"], w.i["branch"], 1), ("rich", "plain"))
op("makePTDF:fail", lambda w: imp("makePTDF")(w.p["baseMVA"], w.p["bus"], w.p["branch"]), ("rich", "plain"))
op("makeLODF", lambda w: imp("makeLODF")(w.i["branch"], imp("makePTDF")(w.i["baseMVA"], w.i["bus"], w.i["branch"], 0)), ("rich", "plain"))
op("makeA", lambda w: [imp("makeAang")(w.i["baseMVA"], w.i["branch"], len(w.i["bus"]), w.o), imp("makeApq")(w.i["baseMVA"], w.i["gen"]), imp("makeAvl")(w.i["baseMVA"], w.i["gen"]), imp("makeAy")(w.i["baseMVA"], len(w.i["gen"]), w.i["gencost"], 0, 5, 20)], ("rich", "plain"))
def deriv(w):
    Y, Yf, Yt = imp("makeYbus")(w.i["baseMVA"], w.i["bus"], w.i["branch"])
    return [imp("dSbus_dV")(Y, w.V0), imp("dSbr_dV")(w.i["branch"], Yf, Yt, w.V0), imp("dIbr_dV")(w.i["branch"], Yf, Yt, w.V0), imp("d2Sbus_dV2")(Y, w.V0, w.lamv)]
op("derivatives", deriv, ("rich", "plain"))
def kern(name, *extra):
    def f(w):
        Y, Yf, Yt = imp("makeYbus")(w.i["baseMVA"], w.i["bus"], w.i["branch"])
        S = imp("makeSbus")(w.i["baseMVA"], w.i["bus"], w.i["gen"])
        keep = freeze([Y, S])
        if name == "fdpf":
            Bp, Bpp = imp("makeB")(w.i["baseMVA"], w.i["bus"], w.i["branch"], 2)
            res = imp(name)(Y, S, w.V0, Bp, Bpp, w.ref, w.pv, w.pq, w.o)
        elif name == "dcpf":
            B, Bf, Pb, Pf = imp("makeBdc")(w.i["baseMVA"], w.i["bus"], w.i["branch"])
            res = imp(name)(B, S.real - Pb, np.angle(w.V0), w.ref, w.pv, w.pq)
        else:
            res = imp(name)(Y, S, w.V0, w.ref, w.pv, w.pq, w.o)
        if freeze([Y, S]) != keep:
            raise AssertionError("VIOLATION %s changed its matrices" % name)
        return res
    return f
for nm in ("newtonpf", "fdpf", "gausspf", "dcpf"):
    op(nm, kern(nm), ("rich", "plain"))
def pfs(w):
    Y, Yf, Yt = imp("makeYbus")(w.i["baseMVA"], w.i["bus"], w.i["branch"])
    return imp("pfsoln")(w.i["baseMVA"], w.i["bus"], w.i["gen"], w.i["branch"], Y, Yf, Yt, w.V0, w.ref, w.pv, w.pq)
op("pips", lambda w: imp("pips")(quad, w.x0, w.qpA, w.qpl, w.qpu, w.xmin, w.xmax, None, None, w.popt), ("plain",))
op("pips:dict", lambda w: imp("pips")(w.pips_in), ("plain",))
op("pips:boom", lambda w: imp("pips")(boom, w.x0, w.qpA, w.qpl, w.qpu, w.xmin, w.xmax, None, None, w.popt), ("plain",))
op("qps_pips", lambda w: imp("qps_pips")(w.qpH, w.qpc, w.qpA, w.qpl, w.qpu, w.xmin, w.xmax, w.x0, w.popt), ("plain",))
op("qps_pips:nox0", lambda w: imp("qps_pips")(w.qpH, w.qpc, w.qpA, w.qpl, w.qpu, w.xmin, w.xmax), ("plain",))
op("qps_pypower", lambda w: imp("qps_pypower")(w.qpH, w.qpc, w.qpA, w.qpl, w.qpu, w.xmin, w.xmax, w.x0, w.qopt), ("plain",))
op("qps_pypower:dict", lambda w: imp("qps_pypower")(w.problem), ("plain",))
op("qps_pypower:badalg", lambda w: imp("qps_pypower")(w.qpH, w.qpc, w.qpA, w.qpl, w.qpu, w.xmin, w.xmax, w.x0, dict(w.qopt, alg=77)), ("plain",))
op("ppoption", lambda w: [imp("ppoption")(), imp("ppoption")(w.o), imp("ppoption")(w.o, PF_TOL=1e-5)], ("plain",))
op("ppoption:fail", lambda w: imp("ppoption")(5), ("plain",))
op("cases", lambda w: [imp(c)() for c in ("case9", "case6ww", "case4gs", "case30pwl", "case9Q", "case30Q", "case9target", "case14")], ("plain",))
op("fairmax", lambda w: imp("fairmax")(w.x0), ("plain",))
op("vers", lambda w: [imp("ppver")(), imp("ppver")("all"), imp("pipsver")("all")], ("plain",))
op("options", lambda w: [imp(n)(*a) for n, a in (("cplex_options", (None, w.o)), ("gurobi_options", (None, w.o)), ("mosek_options", (None, w.o)), ("ipopt_options", (None, w.o)))], ("plain",))
op("opf_setup", lambda w: imp("opf_setup")(imp("ext2int")(imp("opf_args2", "opf_args")(w.pu, w.o)[0]), w.o))
op("update_mupq", lambda w: imp("update_mupq")(100., w.i["gen"], np.ones(len(w.i["gen"])) * .2, np.ones(len(w.i["gen"])) * .1, imp("makeApq")(100., w.i["gen"])[4]), ("full",))


def names(world):
    return [n for n in OPS if OPS[n][1] is None or world in OPS[n][1]]


# ------------------------------------------------------------------ forking
def forked(fn):
    """run fn in a forked child, return its (pickled) value"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            data = pickle.dumps(out)
            with os.fdopen(wr, "wb") as f:
                f.write(struct.pack("<Q", len(data))); f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if len(data) < 8:
        return ("err", "process died")
    return pickle.loads(data[8:])


def perform(w, name, p=None):
    """-> (result object or exception)"""
    try:
        f = OPS[name][0]
        return f(w) if p is None else f(w, p)
    except BaseException as e:
        if str(e).startswith("VIOLATION"):
            raise
        return e


def slim(res, cut=True):
    """printed output and file paths are compared elsewhere"""
    return res


NOSCRIBBLE = ("opf_args", "opf_args2")     # argument parsers: they hand the arguments on


def one(w, name, before):
    """perform a call in the current process; -> frozen result, list of problems"""
    bad = []
    ps = process_state()
    res = perform(w, name)
    fr = freeze(res)
    now = world_state(w)
    if now != before:
        bad.append("argument changed: " + str(where(before, now, "args")))
    q = process_state()
    if q != ps:
        bad.append("process state changed: " + str(where(ps, q)))
    if name not in NOSCRIBBLE:
        scribble(res)
    now2 = world_state(w)
    if now2 != now:
        bad.append("result shares data with an argument: " + str(where(now, now2, "args")))
    return fr, bad


SECOND = ["runpf", "runopf", "rundcopf", "runcpf", "dcopf:Afields", "ext2int", "qps_pypower", "cases", "loadcase:file", "ppoption", "makePTDF", "totcost"]


def build(tier):
    quick = tier == "quick"
    items = []
    for wd in WORLDS:
        ns = names(wd)
        for n in ns:        # quick: followed by the most telling calls (and itself); thorough: by every call, and by every telling call after a telling one
            items.append({"k": "seq", "world": wd, "first": n, "quick": quick})
        for o in range(2 if quick else 6):      # one history through the whole alphabet, forwards, backwards, and in four strides
            items.append({"k": "long", "world": wd, "order": o})
        an = [n for n in ns if OPS[n][2] == AN and not (quick and n in LESS)]
        for n in an:
            items.append({"k": "chain", "world": wd, "first": n, "quick": quick})
    return items


BASE = {}


def preload():
    """import everything before forking, so that the pristine processes need not"""
    import glob, pypower
    for fn in sorted(glob.glob(os.path.join(os.path.dirname(pypower.__file__), "*.py"))):
        try:
            __import__("pypower." + os.path.basename(fn)[:-3])
        except ImportError:
            pass


def baseline(world, n, tmp):
    """history-free result of a call (in a process of its own, never in this one)"""
    if (world, n) not in BASE:
        def f():
            w = W(world, tmp)
            return one(w, n, world_state(w))
        BASE[world, n] = forked(f)
    return BASE[world, n]


def run(item):
    r = Result()
    preload()
    tmp = os.path.join(tempfile.gettempdir(), "c07_%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        globals()["k_" + item["k"]](r, item, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r


def k_long(r, item, tmp):
    world = item["world"]
    ns = names(world)
    n = len(ns)
    if item["order"] < 2:
        ns = ns[::-1] if item["order"] else ns
    else:
        q = [7, 11, 13, 17, 19, 23]
        q = [s for s in q if n % s][item["order"] - 2]
        ns = [ns[(i * q) % n] for i in range(n)]
    B = dict((a, baseline(world, a, tmp)) for a in ns)
    def go():
        w = W(world, tmp)
        out = []
        for i, a in enumerate(ns):
            fr, bad = one(w, a, world_state(w))
            st, val = B[a]
            if st != "ok":
                continue
            if fr != val[0]:
                out.append((a, "memory", "after %s: %s" % (ns[:i], where(val[0], fr, "result"))))
            for m in bad:
                if m not in val[1]:
                    out.append((a, m.split(":")[0], m))
        return out
    st, out = forked(go)
    if st == "err":
        r.bad("long:%s:%d:died" % (world, item["order"]), out); return
    r.evals += len(ns); r.transitions += len(ns); r.validated += len(ns)
    r.states.add(canon([world, item["order"]]))
    for a, k, m in out:
        r.bad("long:%s:%d:%s:%s" % (world, item["order"], a, k), "%s: %s" % (a, m[:1500]))
    r.tag("long")


def k_seq(r, item, tmp):
    world, a = item["world"], item["first"]
    alln = names(world)
    secs = alln if not item["quick"] else [b for b in alln if b in SECOND or b == a]
    B = dict((b, baseline(world, b, tmp)) for b in set(secs) | set([a]))
    key = world + ":" + a
    st, val = B[a]
    if st == "err":
        r.bad(key, val); return
    for m in val[1]:
        r.bad(key + ":alone:" + m.split(":")[0], "%s: %s" % (a, m))
    def tree():
        w = W(world, tmp)
        before = world_state(w)
        out = []
        fr, bad = one(w, a, before)
        if fr != val[0]:
            out.append(([a], "repeat", where(val[0], fr, "result")))
        for b in secs:
            def leaf():
                o = []
                fr2, bad2 = one(w, b, world_state(w))
                st2, val2 = B[b]
                if st2 == "ok":
                    if fr2 != val2[0]:
                        o.append(([a, b], "memory", where(val2[0], fr2, "result")))
                    for m in bad2:
                        if m not in val2[1]:
                            o.append(([a, b], m.split(":")[0], m))
                n = 1
                if not item["quick"] and a in SECOND and b in SECOND:
                    for c in SECOND:
                        if c not in alln:
                            continue
                        def leaf3():
                            fr3, bad3 = one(w, c, world_state(w))
                            st3, val3 = B[c]
                            return [([a, b, c], "memory", where(val3[0], fr3, "result"))] if st3 == "ok" and fr3 != val3[0] else []
                        s3, v3 = forked(leaf3)
                        n += 1
                        o += v3 if s3 == "ok" else [([a, b, c], "died", v3)]
                return o, n
            s, v = forked(leaf)
            if s == "ok":
                out += v[0]
                out.append(("count", v[1], b))
            else:
                out.append(([a, b], "died", v))
        return out
    st, out = forked(tree)
    if st == "err":
        r.bad(key + ":died", out); return
    r.evals += 1
    for o in out:
        if o[0] == "count":
            r.evals += o[1]; r.transitions += o[1]; r.validated += o[1]
            r.states.add(canon([world, a, o[2]]))
            continue
        r.bad(world + ":" + ",".join(o[0]) + ":" + o[1], "history %s: %s" % (" -> ".join(o[0]), o[2]))
    r.tag("histories", len(secs))
    r.tag("raising" if val[0][0] == "e" else "returning")
    if r.sample is None:
        r.sample = {"item": item}


KEEP = ("version", "baseMVA", "bus", "gen", "branch", "gencost", "areas", "A", "l", "u", "N", "fparm", "H", "Cw", "z0", "zl", "zu", "userfcn", "reserves", "if", "dcline", "dclinecost")
RESERVE_IN = ("zones", "req", "cost", "qty")


def plain(res):
    """the case data of a result, as a user would type them in"""
    q = dict((k, api.clone(res[k])) for k in KEEP if k in res)
    q["bus"], q["gen"], q["branch"] = q["bus"][:, :13].copy(), q["gen"][:, :21].copy(), q["branch"][:, :13].copy()
    if "reserves" in q:
        q["reserves"] = dict((k, q["reserves"][k]) for k in RESERVE_IN)
    if "if" in q:
        q["if"] = dict((k, q["if"][k]) for k in ("map", "lims"))
    return q


def case_of(res):
    if isinstance(res, BaseException):
        return None
    if isinstance(res, tuple):
        res = res[0]
    return res if isinstance(res, dict) and "bus" in res else None


def outcome(x):
    """what a user reads from an analysis or query"""
    d = case_of(x)
    if d is None:
        return x
    return dict((k, d[k]) for k in ("bus", "gen", "branch", "gencost", "f", "success", "areas") if k in d)


def close(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s[%s] only on one side" % (path, k)
            w = close(a[k], b[k], path + "[%s]" % k)
            if w:
                return w
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return path + " lengths"
        for i, (x, y) in enumerate(zip(a, b)):
            w = close(x, y, path + "[%d]" % i)
            if w:
                return w
        return None
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return None if type(a) is type(b) else "%s: %r / %r" % (path, a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            n = min(a.shape[1:] + (99,)), min(b.shape[1:] + (99,))
            if a.ndim == 2 == b.ndim and len(a) == len(b):     # result columns need not be there
                m = min(a.shape[1], b.shape[1])
                a, b = a[:, :m], b[:, :m]
            else:
                return "%s: shapes %s %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "OU":
            return None
        bad = ~((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (a == b))
        return "%s: %s / %s at %s" % (path, a[bad][:3], b[bad][:3], np.argwhere(bad)[:3].tolist()) if bad.any() else None
    if isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)):
        return None if abs(a - b) <= 1e-9 * (1 + abs(b)) else "%s: %r / %r" % (path, a, b)
    return None


LESS = ("runpf:fdbx", "runpf:gs", "runopf:565", "rundcopf:250", "runopf:verbose", "runpf:verbose", "runopf:dc", "runpf:dc", "runduopf", "uopf", "dcopf", "opf")


def k_chain(r, item, tmp):
    world, a = item["world"], item["first"]
    import inspect
    seconds = [n for n in names(world) if "p" in inspect.signature(OPS[n][0]).parameters and not (item["quick"] and n in LESS)]
    def root():
        w = W(world, tmp)
        base = case_of(perform(w, a))
        if base is None:
            return []
        out = []
        for b in seconds:
            def leaf():
                c1, c2 = base, plain(base)
                f0 = freeze(base)
                x = perform(w, b, c1)
                o = []
                if freeze(base) != f0:
                    o.append("argument changed: %s" % where(f0, freeze(base), "case"))
                y = perform(w, b, c2)
                if b == "savecase":
                    return o
                x, y = outcome(x), outcome(y)
                if OPS[b][2] != AN:     # these hand the results fields on
                    for z in (x, y):
                        if isinstance(z, dict):
                            z.pop("f", None); z.pop("success", None)
                d = close(x, y, "result")
                if d:
                    o.append("differs: %s" % d)
                return o
            s, v = forked(leaf)
            out.append((b, v if s == "ok" else ["died: " + v]))
        return out
    st, out = forked(root)
    if st == "err":
        r.bad("chain:%s:%s:died" % (world, a), out); return
    for b, o in out:
        r.evals += 1; r.transitions += 1; r.validated += 1
        r.states.add(canon(["chain", world, a, b]))
        for m in o:
            r.bad("chain:%s:%s:%s:%s" % (world, a, b, m.split(":")[0]), "%s on the result of %s: %s" % (b, a, m))
    r.tag("chains", len(out))
