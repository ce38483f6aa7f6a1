"""C09: a saved case loads back as the same case."""
import os, copy, itertools, shutil, tempfile
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix, coo_matrix, issparse
from mc.core import Result, canon
from mc.space import *
from mc import api

PROP = "C09"
LEVEL = "model_checking"
RULE = ("states: (solved columns, cost rows, areas, user data, value alphabet, file format): the full product, each with every comment form at "
        "the base point; plus all save/load chains up to the bound and saved results of real analyses. The file is loaded with the real "
        "loader and every field compared at printed precision. Non-trivial: anything beyond the plain unsolved case")
ASSUMPTIONS = ["file names that are valid function names", "integer-valued codes (bus, area, zone numbers, types, statuses)"]

SHAPES = ["raw", "pf", "opf"]
COSTS = ["none", "poly", "pwl", "mixed", "q", "wide", "linear", "empty", "pwlrev"]
AREAS = ["none", "one", "two", "empty"]
USER = ["none", "Alu", "Al", "Au", "A", "Adense", "A0", "N", "NH", "NHf", "Nf", "z0", "zall", "all", "Aempty", "stray", "one", "zeros"]
VALS = ["plain", "signed", "extreme", "inf", "int"]
EXTS = [".py", "", ".mat"]
COMMENTS = [None, "", "one line", ["first", "second"], [], "x = 'quoted' # \\n"]


def build(tier):
    it = []
    for s, c, a, u in itertools.product(SHAPES, COSTS, AREAS, USER):
        for v in VALS if (tier != "quick" or a in ("one", "none")) else VALS[:1]:
            it.append({"k": "case", "s": s, "c": c, "a": a, "u": u, "v": v})
    for s, u in itertools.product(SHAPES, ["none", "all"]):
        for e in EXTS:
            for i in range(len(COMMENTS)):
                it.append({"k": "comment", "s": s, "u": u, "e": e, "c": i})
    n = 3 if tier == "quick" else 4
    for s, c, u in itertools.product(SHAPES, ["mixed", "q"], ["none", "all", "zall"]):
        for ch in itertools.product(EXTS, repeat=n):
            it.append({"k": "chain", "s": s, "c": c, "u": u, "ch": ch})
    for b in ("b2", "b3", "b4"):
        for an in ("pf", "dcpf", "opf", "dcopf", "opfu", "dcopfu", "pf_off", "opf_off"):
            for e in EXTS:
                it.append({"k": "real", "b": b, "an": an, "e": e})
    for e in EXTS:
        it.append({"k": "fail", "e": e})
        it.append({"k": "name", "e": e})
    return it


def case(s, c, a, u, v):
    k = {"plain": 1., "signed": -1., "extreme": 1., "inf": 1., "int": 1.}[v]
    def m(n, w, start, ints):
        x = np.arange(n * w, dtype=float).reshape(n, w) * 1.125 + start / 7.
        if v == "signed":
            x[:, 1::2] *= -1
        elif v == "extreme":
            x[:, 0::3] *= 1e9; x[:, 1::3] *= 1e-7
        elif v == "int":
            x = np.round(x)
        for j, col in ints.items():
            x[:, j] = col
        return x
    p = {"version": "2", "baseMVA": {"extreme": 1e-3, "signed": 123.456789, "inf": 98765.4321}.get(v, 100.)}
    p["bus"] = m(3, 17 if s == "opf" else 13, 1000., {0: [4, 900, 2], 1: [3, 2, 4], 6: [1, 1, 2], 10: [3, 1, 1]})
    p["gen"] = m(2, 25 if s == "opf" else 21, 2000., {0: [900, 4], 7: [1, -1 if v == "signed" else 0]})
    p["branch"] = m(3, {"raw": 13, "pf": 17, "opf": 21}[s], 3000., {0: [4, 900, 4], 1: [900, 2, 2], 10: [1, 1, 0]})
    if v == "extreme":      # multipliers and flows are printed with four decimals
        p["bus"][:, 13:] = 12345.5; p["gen"][:, 21:] = .0625; p["branch"][:, 13:] = -99999.25
    if v == "inf":
        p["gen"][0, [QMAX, PMAX]] = np.inf; p["gen"][0, QMIN] = -np.inf; p["branch"][1, RATE_A] = np.inf; p["gen"][1, PC1] = np.nan
    if c == "poly":
        p["gencost"] = np.array([[2, 1.5, 0, 3, .11, 5, 150], [2, 0, 2, 2, 1.2, 600, 0]])
    elif c == "pwl":
        p["gencost"] = np.array([[1, 1.5, 0, 3, 0, 0, 10, 100.5, 20, 300], [1, 0, 0, 2, -5, 3, 10, 45.25, 0, 0]])
    elif c == "pwlrev":     # the longest row is not the first, next to a longer polynomial
        p["gencost"] = np.array([[1, 0, 0, 2, -5, 3, 10, 45.25, 0, 0], [1, 1.5, 0, 3, 0, 0, 10, 100.5, 20, 300]])
    elif c == "mixed":
        p["gencost"] = np.array([[1, 1.5, 0, 3, 0, 0, 10, 100.5, 20, 300], [2, 0, 0, 4, .001, .02, 12.345678912, 5, 0, 0]])
    elif c == "q":
        p["gencost"] = np.array([[2, 1.5, 0, 3, .11, 5, 150], [2, 0, 2, 2, 1.2, 600, 0], [2, 0, 0, 1, 7, 0, 0], [2, 0, 0, 3, .5, .25, -3]])
    elif c == "wide":
        p["gencost"] = np.array([[2, 1.5, 0, 3, .11, 5, 150, 0, 0, 0, 0, 0], [2, 0, 2, 2, 1.2, 600, 0, 0, 0, 0, 0, 0]])
    elif c == "linear":
        p["gencost"] = np.array([[2, 0, 0, 2, 5., 7.], [2, 0, 0, 1, 3., 0.]])
    elif c == "empty":
        p["gencost"] = np.zeros((0, 7))
    if a == "one":
        p["areas"] = np.array([[1., 4.]])
    elif a == "two":
        p["areas"] = np.array([[1., 4.], [2., 900.]])
    elif a == "empty":
        p["areas"] = np.zeros((0, 2))
    n = 10
    A = np.zeros((3, n)); A[0, 0] = 1.5; A[1, [2, 9]] = [-2.25, 1e-6]; A[2, 4] = 123456.789
    N = np.zeros((2, n)); N[0, 3] = 4.; N[1, [0, 9]] = [1., -1.]
    if u in ("Alu", "Al", "Au", "A", "all", "Aempty"):
        p["A"] = csr_matrix(A)
    if u == "Adense":
        p["A"] = A.copy()
    if u == "A0":
        p["A"] = csr_matrix((3, n))
    if u == "Aempty":
        p["A"] = csr_matrix((0, n)); p["l"] = np.zeros(0); p["u"] = np.zeros(0)
    if u in ("Alu", "Al", "all", "Adense", "A0"):
        p["l"] = np.array([-1., -np.inf if v == "inf" else -1e10, 0.25])
    if u in ("Alu", "Au", "all", "Adense", "A0"):
        p["u"] = np.array([1.5, 3., np.inf if v == "inf" else 1e10])
    if u in ("N", "NH", "NHf", "Nf", "all"):
        p["N"] = csc_matrix(N); p["Cw"] = np.array([2.5, -7.])
    if u in ("NH", "NHf", "all"):
        p["H"] = csr_matrix(np.array([[1., .5], [.5, 2.]]))
    if u in ("NHf", "Nf", "all"):
        p["fparm"] = np.array([[1, 0., 0., 1.], [2, -.5, .125, 3.5]])
    if u in ("z0", "zall", "all"):
        p["z0"] = np.array([.5, 1.])
    if u in ("zall", "all"):
        p["zl"] = np.array([-1., -1e10]); p["zu"] = np.array([2., 1e10])
    if u == "one":
        p["A"] = csr_matrix(A[:1]); p["l"] = np.array([-1.]); p["u"] = np.array([2.]); p["N"] = csr_matrix(N[:1]); p["Cw"] = np.array([2.5])
        p["H"] = csr_matrix(np.array([[3.]])); p["fparm"] = np.array([[2, .5, 0., 1.]]); p["z0"] = np.array([.75]); p["zl"] = np.array([-2.]); p["zu"] = np.array([5.])
    if u == "zeros":
        p["A"] = csr_matrix(A); p["l"] = np.zeros(3); p["u"] = np.zeros(3); p["N"] = csr_matrix(N); p["Cw"] = np.zeros(2)
        p["H"] = csr_matrix((2, 2)); p["fparm"] = np.zeros((2, 4)); p["z0"] = np.zeros(2); p["zl"] = np.zeros(2); p["zu"] = np.zeros(2)
    if u == "stray":
        p["comment_field"] = "abc"; p["reserves_like"] = {"cost": np.array([1.])}
    if v == "int":
        for key in ("bus", "gen", "branch"):
            p[key] = p[key].astype(int)
    return p


FIELDS = ["bus", "gen", "branch", "gencost", "areas", "A", "l", "u", "N", "Cw", "H", "fparm", "z0", "zl", "zu"]


def close(x, y):
    """equal to nine significant digits or four decimals"""
    with np.errstate(all="ignore"):
        return (np.abs(x - y) <= 1e-8 * np.abs(y) + 1e-300) | (x == y) | (np.isnan(x) & np.isnan(y))


def compare(r, q, p, key):
    """q: loaded case; p: original"""
    if not isinstance(q, dict):
        r.bad(key + ":load", "%s: saved file does not load (code %r)" % (key, q)); return
    r.validated += 1
    r.expect(q.get("version") == "2", key + ":version", "version %r" % q.get("version"))
    r.expect(np.ndim(q["baseMVA"]) == 0 and close(float(q["baseMVA"]), p["baseMVA"]), key + ":baseMVA", "baseMVA %r, was %r" % (q["baseMVA"], p["baseMVA"]))
    for f in FIELDS:
        x, y = q.get(f), p.get(f)
        n = 0 if y is None else y.shape[0]
        if n == 0:
            r.expect(x is None or x.shape[0] == 0, key + ":" + f, "%s: %s was not there before saving" % (key, f)); continue
        if x is None:
            if not (f in ("l", "u") and p.get("A") is None) and not (f in ("Cw", "H", "fparm") and p.get("N") is None):
                r.bad(key + ":" + f, "%s: %s lost" % (key, f))
            continue
        x = x.toarray() if issparse(x) else np.asarray(x, float)
        y = y.toarray() if issparse(y) else np.asarray(y, float)
        if f == "gencost":      # padding beyond the widest row may be dropped
            w = max([4 + int(k[3]) * (2 if k[0] == 1 else 1) for k in y])
            y, x = y[:, :w], x[:, :w] if x.ndim == 2 else x
        if x.shape != y.shape:
            r.bad(key + ":%s:shape" % f, "%s: %s has shape %s, was %s" % (key, f, x.shape, y.shape)); continue
        ok = close(x, y)
        mu = {"bus": 13, "gen": 21, "branch": 13}.get(f)
        if mu is not None:
            ok[:, mu:] |= np.abs(x[:, mu:] - y[:, mu:]) <= .50001e-4
        r.expect(ok.all(), key + ":" + f, lambda: "%s: %s differs: loaded %s, saved %s" % (key, f, x[~ok][:5], y[~ok][:5]))


def snap(o):
    if isinstance(o, dict):
        return {k: snap(v) for k, v in o.items()}
    if issparse(o):
        c = o.tocoo(); return ("sp", o.format, o.shape, c.row.tobytes(), c.col.tobytes(), c.data.tobytes())
    if isinstance(o, np.ndarray) and o.dtype != object:
        return (o.dtype.str, o.shape, o.tobytes())
    return repr(o)


def save(r, d, name, p, key, **kw):
    from pypower.savecase import savecase
    from pypower.loadcase import loadcase
    before = snap(p)
    listing = set(os.listdir(d))
    out = savecase(os.path.join(d, name), p, **kw)
    r.evals += 1
    ext = ".mat" if name.endswith(".mat") else ".py"
    want = os.path.join(d, name if name.endswith((".py", ".mat")) else name + ".py")
    r.expect(out == want, key + ":name", "%s: returned name %r, expected %r" % (key, out, want))
    r.expect(set(os.listdir(d)) - listing <= {os.path.basename(want)}, key + ":files", "wrote %s" % sorted(set(os.listdir(d)) - listing))
    r.expect(snap(p) == before, key + ":mutated", "%s: saving modified the case" % key)
    if not os.path.exists(want):
        r.bad(key + ":nofile", "%s: no file written" % key); return None
    return loadcase(out if isinstance(out, str) and os.path.exists(out) else want)


def run(item):
    r = Result()
    d = tempfile.mkdtemp(prefix="vf09_")
    try:
        k = item["k"]
        if k == "case":
            p = case(item["s"], item["c"], item["a"], item["u"], item["v"])
            key = "case:%(s)s:%(c)s:%(a)s:%(u)s:%(v)s" % item
            for i, e in enumerate(EXTS):
                q = save(r, d, "mycase%d%s" % (i, e), p, key + ":" + (e or "noext"))
                r.tag("saved" + (e or "_noext"))
                compare(r, q, p, key + ":" + (e or "noext"))
            r.states = {canon(key + e) for e in EXTS}
        elif k == "comment":
            p = case(item["s"], "mixed", "one", item["u"], "plain")
            key = "comment:%(s)s:%(u)s:%(e)s:%(c)s" % item
            q = save(r, d, "mycase" + item["e"], p, key, comment=COMMENTS[item["c"]])
            compare(r, q, p, key)
            q = save(r, d, "mycase" + item["e"], p, key + ":v", comment=COMMENTS[item["c"]], version="2")
            compare(r, q, p, key + ":v")
            c = COMMENTS[item["c"]]
            if not item["e"].endswith(".mat") and c:
                txt = open(os.path.join(d, "mycase.py")).read()
                for l in ([c] if isinstance(c, str) else c):
                    r.expect(any(x.lstrip().startswith("#") and l in x for x in txt.split("\n")), key + ":text", "comment %r not in the file" % l)
            r.tag("comment"); r.states = {canon(key)}
        elif k == "chain":
            p = case(item["s"], item["c"], "two", item["u"], "extreme")
            q = p
            for i, e in enumerate(item["ch"]):
                key = "chain:%s:%s:%s:%s" % (item["s"], item["c"], item["u"], ">".join(x or "noext" for x in item["ch"][:i + 1]))
                q = save(r, d, "ch%d%s" % (i % 2, e), q, key)     # alternating names: files are overwritten
                for x in (".py", ".mat"):                          # avoid the other format being preferred
                    if not ("ch%d%s" % (i % 2, e or ".py")).endswith(x) and os.path.exists(os.path.join(d, "ch%d%s" % (i % 2, x))):
                        os.remove(os.path.join(d, "ch%d%s" % (i % 2, x)))
                r.transitions += 1
                compare(r, q, p, key)
                if not isinstance(q, dict):
                    break
            r.tag("chain"); r.states = {canon(item["ch"])}
        elif k == "real":
            real(item, r, d)
        elif k == "fail":
            from pypower.savecase import savecase
            p = case("raw", "poly", "one", "none", "plain"); before = snap(p)
            n = os.path.join(d, "nodir", "x" + item["e"])
            try:
                savecase(n, p)
            except (IOError, OSError):
                pass
            r.evals += 1
            r.expect(snap(p) == before, "fail:mutated", "failed save modified the case")
            r.expect(os.listdir(d) == [], "fail:files", "failed save wrote %s" % os.listdir(d))
            r.tag("unwritable")
        elif k == "name":
            for n in ("a", "ab", "abc", "abcd", "x_1", "mat", "py", "casepy"):
                p = case("pf", "mixed", "one", "Alu", "plain")
                compare(r, save(r, d, n + item["e"], p, "name:" + n + item["e"]), p, "name:" + n + item["e"])
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
            r.tag("names")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def real(item, r, d):
    """results of the analyses can be saved, loaded and analysed again"""
    p = BASES[item["b"]]()
    an = item["an"]
    if an.endswith("_off"):
        p["branch"] = np.vstack([p["branch"], p["branch"][-1:]]); p["branch"][-1, BR_STATUS] = 0
        e_disp(p, 1); p["gen"][-1, GEN_STATUS] = 0
    nb, ng = len(p["bus"]), len(p["gen"])
    if an.endswith("u"):
        n = 2 * nb + 2 * ng if an == "opfu" else nb + ng
        g0 = (2 * nb if an == "opfu" else nb)
        A = np.zeros((1, n)); A[0, g0] = 1.; A[0, 0] = .5
        p["A"] = csr_matrix(A); p["l"] = np.array([-50.]); p["u"] = np.array([50.])
    f = {"pf": api.pf, "dcpf": api.dcpf, "opf": api.opf, "dcopf": api.dcopf}[an.split("_")[0].rstrip("u")]
    out = f(p)
    res = out[0] if isinstance(out, tuple) else out
    key = "real:%(b)s:%(an)s:%(e)s" % item
    if not res["success"]:
        r.bad(key + ":solve", "base case not solved"); return
    q = save(r, d, "sol" + item["e"], res, key)
    compare(r, q, res, key)
    if isinstance(q, dict):
        out = f(q); r2 = out[0] if isinstance(out, tuple) else out
        r.evals += 1
        r.expect(r2["success"], key + ":again", "saved results cannot be solved again")
        for k, c in (("bus", [VM, VA]), ("gen", [PG, QG])):
            r.expect(np.allclose(r2[k][:, c], res[k][:, c], atol=2e-3, rtol=1e-4), key + ":again:" + k,
                     lambda: "solving the saved case again gives %s, was %s" % (r2[k][:, c].tolist(), res[k][:, c].tolist()))
        q2 = save(r, d, "sol2" + item["e"], r2, key + ":2"); compare(r, q2, r2, key + ":2")
    r.tag("solved_case"); r.states = {canon(key)}
