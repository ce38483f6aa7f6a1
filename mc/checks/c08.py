"""C08: case loading accepts every documented form and rejects the rest cleanly."""
import os, copy, itertools, shutil, tempfile
import numpy as np
from scipy.io import savemat
from mc.core import Result, canon
from mc.space import *
from mc import api

PROP = "C08"
LEVEL = "model_checking"
RULE = ("states: (source form, format version, width of the matrices, optional fields present, return form) - the full product - and every "
        "listed fault for every source form, plus all two-step histories of loads (file rewritten in between, same name in another "
        "directory, failing load first). Every cell holds a distinct value; the loaded data are compared with a reference loader. "
        "Non-trivial: file forms, version 1 data, optional fields or faults")
ASSUMPTIONS = ["case files do not depend on the environment"]

WID = {"v1": [(10, 11), (10, 15), (14, 17)],
       "v2": [(21, 13), (25, 21), (21, 17)],
       "v2short": [(10, 11)],
       "none": [(10, 11), (14, 17), (21, 13), (25, 21)]}
SRC = ["dict", "dictint", "py", "pynoext", "pytuple", "pytuplenoext", "pyimport", "matppc", "matmpc", "matvars", "matnoext", "both"]
OPTF = [(), ("gencost",), ("areas",), ("gencost", "areas"), ("gencost", "areas0"), ("gencost", "user"), ("gencost2", "areas", "user", "x")]
RET = ["obj", "l6", "l5", "l4"]
FAULTS = ["none", "int", "list", "tuple", "nofile", "nofile.py", "nofile.mat", "syntax", "raise_import", "raise_call", "nofunc", "ret_none", "ret_str",
          "ret_tuple3", "ret_tuple5", "missing_bus", "missing_gen", "missing_branch", "missing_baseMVA", "none_bus", "corrupt_mat", "emptymat",
          "mat_missing_bus", "mat_missing_gen", "mat_missing_branch", "mat_missing_baseMVA", "dict_missing_bus", "dict_missing_gen",
          "dict_missing_branch", "dict_missing_baseMVA", "py_is_dir", "need_gencost", "need_areas", "dict_empty", "helper_undefined", "sysexit"]


def build(tier):
    it = []
    for ver in WID:
        for w in WID[ver]:
            for o in range(len(OPTF)):
                for s in SRC:
                    it.append({"k": "load", "ver": ver, "w": w, "opt": o, "src": s})
    for f in FAULTS:
        it.append({"k": "fault", "f": f})
    steps = ["A", "A2", "B", "mat", "bad", "dict"]
    n = 3 if tier == "quick" else 4
    for d in range(2, n + 1):
        for h in itertools.product(steps, repeat=d):
            it.append({"k": "hist", "h": h})
    return it


def case(ver, w, opt):
    p = {"baseMVA": 125.}
    if ver in ("v1", "v2"):
        p["version"] = ver[1]
    elif ver == "v2short":
        p["version"] = "2"
    b = np.arange(3 * 13).reshape(3, 13) + 1000.; b[:, 0] = [4, 9, 2]; b[:, 1] = [3, 2, 1]
    if w[0] in (14, 25):
        b = np.c_[b, np.arange(12.).reshape(3, 4) + 1500]
    g = np.arange(2 * w[0]).reshape(2, w[0]) + 2000.; g[:, 0] = [9, 4]; g[:, 7] = [1, 0]
    l = np.arange(3 * w[1]).reshape(3, w[1]) + 3000.; l[:, 0] = [4, 9, 4]; l[:, 1] = [9, 2, 2]; l[:, 10] = [1, 1, 0]
    p["bus"], p["gen"], p["branch"] = b, g, l
    for f in opt:
        if f == "gencost":
            p["gencost"] = np.array([[2, 10, 20, 3, .5, 5, 7.], [1, 1, 2, 1, 3, 4, 0]], float)
        elif f == "gencost2":
            p["gencost"] = np.array([[2, 10, 20, 3, .5, 5, 7.], [1, 1, 2, 1, 3, 4, 0], [2, 1, 0, 2, 5, 6, 0], [2, 0, 0, 1, 7, 0, 0]], float)
        elif f == "areas":
            p["areas"] = np.array([[1, 4], [2, 9.]])
        elif f == "areas0":
            p["areas"] = np.zeros((0, 2))
        elif f == "user":
            p["A"] = np.arange(20.).reshape(2, 10) + 4000; p["l"] = np.array([1., 2.]); p["u"] = np.array([3., 4.])
            p["N"] = np.arange(10.).reshape(1, 10) + 4100; p["Cw"] = np.array([2.5])
            p["z0"] = np.array([.5, 1.]); p["zl"] = np.array([-2., -3.]); p["zu"] = np.array([4., 6.])
        elif f == "x":
            p["custom"] = np.array([[1., 2.], [3., 5.]])
    return p


def expected(p, ver):
    q = copy.deepcopy(p)
    g, l = q["gen"], q["branch"]
    v1 = ver == "v1" or (ver == "none" and g.shape[1] < 21)
    n = len(g); m = len(l)
    if v1 or ver == "v2short":
        q["gen"] = np.c_[g[:, :10], np.zeros((n, 11)), g[:, 10:]]
        q["branch"] = np.c_[l[:, :11], np.tile([-360., 360.], (m, 1)), l[:, 11:]]
        if l.shape[1] == 17:
            q["branch"] = np.c_[q["branch"], np.zeros((m, 2))]
    q["version"] = "2"
    if "areas" in q and len(q["areas"]) == 0:
        del q["areas"]
    return q


def literal(o):
    if isinstance(o, np.ndarray):
        if o.size == 0:
            return "array([]).reshape(%r)" % (o.shape,)
        return "array(%r)" % (o.tolist(),)
    return repr(o)


def write_py(path, p, tuple_form=False, imports=False):
    name = os.path.basename(path)[:-3]
    s = "from numpy import array\n" if imports else ""
    s += "def %s():\n" % name
    if tuple_form:
        ks = ["baseMVA", "bus", "gen", "branch"] + (["areas", "gencost"] if "areas" in p and "gencost" in p else [])
        s += "    return (%s)\n" % ", ".join(literal(p[k]) for k in ks)
    else:
        s += "    ppc = {}\n"
        for k, v in p.items():
            s += "    ppc[%r] = %s\n" % (k, literal(v))
        s += "    return ppc\n"
    with open(path, "w") as f:
        f.write(s)


def write_mat(path, p, top=None):
    q = dict(p)
    savemat(path, {top: q} if top else q, oned_as="column")


def same(r, a, b, key, what):
    """a: loaded, b: expected dict of arrays"""
    ka, kb = set(k for k in a), set(b)
    r.expect(ka == kb, key + ":fields", "%s: fields %s, expected %s" % (what, sorted(ka), sorted(kb)))
    for k in sorted(ka & kb):
        x, y = a[k], b[k]
        if k == "version":
            r.expect(x == y, key + ":version", "%s: version %r" % (what, x))
        elif k == "baseMVA":
            r.expect(np.ndim(x) == 0 and float(x) == y, key + ":baseMVA", "%s: baseMVA %r" % (what, x))
        else:
            x = np.asarray(x)
            r.expect(x.shape == y.shape and np.array_equal(x.astype(float), y), "%s:%s" % (key, k),
                     lambda: "%s: %s is %s, expected %s" % (what, k, x.tolist(), y.tolist()))
            if k in ("bus", "gen", "branch", "gencost"):
                r.expect(x.dtype.kind == "f", "%s:%s:dtype" % (key, k), "%s: %s has type %s" % (what, k, x.dtype))


def deep_eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return type(a) == type(b) and a == b


def scribble(o):
    for v in (o.values() if isinstance(o, dict) else o):
        if isinstance(v, np.ndarray) and v.size:
            v += 77.


def do_load(item, r, d):
    from pypower.loadcase import loadcase
    ver, w, opt, src = item["ver"], tuple(item["w"]), OPTF[item["opt"]], item["src"]
    p = case(ver, w, opt)
    key = "%s:%s:%s:%s" % (src, ver, "x".join(map(str, w)), "+".join(opt))
    q = copy.deepcopy(p)
    exp = expected(p, ver)
    arg = os.path.join(d, "mycase")
    if src in ("dict", "dictint"):
        if src == "dictint":
            p["bus"] = p["bus"].astype(int); p["gen"] = p["gen"].astype(int); p["branch"] = p["branch"].astype(int)
            q = copy.deepcopy(p)
        arg = p
    elif src in ("py", "pynoext", "pyimport"):
        write_py(arg + ".py", p, imports=src == "pyimport")
        arg += "" if src == "pynoext" else ".py"
    elif src in ("pytuple", "pytuplenoext"):
        if ver not in ("v1",) and not (ver in ("v2", "none") and w[0] >= 21):
            return
        if not (set(opt) <= {"gencost", "areas"} and len(opt) != 1):
            return
        write_py(arg + ".py", p, tuple_form=True)
        arg += "" if src.endswith("noext") else ".py"
    elif src in ("matppc", "matmpc", "matvars", "matnoext"):
        write_mat(arg + ".mat", p, {"matppc": "ppc", "matmpc": "mpc", "matnoext": "ppc"}.get(src))
        if src == "matvars" and ver == "none":
            exp = expected(p, "v1" if w[0] < 21 else "v2")
        arg += "" if src == "matnoext" else ".mat"
    elif src == "both":
        write_mat(arg + ".mat", p, "ppc")
        z = case("v2", (21, 13), ("gencost",)); z["baseMVA"] = 1.
        write_py(arg + ".py", z)
    have_g, have_a = "gencost" in exp, "areas" in p
    for ret in RET:
        if ret == "obj":
            out = loadcase(arg)
        else:
            out = loadcase(arg, return_as_obj=False, expect_gencost=ret in ("l6", "l5"), expect_areas=ret == "l6")
        r.evals += 1; r.validated += 1
        fail = (ret in ("l6", "l5") and not have_g) or (ret == "l6" and not have_a)
        k = key + ":" + ret
        if fail:
            r.tag("missing_optional")
            r.expect(isinstance(out, int) and out == 5, k + ":code", "required part missing: returned %r instead of code 5" % (type(out) if not isinstance(out, int) else out,))
            continue
        if isinstance(out, int):
            r.bad(k + ":rejected", "valid case rejected with code %d" % out); continue
        r.tag("loaded_" + ret)
        if ret == "obj":
            same(r, out, exp, k, key)
        else:
            names = ["baseMVA", "bus", "gen", "branch"] + {"l6": ["areas", "gencost"], "l5": ["gencost"], "l4": []}[ret]
            if not r.expect(len(out) == len(names), k + ":len", "%d values returned, expected %d" % (len(out), len(names))):
                continue
            e2 = dict((n, exp[n] if n in exp else p[n]) for n in names)
            same(r, dict(zip(names, out)), e2, k, key)
        if src in ("dict", "dictint"):
            r.expect(deep_eq(p, q), k + ":mutated", "loading modified the caller's case")
            scribble(out)
            r.expect(deep_eq(p, q), k + ":aliased", "editing the loaded case changes the caller's case")
    r.states = {canon((key,))}


def do_fault(item, r, d):
    from pypower.loadcase import loadcase
    f = item["f"]
    good = case("v2", (21, 13), ("gencost", "areas"))
    path = os.path.join(d, "fcase")
    rets = None
    def py(body):
        with open(path + ".py", "w") as fd:
            fd.write(body)
        return [path + ".py", path]
    def drop(k):
        q = copy.deepcopy(good); del q[k]; return q
    if f in ("none", "int", "list", "tuple"):
        args, code = [{"none": None, "int": 7, "list": [1, 2], "tuple": (100., good["bus"], good["gen"], good["branch"])}[f]], 1
    elif f == "nofile":
        args, code = [path, os.path.join(d, "no_such_dir", "x"), "", "case_with_no_file"], 2
    elif f == "nofile.py":
        args, code = [path + ".py", os.path.join(d, "nodir", "x.py")], 4
    elif f == "nofile.mat":
        args, code = [path + ".mat", os.path.join(d, "nodir", "x.mat")], 3
    elif f == "syntax":
        args, code = py("def fcase(:\n  return {"), 5
    elif f == "raise_import":
        args, code = py("import no_such_module_xyz\ndef fcase():\n    return {}\n"), 5
    elif f == "raise_call":
        args, code = py("def fcase():\n    return {}['x']\n"), 5
    elif f == "sysexit":
        args, code = py("def fcase():\n    raise IOError('x')\n"), 5
    elif f == "nofunc":
        args, code = py("def other():\n    return {}\n"), 5
    elif f == "ret_none":
        args, code = py("def fcase():\n    return None\n"), 5
    elif f == "ret_str":
        args, code = py("def fcase():\n    return 'abc'\n"), 5
    elif f == "ret_tuple3":
        args, code = py("def fcase():\n    return (100., array([[1.]]), array([[1.]]))\n"), 5
    elif f == "ret_tuple5":
        args, code = py("def fcase():\n    return (100., array([[1.]]), array([[1.]]), array([[1.]]), 3)\n"), 5
    elif f.startswith("missing_"):
        write_py(path + ".py", drop(f[8:])); args, code = [path + ".py", path], 5
    elif f == "none_bus":
        q = dict(good); q["bus"] = None
        write_py(path + ".py", q); args, code = [path + ".py", path, q], 5
    elif f == "corrupt_mat":
        with open(path + ".mat", "wb") as fd:
            fd.write(b"this is not a mat file" * 20)
        args, code = [path + ".mat", path], 5
    elif f == "emptymat":
        savemat(path + ".mat", {}); args, code = [path + ".mat", path], 5
    elif f.startswith("mat_missing_"):
        args, code = [], 5
        for i, top in enumerate(("ppc", "mpc", None)):
            write_mat(path + "%d.mat" % i, drop(f[12:]), top); args += [path + "%d.mat" % i, path + "%d" % i]
    elif f.startswith("dict_missing_"):
        args, code = [drop(f[13:])], 5
    elif f == "dict_empty":
        args, code = [{}], 5
    elif f == "py_is_dir":
        os.mkdir(path + ".py"); args, code = [path + ".py", path], 5
    elif f == "helper_undefined":
        a = os.path.join(d, "helper.py")
        with open(a, "w") as fd:
            fd.write("HELPER = 5\ndef helper():\n    return {}\n")
        loadcase(a)
        args, code = py("def fcase():\n    return {'baseMVA': HELPER}\n"), 5
    elif f in ("need_gencost", "need_areas"):
        q = drop(f[5:]); write_py(path + ".py", q); write_mat(os.path.join(d, "m.mat"), q, "ppc")
        args, code = [path + ".py", q, os.path.join(d, "m.mat")], 5
        rets = [dict(return_as_obj=False)]
    for a in args:
        snap = copy.deepcopy(a)
        for kw in rets or [{}, dict(return_as_obj=False), dict(return_as_obj=False, expect_gencost=False, expect_areas=False)]:
            r.evals += 1; r.validated += 1
            tag = "%s:%s" % (f, sorted(kw.items()))
            try:
                out = loadcase(a, **kw)
            except Exception as e:
                r.bad("fault:%s:exception" % tag, "%s: raised %s: %s" % (tag, type(e).__name__, e)); continue
            r.expect(type(out) is int and out == code, "fault:%s" % tag,
                     "%s (argument %s): expected code %d, got %r" % (tag, str(a)[:60], code, out if isinstance(out, int) else type(out)))
            if isinstance(a, dict):
                r.expect(deep_eq(a, snap), "fault:%s:mutated" % tag, "failed load modified the caller's case")
    r.tag("fault")
    # the analyses refuse such a case instead of reporting success
    r.states = {canon(("fault", f))}


def do_hist(item, r, d):
    """after any history of loads the next load returns what is in the file now"""
    from pypower.loadcase import loadcase
    os.mkdir(os.path.join(d, "s1")); os.mkdir(os.path.join(d, "s2"))
    n = 0
    for s in item["h"]:
        n += 1
        p = case("v2", (21, 13), ("gencost",)); p["bus"][0, 2] = n; p["baseMVA"] = 100. + n
        key = "hist:" + ">".join(item["h"][:n])
        if s == "A":
            a = os.path.join(d, "s1", "hcase.py"); write_py(a, p)
        elif s == "A2":
            a = os.path.join(d, "s1", "hcase"); write_py(a + ".py", p)
            if os.path.exists(a + ".mat"):
                os.remove(a + ".mat")
        elif s == "B":
            a = os.path.join(d, "s2", "hcase.py"); write_py(a, p, imports=True)
        elif s == "mat":
            a = os.path.join(d, "s1", "hcase"); write_mat(a + ".mat", p, "ppc")
        elif s == "dict":
            a = p
        else:
            a = os.path.join(d, "s1", "hcase.py")
            with open(a, "w") as f:
                f.write("def hcase():\n    return oops\n")
            r.evals += 1; r.transitions += 1
            out = loadcase(a)
            r.expect(type(out) is int and out == 5, key, "%s: broken file returned %r" % (key, type(out)))
            continue
        out = loadcase(a)
        r.evals += 1; r.transitions += 1
        if not isinstance(out, dict):
            r.bad(key, "%s: returned %r" % (key, out)); continue
        same(r, out, expected(p, "v2"), key, key)
        scribble(out)
    r.validated += 1
    r.tag("history")
    r.states = {canon(item["h"][:k]) for k in range(1, len(item["h"]) + 1)}


def run(item):
    r = Result()
    d = tempfile.mkdtemp(prefix="vf08_")
    try:
        {"load": do_load, "fault": do_fault, "hist": do_hist}[item["k"]](item, r, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r
