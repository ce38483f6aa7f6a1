"""C22: user callbacks run in order, at their stage, exactly once."""
import copy, itertools, os, shutil, tempfile
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import api

PROP = "C22"
LEVEL = "model_checking"
RULE = ("states: every list of callbacks reachable by at most D registrations and removals (stages x functions x argument kinds x duplicates, valid "
        "and invalid), replayed against a list model and executed stage by stage; and every assignment of up to two callbacks (one of them possibly "
        "failing) to stages in every kind of analysis with every output option, the observed trace of calls being compared with the specified one. "
        "Non-trivial: at least one callback registered")
ASSUMPTIONS = ["the printpf stage belongs to the report, which is written only when OUT_ALL is nonzero (a run with OUT_ALL = 0 writes none)"]

STAGES = ["ext2int", "formulation", "int2ext", "printpf", "savecase"]
TRACE = []


class Boom(Exception):
    pass


def mkf(nm):
    def f(x, *rest):
        TRACE.append((nm, x, rest))
        return (nm, x)
    f.__name__ = nm
    return f

F = {"f": mkf("f"), "g": mkf("g")}
ARGS = {"none": None, "list": [1, "a"], "dict": {"k": 2}, "num": 5, "str": "xyz", "arr": np.array([1., 2.]), "empty": []}
EMPTYISH = ("none", "empty")


def alphabet(deep):
    A = []
    for st in (["ext2int", "printpf"] if not deep else ["ext2int", "formulation", "printpf", "savecase"]):
        for f in F:
            A += [("add", st, f, a, m) for a in (("none", "list") if not deep else ("none", "dict")) for m in (False, True)]
            A += [("rem", st, f)]
    A += [("add", "ext2int", "f", a, True) for a in ("num", "str", "arr", "empty", "dict")]
    A += [("add", "nosuch", "f", "none", False), ("add", "", "g", "list", True), ("rem", "int2ext", "g"), ("add", "int2ext", "g", "num", False)]
    return A


def build(tier):
    it = []
    d = 3 if tier == "quick" else 4
    A = alphabet(tier != "quick")
    for i in range(len(A)):
        for j in range(len(A)):
            it.append({"k": "reg", "pre": [i, j], "depth": d, "deep": tier != "quick"})
    asg = [()] + [((s, "f"),) for s in STAGES] + [((s, "f"), (t, "g")) for s in STAGES for t in STAGES]
    if tier != "quick":
        asg += [((s, "f"), (t, "g"), (u, "f")) for s in STAGES for t in STAGES for u in STAGES]
    for an in ("pf", "dcpf", "opf", "dcopf", "uopf", "opf_infeasible", "pf_fails"):
        for a in asg:
            for out in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if len(a) == 2 and out in ((1, 0), (0, 1)) and tier == "quick" and an in ("opf", "uopf", "opf_infeasible", "pf_fails"):
                    continue
                it.append({"k": "run", "an": an, "asg": [list(x) for x in a], "out": list(out), "boom": None})
            if len(a) <= 2:
                for b in range(len(a)):
                    it.append({"k": "run", "an": an, "asg": [list(x) for x in a], "out": [1, 1], "boom": b})
    return it


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return type(a) == type(b) and (a == b or a != a)


def execute(ppc, model, r, key):
    """run every stage and compare the calls made with the list model"""
    from pypower.run_userfcn import run_userfcn
    for st in STAGES:
        del TRACE[:]
        extra = () if st in STAGES[:3] else ("FD", "OPT")
        x, want = ("seed", st), []
        rv = run_userfcn(ppc.get("userfcn", {}), st, x, *extra)
        r.evals += 1
        for s, f, a in model:
            if s != st:
                continue
            want.append((f, x, extra + ([] if a in EMPTYISH else ARGS[a],)))
            x = (f, x)
        r.expect(same(TRACE, want), key + ":calls:" + st, lambda: "stage %s made calls %s, expected %s" % (st, TRACE, want))
        r.expect(rv == x, key + ":result:" + st, lambda: "stage %s returned %s expected %s" % (st, rv, x))


def step(op, ppc, model, r, key):
    from pypower.add_userfcn import add_userfcn
    from pypower.remove_userfcn import remove_userfcn
    before = copy.deepcopy(ppc)
    if op[0] == "add":
        _, st, f, a, m = op
        ok = st in STAGES and (m or not any(s == st and g == f for s, g, _ in model))
        try:
            out = add_userfcn(ppc, st, F[f], copy.deepcopy(ARGS[a]), m) if a != "none" else (add_userfcn(ppc, st, F[f], allow_multiple=True) if m else add_userfcn(ppc, st, F[f]))
            done = True
        except Exception as ex:
            done, out = False, ex
        if not r.expect(done == ok, key + (":rejected" if ok else ":accepted"), "registration %s %s after %s%s" % (op, "rejected" if not done else "accepted", model, "" if done else ": %r" % out)):
            return None
        if not done:
            r.expect(same(ppc, before), key + ":reject_effect", "rejected registration changed the case: %s" % (ppc.get("userfcn"),))
            r.tag("rejected")
            return list(model)
        r.tag("added")
        model = model + [(st, f, a)]
    else:
        _, st, f = op
        hit = [i for i, (s, g, _) in enumerate(model) if s == st and g == f]
        out = remove_userfcn(ppc, st, F[f])
        model = [x for i, x in enumerate(model) if not hit or i != hit[-1]]
        r.tag("removed" if hit else "removed_absent")
    r.expect(out is not None and same(out, ppc) or out is not None and out.get("userfcn") is ppc.get("userfcn"), key + ":ret", "the updated case is not returned")
    r.expect(all(same(ppc[k], before[k]) for k in before if k != "userfcn"), key + ":other", "other case fields changed")
    return model


def explore(ppc, model, A, left, r, path):
    key = "reg:" + ";".join(".".join(map(str, o)) for o in path)
    r.states.add(canon([model, path if len(path) < 3 else None]))
    execute(ppc, model, r, key)
    r.validated += 1
    if left == 0:
        return
    for op in A:
        p2 = copy.deepcopy(ppc)
        m2 = step(op, p2, model, r, key + "+" + ".".join(map(str, op)))
        r.transitions += 1
        if m2 is not None:
            explore(p2, m2, A, left - 1, r, path + [op])


def reg(item, r):
    A = alphabet(item["deep"])
    ppc, model, path = {"baseMVA": 100., "x": [1, 2]}, [], []
    for i in item["pre"]:
        model = step(A[i], ppc, model, r, "reg:" + ";".join(".".join(map(str, o)) for o in path + [A[i]]))
        path.append(A[i])
        r.transitions += 1
        if model is None:
            return
    explore(ppc, model, A, item["depth"] - 2, r, path)


# ------------------------------------------------------------------ analyses
def case():
    p = b3()
    p["gencost"][:, 4] = [.1, .05]
    p["gen"][:, PMIN] = 0.
    # dead elements, unsorted numbering: external and internal form differ
    p["bus"] = np.vstack([p["bus"], bus(3, 4, 5.)])
    p["gen"] = np.vstack([gen(11, 4., status=0), p["gen"]])
    p["gencost"] = np.vstack([p["gencost"][:1], p["gencost"]])
    p["branch"] = np.vstack([p["branch"], br(3, 11, .01, .1)])
    return p


def stage_fn(nm, stage, pos, booms):
    def cb(x, *rest):
        TRACE.append((stage, nm, pos, describe(stage, x, rest)))
        if booms:
            raise Boom("callback %s failed" % nm)
        return x
    cb.__name__ = nm
    return cb


def describe(stage, x, rest):
    """what the callback saw, in a comparable form"""
    d = {"args": rest[-1] if rest else None, "n": len(rest)}
    if stage in ("ext2int", "int2ext"):
        d["state"] = x["order"]["state"]
        d["nbus"] = len(x["bus"])
        d["first"] = float(x["bus"][0, 0])
    elif stage == "formulation":
        d["om"] = type(x).__name__
        d["vars"] = list(x.var["order"])
    else:
        d["state"] = x["order"]["state"]
        d["nbus"] = len(x["bus"])
        d["success"] = bool(x["success"])
        if stage == "printpf":
            d["writable"] = hasattr(rest[0], "write")
            d["out_all"] = rest[1]["OUT_ALL"]
        else:
            d["writable"] = hasattr(rest[0], "write")
            d["prefix"] = rest[1]
    return d


def runan(an, ppc, opt, fname, solved):
    from pypower import runpf, rundcpf, runopf, rundcopf, runuopf
    import pypower.runpf, pypower.rundcpf, pypower.runopf, pypower.rundcopf, pypower.runuopf
    f = {"pf": pypower.runpf.runpf, "pf_fails": pypower.runpf.runpf, "dcpf": pypower.rundcpf.rundcpf, "opf": pypower.runopf.runopf, "opf_infeasible": pypower.runopf.runopf,
         "dcopf": pypower.rundcopf.rundcopf, "uopf": pypower.runuopf.runuopf}[an]
    out = f(ppc, opt, fname, solved)
    return out[0] if isinstance(out, tuple) else out


def snap(res):
    return [np.array(res[k]) for k in ("bus", "gen", "branch")] + [bool(res["success"])]


def runit(item, r):
    from pypower.add_userfcn import add_userfcn
    an, asg, boom = item["an"], item["asg"], item["boom"]
    key = "run:%s:%s:%s:%s" % (an, ",".join("%s.%s" % tuple(a) for a in asg), item["out"], boom)
    p = case()
    if an == "opf_infeasible":
        p["bus"][2, PD] = 900.
    if an == "pf_fails":
        p["bus"][2, PD] = 9000.
    base = copy.deepcopy(p)
    if asg:
        p["userfcn_marker"] = 1
        base["userfcn_marker"] = 1
    for i, (st, nm) in enumerate(asg):
        add_userfcn(p, st, stage_fn(nm, st, i, boom == i), {"id": i, "name": nm}, True)
    before = copy.deepcopy(p)
    tmp = tempfile.mkdtemp(prefix="c22_")
    try:
        fname = os.path.join(tmp, "rep.txt")
        solved = os.path.join(tmp, "out.py") if item["out"][1] else ""
        del TRACE[:]
        opt = api.opts(OUT_ALL=item["out"][0])
        exc = res = None
        try:
            res = runan(an, p, opt, fname, solved)
        except Boom as ex:
            exc = ex
        trace = list(TRACE)
        r.evals += 1
        opfish = an not in ("pf", "dcpf", "pf_fails")
        # expected trace
        want = []
        stop = False
        for st in STAGES:
            if st == "formulation" and not opfish or st == "savecase" and not solved or st == "printpf" and not item["out"][0]:
                continue
            for i, (s, nm) in enumerate(asg):
                if s == st and not stop:
                    want.append((st, nm, i))
                    if boom == i:
                        stop = True
        got = [t[:3] for t in trace]
        if an == "uopf" and not stop:
            # one or more complete solves, then the report
            nsol = sum(1 for t in got if t[0] == "ext2int") // max(1, sum(1 for s, _ in asg if s == "ext2int"))
            one = [w for w in want if w[0] in STAGES[:3]]
            if one:
                n = sum(1 for t in got if t[0] in STAGES[:3])
                r.expect(n % len(one) == 0 and n > 0, key + ":solves", "incomplete solve in trace %s" % got)
                want = one * (n // len(one)) + [w for w in want if w[0] not in STAGES[:3]]
        r.expect(got == want, key + ":trace", "calls %s, expected %s" % (got, want))
        for st, nm, i, d in trace:
            r.expect(d["args"] == {"id": i, "name": nm}, key + ":args", "callback %d got arguments %s" % (i, d["args"]))
            if st in ("ext2int", "int2ext"):
                r.expect(d["state"] == "i" and d["nbus"] == 3 and d["first"] == 0, key + ":internal", "%s callback sees %s, expected the internal case" % (st, d))
            elif st == "formulation":
                r.expect(d["om"] == "opf_model" and d["vars"][:1] == ["Va"] and "Pg" in d["vars"], key + ":om", "formulation callback sees %s" % d)
            else:
                r.expect(d["state"] == "e" and d["nbus"] == 4 and d["writable"], key + ":external", "%s callback sees %s" % (st, d))
                if st == "printpf":
                    r.expect(d["out_all"] == item["out"][0], key + ":ppopt", "printpf callback sees OUT_ALL %s" % d["out_all"])
                else:
                    r.expect(isinstance(d["prefix"], str) and d["prefix"], key + ":prefix", "savecase callback sees prefix %r" % (d["prefix"],))
        r.expect((exc is not None) == stop, key + ":exception", "a failing callback %s" % ("did not surface" if stop else "surfaced unexpectedly"))
        cmp_keys = [k for k in before if k != "userfcn"]
        r.expect(set(p) == set(before) and all(same(p[k], before[k]) for k in cmp_keys) and
                 {s: [c["fcn"] for c in v] for s, v in p.get("userfcn", {}).items()} == {s: [c["fcn"] for c in v] for s, v in before.get("userfcn", {}).items()},
                 key + ":case", "the caller's case was changed")
        if res is not None:
            ref = runan(an, copy.deepcopy(base), api.opts(), "", "")
            r.expect(all(np.array_equal(a, b) for a, b in zip(snap(res), snap(ref))), key + ":result", "results with passive callbacks differ from the run without")
            r.expect(("userfcn" in res) == bool(asg), key + ":kept", "callbacks not kept in the results")
            if item["out"][0]:
                r.expect(os.path.exists(fname), key + ":report", "no report file")
            if solved:
                r.expect(os.path.exists(solved), key + ":saved", "no solved case file")
        else:
            # the same case without the failing callback still works
            q = copy.deepcopy(p); del q["userfcn"]
            r.expect(all(np.array_equal(a, b) for a, b in zip(snap(runan(an, q, api.opts(), "", "")), snap(runan(an, copy.deepcopy(base), api.opts(), "", "")))), key + ":after", "case unusable after a failing callback")
        r.states.add(canon(item)); r.transitions += len(trace); r.validated += 1
        r.tag(an if boom is None else "failing")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(item):
    r = Result()
    (reg if item["k"] == "reg" else runit)(item, r)
    return r
