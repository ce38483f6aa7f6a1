"""C29: options default, override and are obeyed; wrappers equal the option they stand for."""
import itertools, math, sys
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc.space import apply as sp_apply
from mc import phys, api

PROP = "C29"
LEVEL = "model_checking"
RULE = ("states: (a) every sequence of at most three overrides over all option names in every calling form, (b) every (analysis, option, value) on small networks - a non-relevant option must leave the "
        "result bit-identical, a relevant one must act as documented: iteration limits and tolerances are compared with the enumerated family of truncated runs, "
        "(c) every wrapper against the explicit option, (d) invalid algorithm codes. Non-trivial: the analysis gives an answer")
ASSUMPTIONS = ["optional external solvers are absent", "option values come from a finite list per option"]

# documented defaults (PYPOWER manual / option help)
DEFAULTS = dict(PF_ALG=1, PF_TOL=1e-8, PF_MAX_IT=10, PF_MAX_IT_FD=30, PF_MAX_IT_GS=1000, ENFORCE_Q_LIMS=False, PF_DC=False, PF_LIN_SOLVER_NR='',
                CPF_PARAMETERIZATION=3, CPF_STOP_AT='NOSE', CPF_STEP=.05, CPF_ADAPT_STEP=False, CPF_ERROR_TOL=1e-3, CPF_STEP_MIN=1e-4, CPF_STEP_MAX=.2, CPF_PLOT_LEVEL=0, CPF_PLOT_BUS='',
                CPF_USER_CALLBACK='', CPF_USER_CALLBACK_ARGS='', OPF_ALG=0, OPF_VIOLATION=5e-6, OPF_FLOW_LIM=0, OPF_IGNORE_ANG_LIM=False, OPF_ALG_DC=0, VERBOSE=1, OUT_ALL=-1, OUT_SYS_SUM=True,
                OUT_AREA_SUM=False, OUT_BUS=True, OUT_BRANCH=True, OUT_GEN=False, OUT_ALL_LIM=-1, OUT_V_LIM=1, OUT_LINE_LIM=1, OUT_PG_LIM=1, OUT_QG_LIM=1, RETURN_RAW_DER=0,
                PDIPM_FEASTOL=0, PDIPM_GRADTOL=1e-6, PDIPM_COMPTOL=1e-6, PDIPM_COSTTOL=1e-6, PDIPM_MAX_IT=150, SCPDIPM_RED_IT=20)
ALT = dict(PF_ALG=4, PF_TOL=1e-3, PF_MAX_IT=1, PF_MAX_IT_FD=1, PF_MAX_IT_GS=2, ENFORCE_Q_LIMS=True, PF_LIN_SOLVER_NR='pyrlu', CPF_PARAMETERIZATION=1, CPF_STOP_AT=.3, CPF_STEP=.1, CPF_ADAPT_STEP=True,
           CPF_ERROR_TOL=1e-2, CPF_STEP_MIN=1e-2, CPF_STEP_MAX=.3, CPF_USER_CALLBACK_ARGS={"a": 1}, OPF_ALG=565, OPF_VIOLATION=1e-4, OPF_FLOW_LIM=1, OPF_IGNORE_ANG_LIM=True, OPF_ALG_DC=250,
           VERBOSE=2, OUT_ALL=1, OUT_SYS_SUM=False, OUT_AREA_SUM=True, OUT_BUS=False, OUT_BRANCH=False, OUT_GEN=True, OUT_ALL_LIM=2, OUT_V_LIM=2, OUT_LINE_LIM=0, OUT_PG_LIM=2, OUT_QG_LIM=0,
           RETURN_RAW_DER=1, PDIPM_FEASTOL=1e-3, PDIPM_GRADTOL=1e-3, PDIPM_COMPTOL=1e-3, PDIPM_COSTTOL=1e-3, PDIPM_MAX_IT=2, SCPDIPM_RED_IT=1, PF_DC=True)
CPF = [o for o in ALT if o.startswith("CPF_")]
PDIPM = ["PDIPM_FEASTOL", "PDIPM_GRADTOL", "PDIPM_COMPTOL", "PDIPM_COSTTOL", "PDIPM_MAX_IT", "OPF_VIOLATION"]
# analysis -> (fixed options, options that may matter)
ANALYSES = {
    "pf1": (dict(PF_ALG=1), ["PF_ALG", "PF_TOL", "PF_MAX_IT", "ENFORCE_Q_LIMS", "PF_DC", "PF_LIN_SOLVER_NR"]),
    "pf2": (dict(PF_ALG=2), ["PF_ALG", "PF_TOL", "PF_MAX_IT_FD", "ENFORCE_Q_LIMS", "PF_DC"]),
    "pf3": (dict(PF_ALG=3), ["PF_ALG", "PF_TOL", "PF_MAX_IT_FD", "ENFORCE_Q_LIMS", "PF_DC"]),
    "pf4": (dict(PF_ALG=4), ["PF_ALG", "PF_TOL", "PF_MAX_IT_GS", "ENFORCE_Q_LIMS", "PF_DC"]),
    "pfq": (dict(ENFORCE_Q_LIMS=True), ["PF_ALG", "PF_TOL", "PF_MAX_IT", "ENFORCE_Q_LIMS", "PF_DC", "PF_LIN_SOLVER_NR", "OPF_VIOLATION"]),
    "dcpf": (dict(PF_DC=True), ["PF_DC"]),
    "rundcpf": ({}, []),
    "opf": ({}, PDIPM + ["PF_DC", "OPF_ALG", "OPF_FLOW_LIM", "OPF_IGNORE_ANG_LIM"]),
    "opfsc": (dict(OPF_ALG=565), PDIPM + ["PF_DC", "OPF_ALG", "OPF_FLOW_LIM", "OPF_IGNORE_ANG_LIM", "SCPDIPM_RED_IT"]),
    "dcopf": (dict(PF_DC=True), PDIPM + ["PF_DC", "OPF_ALG_DC", "OPF_IGNORE_ANG_LIM"]),
    "dcopfsc": (dict(PF_DC=True, OPF_ALG_DC=250), PDIPM + ["PF_DC", "OPF_ALG_DC", "OPF_IGNORE_ANG_LIM", "SCPDIPM_RED_IT"]),
    "rundcopf": ({}, PDIPM + ["OPF_ALG_DC", "OPF_IGNORE_ANG_LIM"]),
    "uopf": ({}, PDIPM + ["PF_DC", "OPF_ALG", "OPF_FLOW_LIM", "OPF_IGNORE_ANG_LIM"]),
    "runduopf": ({}, PDIPM + ["OPF_ALG_DC", "OPF_IGNORE_ANG_LIM"]),
    "wres": (dict(PF_DC=True), PDIPM + ["PF_DC", "OPF_ALG_DC", "OPF_IGNORE_ANG_LIM"]),
    "cpf": ({}, CPF + ["PF_TOL", "PF_MAX_IT", "PF_LIN_SOLVER_NR"]),
}


def net(name):
    p = BASES[name]()
    if name == "b3":
        p["gen"][1, [QMIN, QMAX]] = -5., 9.
        p["branch"][1, RATE_A] = 45.
        p["branch"][0, [ANGMIN, ANGMAX]] = -1., 1.
    return p


def call(a, p, opt):
    """-> (results, success)"""
    from pypower import api as A
    from pypower.runcpf import runcpf
    if a.startswith("pf") or a == "dcpf":
        return A.runpf(p, opt)
    if a == "rundcpf":
        return A.rundcpf(p, opt)
    if a == "cpf":
        t = api.clone(p)
        t["bus"][-1, [PD, QD]] += [300., 100.]
        return runcpf(p, t, opt)
    if a == "wres":
        ng = len(p["gen"])
        p["reserves"] = {"zones": np.ones((1, ng)), "req": np.array([20.]), "cost": np.arange(1., ng + 1), "qty": np.full(ng, 25.)}
        r = A.runopf_w_res(p, opt)
    else:
        f = {"opf": A.runopf, "opfsc": A.runopf, "dcopf": A.runopf, "dcopfsc": A.runopf, "rundcopf": A.rundcopf, "uopf": A.runuopf, "runduopf": A.runduopf}[a]
        r = f(p, opt)
    return r, r["success"]


def digest(res):
    def strip(o):
        if isinstance(o, dict):
            return {str(k): strip(v) for k, v in o.items() if k not in ("et", "om", "order", "raw", "userfcn")}
        if isinstance(o, (list, tuple)):
            return [strip(x) for x in o]
        if isinstance(o, np.ndarray):
            return o if o.dtype != object else [strip(x) for x in o.tolist()]
        if isinstance(o, (bool, int, float, np.generic)):
            return float(o)
        return str(o)
    return canon(strip({k: v for k, v in res.items()}))


def build(tier):
    items = []
    names = sorted(DEFAULTS)
    for i in range(0, len(names)):
        items.append({"k": "merge", "first": names[i]})
    nets = ["b2", "b3", "b4"]
    quick = tier == "quick"
    for a in sorted(ANALYSES):
        for n in (["b3"] if quick else nets):
            items.append({"k": "frame", "a": a, "net": n})
            items.append({"k": "forms", "a": a, "net": n})
    pf_ed = {n: [()] + [(e,) for e in pf_alphabet(BASES[n](), False)] for n in nets}
    for n in (["b2", "b3"] if quick else nets):
        for s in pf_ed[n]:
            for alg in (1, 2, 3, 4):
                items.append({"k": "limit", "alg": alg, "net": n, "edits": tolist(s)})
    for n in (["b3"] if quick else nets):
        for a in ("opf", "opfsc", "dcopf", "dcopfsc", "rundcopf"):
            for s in ([()] + [(e,) for e in (("bus_load", 1, 60., 10.), ("gen_off", 1), ("br_off", 0))]):
                items.append({"k": "pdipm", "a": a, "net": n, "edits": tolist(s)})
    for n in nets:
        for s in [()] + [(e,) for e in pf_alphabet(BASES[n](), not quick)]:
            if not quick or n != "b4":
                items.append({"k": "wrap", "net": n, "edits": tolist(s)})
        items.append({"k": "raw", "net": n})
        items.append({"k": "badalg", "net": n})
        items.append({"k": "linsolver", "net": n})
    items.append({"k": "defcase"})
    return items, {"transitions": len(names) ** 3}


def run(item):
    r = Result()
    globals()["k_" + item["k"]](r, item)
    r.states.add(canon(item))
    return r


def values(o):
    return [ALT[o]] if o in ALT else ["zz"]


def k_merge(r, item):
    from pypower.ppoption import ppoption
    names = sorted(DEFAULTS)
    key = "merge:"
    base = ppoption()
    r.expect(set(DEFAULTS) <= set(base), key + "names", "missing options: %s" % sorted(set(DEFAULTS) - set(base)))
    for o in names:
        r.expect(o in base and base[o] == DEFAULTS[o] and isinstance(base[o], str) == isinstance(DEFAULTS[o], str) and isinstance(base[o], bool) == isinstance(DEFAULTS[o], bool), key + "default:" + o, "default of %s is %r" % (o, base.get(o)))
    extra = {k: v for k, v in base.items() if k not in DEFAULTS}
    a = item["first"]
    va = values(a)[0]
    for b in names:
        vb = "x1" if b == a else values(b)[0]
        for c in names:
            vc = "x2" if c in (a, b) else values(c)[0]
            want = dict(DEFAULTS); want.update(extra); want[a] = va; want[b] = vb; want[c] = vc
            o1 = ppoption(**{a: va})
            s1 = dict(o1)
            o2 = ppoption(o1, **{b: vb})
            s2 = dict(o2)
            o3 = ppoption(o2, **{c: vc})
            r.evals += 3
            r.transitions += 3
            if not (o3 == want and o1 == s1 and o2 == s2 and o1 is not o2 and o2 is not o3):
                r.bad(key + "%s,%s,%s" % (a, b, c), "overrides %s=%r, %s=%r, %s=%r: wrong %s" % (a, va, b, vb, c, vc, {k: o3.get(k) for k in set(want) | set(o3) if o3.get(k) != want.get(k)}))
                return
            if a != b and b != c and a != c and c > b:
                o = ppoption(**{a: va, b: vb, c: vc})
                o4 = ppoption(o1, **{c: vc, b: vb})
                o5 = ppoption(None, **{c: vc, a: va, b: vb})
                r.evals += 3
                if not (o == want and o4 == want and o5 == want):
                    r.bad(key + "together:%s,%s,%s" % (a, b, c), "given together the overrides differ from one after the other")
                    return
    e = ppoption(o3)
    r.expect(e == o3 and e is not o3, key + "copy", "ppoption(opt) is not an equal copy")
    e["VERBOSE"] = 77
    r.expect(ppoption() == base and o3["VERBOSE"] != 77, key + "shared", "changing a returned option dict changes others")
    r.validated += 1


def k_frame(r, item):
    """options that have nothing to do with the analysis leave the result bit-identical"""
    a = item["a"]
    fixed, rel = ANALYSES[a]
    p = net(item["net"])
    base = api.opts(**fixed)
    out = sys.stdout
    mark = out.tell()
    ref, ok = call(a, api.clone(p), api.clone(base))
    r.expect(out.tell() == mark, "silent:%s:%s" % (a, item["net"]), "output although VERBOSE=0 and OUT_ALL=0: %r" % out.getvalue()[mark:mark + 200])
    d0 = digest(ref)
    r.tag("ok" if ok else "fail")
    r.expect(ok or a in ("cpf",), "base:%s:%s" % (a, item["net"]), "analysis fails")
    again, _ = call(a, api.clone(p), api.clone(base))
    r.expect(digest(again) == d0, "repeat:%s:%s" % (a, item["net"]), "same call twice gives different results")
    for o in sorted(ALT):
        if o in rel:
            continue
        for v in ([1, 2, 3] if o == "VERBOSE" else [ALT[o], "garbage"] if o.startswith(("PF_", "CPF_", "PDIPM", "OPF_ALG", "SCPD")) and o != "PF_DC" and not (a == "cpf" and o == "PF_ALG") else [ALT[o]]):
            key = "frame:%s:%s:%s=%s" % (a, item["net"], o, v)
            oo = api.opts(**dict(fixed, **{o: v}))
            h = dict(oo)
            q = api.clone(p)
            mark = out.tell()
            r.evals += 1
            res, ok2 = call(a, q, oo)
            r.expect(oo == h, key + ":opt", "the caller's options were modified: %s" % {k: (h[k], oo.get(k)) for k in h if h[k] != oo.get(k)})
            r.expect(digest(res) == d0 and bool(ok2) == bool(ok), key, "an option that does not concern this analysis changes its result")
            said = out.tell() - mark
            if o == "VERBOSE":
                r.expect(said > 0 or (v == 1 and "uopf" in a), key, "no progress information printed")
            elif o == "OUT_ALL":
                r.expect(said > 200, key, "nothing printed")
            else:
                r.expect(said == 0, key, "%s=%r makes it print %r" % (o, v, out.getvalue()[mark:mark + 120]))
            r.validated += 1
    # options as keyword chain, in a dict, positional None
    r.sample = {"item": item, "relevant": rel}


def k_forms(r, item):
    """the option dict may be plain, and partial results do not leak between calls"""
    a = item["a"]
    fixed, rel = ANALYSES[a]
    p = net(item["net"])
    base = api.opts(**fixed)
    d = {}
    for o in sorted(rel):
        if o == "PF_DC" or o not in ALT:
            continue
        opt = api.opts(**dict(fixed, **{o: ALT[o]}))
        r.evals += 1
        try:
            res, ok = call(a, api.clone(p), opt)
        except Exception:
            r.tag("raised")
            continue
        d[o] = digest(res)
    # afterwards the default run must be what it was
    ref, ok = call(a, api.clone(p), base)
    again, _ = call(a, api.clone(p), api.opts(**fixed))
    r.expect(digest(ref) == digest(again), "forms:%s" % a, "runs with other options influence later runs")
    for o in {"pf1": ["PF_TOL", "PF_MAX_IT"], "pf4": ["PF_TOL", "PF_MAX_IT_GS"], "pf2": ["PF_MAX_IT_FD"], "pf3": ["PF_MAX_IT_FD"], "cpf": ["CPF_STEP", "CPF_PARAMETERIZATION"], "opf": ["PDIPM_MAX_IT"], "dcopf": ["PDIPM_MAX_IT"],
              "rundcopf": ["PDIPM_MAX_IT"]}.get(a, []):
        if o in d:
            r.expect(d[o] != digest(ref), "forms:%s:%s" % (a, o), "%s=%r has no effect on %s" % (o, ALT[o], a))
    r.validated += 1


# ------------------------------------------------------------------ iteration limits and tolerances of the power flow
def mismatches(p, bus):
    """largest nodal mismatch of the unknown equations (p.u.), plain and divided by |V|"""
    q = dict(p); q["bus"] = bus
    V = phys.volts(q)
    roles = phys.effective_types(p)
    inj, spec = phys.injections(q, V), phys.spec_injection(p)
    m = mv = 0.
    for b in inj:
        if roles[b] == "ref":
            continue
        s = (inj[b] - spec[b]) / p["baseMVA"]
        e = max(abs(s.real), abs(s.imag) if roles[b] == "pq" else 0.)
        m = max(m, e); mv = max(mv, max(abs((s / abs(V[b])).real), abs((s / abs(V[b])).imag) if roles[b] == "pq" else 0.))
    return m, mv


def k_limit(r, item):
    p = build_state(item["net"], item["edits"])
    if p is None:
        r.tag("no_such_edit"); return
    roles = phys.effective_types(p)
    if roles is None or not all(any(roles[b] == "ref" for b in c) for c in phys.components(p)) or not any(x == "pq" for x in roles.values()):
        r.tag("skipped"); return
    alg = item["alg"]
    if not phys.newton_reference(p, roles, maxit=9)[0]:
        r.tag("unsolvable"); return
    O = {1: "PF_MAX_IT", 2: "PF_MAX_IT_FD", 3: "PF_MAX_IT_FD", 4: "PF_MAX_IT_GS"}[alg]
    ks = {1: range(0, 8), 2: (0, 1, 2, 3, 5, 8, 12, 30), 3: (0, 1, 2, 3, 5, 8, 12, 30), 4: (0, 1, 2, 3, 10, 50, 300, 1000)}[alg]
    tols = (.3, 1e-2, 1e-5, 1e-8)
    key = "limit:%d:%s:%s" % (alg, item["net"], ";".join("_".join(map(str, e)) for e in item["edits"]))
    M, bus = {}, {}
    for k in ks:
        res, ok = api.pf(p, **{"PF_ALG": alg, "PF_TOL": 1e-300, O: k})
        r.evals += 1
        M[k] = mismatches(p, res["bus"]); bus[k] = res["bus"]
        r.expect(not ok, key + ":%d" % k, "success reported with an unreachable tolerance")
    ok = {}
    for t in tols:
        for k in ks:
            res, s = api.pf(p, **{"PF_ALG": alg, "PF_TOL": t, O: k})
            r.evals += 1
            ok[k, t] = bool(s)
            m, mv = mismatches(p, res["bus"])
            kk = key + ":tol=%g,max=%d" % (t, k)
            if s:
                r.expect(min(m, mv) < t * (1 + 1e-6) + 1e-12, kk, "success with mismatch %g for tolerance %g" % (m, t))
            else:
                r.expect(max(m, mv) >= t * (1 - 1e-6), kk, "failure although the mismatch %g is within tolerance %g" % (m, t))
                r.expect(np.allclose(res["bus"], bus[k], rtol=0, atol=1e-12), kk + ":iter", "a run stopped by the iteration limit depends on the tolerance")
            if alg == 1:
                # exact model: iterate j is accepted as soon as its mismatch is below the tolerance
                js = [j for j in ks if j <= k and M[j][0] < t]
                close = any(abs(M[j][0] - t) < 1e-6 * t for j in ks)
                if not close:
                    r.expect(bool(s) == bool(js), kk + ":model", "success=%s, enumerated iterates have mismatches %s" % (s, [M[j][0] for j in ks]))
                    if s and js:
                        r.expect(np.allclose(res["bus"][:, [VM, VA]], bus[js[0]][:, [VM, VA]], rtol=0, atol=1e-10), kk + ":model", "returned iterate is not the first acceptable one")
            r.transitions += 1
    for t in tols:
        l = [ok[k, t] for k in ks]
        r.expect(l == sorted(l), key + ":mono", "success is not monotone in the iteration limit: %s" % l)
    for k in ks:
        l = [ok[k, t] for t in tols]
        r.expect(l == sorted(l, reverse=True), key + ":mono", "success is not monotone in the tolerance: %s" % l)
    r.expect(alg in (2, 3) or ok[ks[-1], 1e-5], key + ":end", "no convergence with the full iteration budget")
    r.validated += 1
    r.tag("limits")
    r.sample = {"key": key, "mismatch": {str(k): M[k][0] for k in ks}}


def k_pdipm(r, item):
    p = net(item["net"])
    for e in item["edits"]:
        try:
            if sp_apply(p, e) is False:
                return
        except IndexError:
            return
    a = item["a"]
    fixed, _ = ANALYSES[a]
    key = "pdipm:%s:%s:%s" % (a, item["net"], ";".join("_".join(map(str, e)) for e in item["edits"]))
    ref, ok = call(a, api.clone(p), api.opts(**fixed))
    if not ok:
        r.tag("infeasible"); return
    n = int(ref["raw"]["output"]["iterations"])
    pb = canon(p)
    prev = False
    for k in list(range(1, n + 3)) + [n + 40]:
        res, s = call(a, api.clone(p), api.opts(**dict(fixed, PDIPM_MAX_IT=k)))
        r.evals += 1
        r.expect(bool(s) == (k >= n), key + ":max=%d" % k, "PDIPM_MAX_IT=%d: success=%s although %d iterations are needed" % (k, s, n))
        r.expect(int(res["raw"]["output"]["iterations"]) == min(k, n), key + ":max=%d" % k, "PDIPM_MAX_IT=%d: %s iterations" % (k, res["raw"]["output"]["iterations"]))
        if k >= n:
            r.expect(digest(res) == digest(ref), key + ":max=%d" % k, "an unused iteration budget changes the result")
    its = {}
    for o, c in (("PDIPM_FEASTOL", "feascond"), ("PDIPM_GRADTOL", "gradcond"), ("PDIPM_COMPTOL", "compcond"), ("PDIPM_COSTTOL", "costcond"), ("OPF_VIOLATION", "feascond")):
        for t in (1e-2, 1e-4, 1e-9):
            res, s = call(a, api.clone(p), api.opts(**dict(fixed, **{o: t})))
            r.evals += 1
            kk = key + ":%s=%g" % (o, t)
            h = res["raw"]["output"]["hist"]
            its[o, t] = len(h)
            if not s:
                r.tag("tight_fail")
                r.expect(t < 1e-6, kk, "fails with a looser tolerance")
                continue
            lim = dict(feascond=5e-6, gradcond=1e-6, compcond=1e-6, costcond=1e-6)
            lim[c] = t
            good = lambda x: all(abs(float(x[q])) < lim[q] for q in lim)
            r.expect(good(h[-1]), kk, "accepted with %s (wanted %s)" % ({q: float(h[-1][q]) for q in lim}, lim))
            r.expect(not any(good(x) for x in h[1:-1]), kk, "an earlier iterate already met the requested tolerances")
        r.expect(its[o, 1e-2] <= its[o, 1e-4] <= its[o, 1e-9] or its[o, 1e-9] > 100, key + ":" + o, "a tighter %s needs fewer iterations: %s" % (o, [its[o, t] for t in (1e-2, 1e-4, 1e-9)]))
    # an explicit feasibility tolerance takes precedence over the violation tolerance
    x, _ = call(a, api.clone(p), api.opts(**dict(fixed, PDIPM_FEASTOL=1e-3, OPF_VIOLATION=1e-8)))
    y, _ = call(a, api.clone(p), api.opts(**dict(fixed, PDIPM_FEASTOL=1e-3, OPF_VIOLATION=1e-3)))
    z, _ = call(a, api.clone(p), api.opts(**dict(fixed, PDIPM_FEASTOL=0, OPF_VIOLATION=1e-3)))
    r.evals += 3
    r.expect(digest(x) == digest(y) == digest(z), key + ":feastol", "PDIPM_FEASTOL=1e-3 and OPF_VIOLATION=1e-3 do not ask for the same")
    r.validated += 1
    r.tag("pdipm")


def k_wrap(r, item):
    from pypower import api as A
    from pypower.dcopf import dcopf
    from pypower.opf import opf
    from pypower.uopf import uopf
    p = build_state(item["net"], item["edits"])
    if p is None:
        r.tag("no_such_edit"); return
    key = "wrap:%s:%s" % (item["net"], ";".join("_".join(map(str, e)) for e in item["edits"]))

    def out(f):
        r.evals += 1
        try:
            x = f()
        except Exception as e:
            return ("raise", type(e).__name__)
        ok = x[1] if isinstance(x, tuple) else x["success"]
        x = x[0] if isinstance(x, tuple) else x
        return (bool(ok), digest(x))
    ac, dc = api.opts(), api.opts(PF_DC=True)
    C = lambda: api.clone(p)
    runs = {
        "rundcpf": [lambda: A.rundcpf(C(), api.clone(ac)), lambda: A.rundcpf(C(), api.clone(dc)), lambda: A.runpf(C(), api.clone(dc))],
        "rundcopf": [lambda: A.rundcopf(C(), api.clone(ac)), lambda: A.rundcopf(C(), api.clone(dc)), lambda: A.runopf(C(), api.clone(dc)), lambda: dcopf(C(), api.clone(ac)), lambda: opf(C(), api.clone(dc))],
        "runduopf": [lambda: A.runduopf(C(), api.clone(ac)), lambda: A.runduopf(C(), api.clone(dc)), lambda: A.runuopf(C(), api.clone(dc)), lambda: uopf(C(), api.clone(dc))],
        "runopf": [lambda: A.runopf(C(), api.clone(ac)), lambda: opf(C(), api.clone(ac))],
    }
    for w in sorted(runs):
        if w == "runopf" and item["edits"] and item["net"] == "b4":
            continue
        v = [out(f) for f in runs[w]]
        r.expect(all(x == v[0] for x in v), key + ":" + w, "%s and the explicit option disagree: %s" % (w, v))
        r.tag("%s_%s" % (w, v[0][0]))
    # defaults left out give the same answer as defaults spelled out
    a = out(lambda: A.runpf(C()))
    b = out(lambda: A.runpf(C(), A.ppoption()))
    c = out(lambda: A.runpf(C(), ac))
    r.expect(a == b == c, key + ":nooptions", "leaving the options out differs from giving the defaults")
    r.validated += 1


def k_raw(r, item):
    p = net(item["net"])
    a = api.opf(p)
    b = api.opf(p, RETURN_RAW_DER=1)
    r.evals += 2
    key = "raw:" + item["net"]
    r.expect(digest(a) == digest(b), key, "RETURN_RAW_DER changes the results")
    r.expect(not any(k in a["raw"] for k in ("g", "dg", "df", "d2f")), key, "derivatives returned although not asked for")
    if not r.expect(all(k in b["raw"] for k in ("g", "dg", "df", "d2f")), key, "derivatives asked for but not returned"):
        return
    x = np.asarray(b["x"], float)
    nb, ng = len(p["bus"]), len(p["gen"])
    order = [int(i) for i in p["bus"][:, 0]]
    base = p["baseMVA"]
    i2 = [int(i) for i in b["order"]["bus"]["i2e"]]
    gi = [int(i) for i in np.ravel(b["order"]["gen"]["e2i"])] if "gen" in b["order"] else range(ng)
    gorder = sorted(range(ng), key=lambda g: (i2.index(int(p["gen"][g, GEN_BUS])), g))      # units in internal order

    def G(x):
        V = {i2[k]: x[nb + k] * complex(math.cos(x[k]), math.sin(x[k])) for k in range(nb)}
        q = dict(p)
        inj = phys.injections(p, V)
        s = {bb: complex(inj[bb]) / base for bb in inj}
        for row in p["bus"]:
            s[int(row[0])] += complex(row[PD], row[QD]) / base
        for k, g in enumerate(gorder):
            s[int(p["gen"][g, GEN_BUS])] -= complex(x[2 * nb + k], x[2 * nb + ng + k])
        eq = [s[bb].real for bb in i2] + [s[bb].imag for bb in i2]
        hf, ht = [], []
        for row in p["branch"]:
            sf, st = phys.branch_flow(row, V, base)
            lim = (row[RATE_A] / base) ** 2 if row[RATE_A] else 1e10
            hf.append(abs(sf / base) ** 2 - lim); ht.append(abs(st / base) ** 2 - lim)
        return np.array(eq + hf + ht)

    def cost(x):
        f = 0.
        for k, g in enumerate(gorder):
            c = p["gencost"][g]
            f += np.polyval(c[4:4 + int(c[3])], x[2 * nb + k] * base)
        return f
    g = np.ravel(b["raw"]["g"])
    w = G(x)
    r.expect(g.shape == w.shape and np.allclose(g, w, atol=1e-6, rtol=1e-6), key + ":g", "constraint values %s, circuit laws give %s" % (g, w))
    J = np.zeros((len(w), len(x))); df = np.zeros(len(x)); H = np.zeros((len(x), len(x)))
    h = 1e-6
    for k in range(len(x)):
        e = np.zeros(len(x)); e[k] = h
        J[:, k] = (G(x + e) - G(x - e)) / (2 * h)
        df[k] = (cost(x + e) - cost(x - e)) / (2 * h)
        e *= 100
        H[k, k] = (cost(x + e) - 2 * cost(x) + cost(x - e)) / (100 * h) ** 2
    D = b["raw"]["dg"]
    D = np.asarray(D.toarray() if hasattr(D, "toarray") else D, float) if getattr(D, "dtype", None) != object else None
    r.expect(D is not None and D.shape == J.shape and np.allclose(D, J, atol=1e-4, rtol=1e-4), key + ":dg", lambda: "constraint Jacobian %s" % (None if D is None else (D - J).tolist() if D.shape == J.shape else D.shape))
    r.expect(np.allclose(np.ravel(b["raw"]["df"]), df, atol=1e-2, rtol=1e-5), key + ":df", "cost gradient %s, expected %s" % (np.ravel(b["raw"]["df"]), df))
    d2 = b["raw"]["d2f"]
    d2 = d2.toarray() if hasattr(d2, "toarray") else np.asarray(d2)
    r.expect(d2.shape == H.shape and np.allclose(d2, H, atol=5., rtol=1e-3), key + ":d2f", "cost Hessian differs")
    r.validated += 1


def k_badalg(r, item):
    p = net(item["net"])
    for nm, f, o in (("runpf", api.pf, dict(PF_ALG=9)), ("runpf", api.pf, dict(PF_ALG=0)), ("runpf", api.pf, dict(PF_ALG=-1)), ("runopf", api.opf, dict(OPF_ALG=999)), ("runopf", api.opf, dict(OPF_ALG=1)),
                     ("runopf", api.opf, dict(OPF_ALG=580)), ("rundcopf", api.dcopf, dict(OPF_ALG_DC=123)), ("rundcopf", api.dcopf, dict(OPF_ALG_DC=700)), ("rundcopf", api.dcopf, dict(OPF_ALG_DC=600)), ("rundcopf", api.dcopf, dict(OPF_ALG_DC=500)),
                     ("rundcopf", api.dcopf, dict(OPF_ALG_DC=400))):
        key = "badalg:%s:%s:%s" % (nm, item["net"], o)
        r.evals += 1
        try:
            x = f(p, **o)
        except (UnboundLocalError, NameError, TypeError, AttributeError, KeyError, IndexError) as e:
            r.bad(key, "an unavailable algorithm fails with an internal error: %r" % e)
        except Exception as e:
            r.tag("rejected")
            r.expect(str(e).strip() != "", key, "an unavailable algorithm is rejected without a message")
        else:
            ok = x[1] if isinstance(x, tuple) else x["success"]
            r.expect(not ok, key, "success reported with an algorithm that does not exist")
    r.validated += 1


def k_linsolver(r, item):
    p = net(item["net"])
    for o in ({}, dict(ENFORCE_Q_LIMS=True)):
        a, oka = api.pf(p, **o)
        b, okb = api.pf(p, PF_LIN_SOLVER_NR="pyrlu", **o)
        r.evals += 2
        r.expect(bool(oka) == bool(okb) and np.allclose(a["bus"], b["bus"], atol=1e-7) and np.allclose(a["gen"], b["gen"], atol=1e-4) and np.allclose(a["branch"], b["branch"], atol=1e-4), "linsolver:%s:%s" % (item["net"], o), "the linear solver changes the solution")
    r.validated += 1


def k_defcase(r, item):
    from pypower import api as A
    from pypower.runcpf import runcpf
    c = A.case9()
    o = api.opts()
    for nm, f in (("runpf", A.runpf), ("rundcpf", A.rundcpf), ("runopf", A.runopf), ("rundcopf", A.rundcopf), ("runuopf", A.runuopf), ("runduopf", A.runduopf)):
        a = f(None, api.clone(o)); b = f(A.case9(), api.clone(o)); d = f(ppopt=api.clone(o))
        r.evals += 3
        g = lambda x: digest(x[0] if isinstance(x, tuple) else x)
        r.expect(g(a) == g(b) == g(d), "defcase:" + nm, "without a case, %s does not analyse case9" % nm)
    a = runcpf(ppopt=api.clone(o)); b = runcpf(A.case9(), A.case9target(), api.clone(o))
    r.expect(digest(a[0]) == digest(b[0]), "defcase:runcpf", "without cases, runcpf does not go from case9 to case9target")
    r.validated += 1
