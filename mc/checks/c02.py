"""C02: power flow solvers tell the truth about convergence."""
import numpy as np
from scipy.sparse import csr_matrix
from mc.core import Result, canon
from mc.space import *
from mc import phys, api

PROP = "C02"
LEVEL = "model_checking"
RULE = ("states: (case, load level, algorithm, tolerance, iteration limit); for each the real solver runs and its flag, "
        "iteration count and voltages are compared with the mismatch recomputed from the circuit equations and with a "
        "reference Newton iteration. Non-trivial: at least one iteration was performed or the limit was zero")
ASSUMPTIONS = ["voltages are compared to 1e-6; mismatches within 1e-6 relative of the tolerance are not judged"]
SCALES = [0.0, 0.5, 1.0, 3.0, 6.0, 9.0, 14.0, 60.0]


def alphabet(p):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    A = []
    for k in range(nl):
        A += [("br_off", k), ("br_tap", k, .96), ("br_shift", k, 8.), ("br_rev", k), ("br_par", k), ("br_b", k, .2)]
    for k in range(nb):
        A += [("bus_type", k, t) for t in (1, 2, 3)] + [("bus_v", k, 1.03, -5.), ("bus_v", k, .6, 40.), ("bus_load", k, 40., -10.), ("bus_shunt", k, 2., 10.)]
    for k in range(ng):
        A += [("gen_off", k), ("gen_vset", k, 1.05)] + [("gen_move", k, b) for b in range(nb)]
    return A


def build(tier):
    st, n = explore(alphabet, 2 if tier == "quick" else 3, bases=("b2", "b3", "b4"))
    items = []
    for b, h in st:
        sc = SCALES if len(h) <= 1 else [1.0, 6.0, 9.0]
        if len(h) >= 3:
            sc = [1.0]
        items.append({"base": b, "edits": tolist(h), "scales": sc})
    return items, {"transitions": n}


def internal(p):
    """consecutive arrays built independently of the code under test"""
    order = [int(x) for x in p["bus"][:, BUS_I]]
    roles = phys.effective_types(p)
    if roles is None or len(roles) != len(order):
        return None
    Y = phys.ybus_dense(p, order)
    spec = phys.spec_injection(p)
    S = np.array([spec[b] for b in order]) / p["baseMVA"]
    V0 = np.array([phys.volts(p)[b] for b in order])
    for i in phys.live_gens(p):
        b = int(p["gen"][i, GEN_BUS])
        if roles[b] != "pq":
            k = order.index(b)
            V0[k] = p["gen"][i, VG] * V0[k] / abs(V0[k])
    idx = lambda w: np.array([i for i, b in enumerate(order) if roles[b] == w], dtype=int)
    ref, pv, pq = idx("ref"), idx("pv"), idx("pq")
    return order, roles, Y, S, V0, ref, pv, pq


def B_ref(p, order, alg):
    """B' and B'' from their documented definition"""
    q = api.clone(p)
    q["bus"][:, BS] = 0; q["branch"][:, BR_B] = 0; q["branch"][:, TAP] = 1
    if alg == 2:
        q["branch"][:, BR_R] = 0
    Bp = -phys.ybus_dense(q, order).imag
    q = api.clone(p)
    q["branch"][:, SHIFT] = 0
    if alg == 3:
        q["branch"][:, BR_R] = 0
    return Bp, -phys.ybus_dense(q, order).imag


def norm_mis(Y, S, V, pv, pq, alg):
    mis = V * np.conj(Y.dot(V)) - S
    if alg in (2, 3):
        mis = mis / abs(V)
    F = np.r_[mis[pv].real, mis[pq].real, mis[pq].imag]
    return np.max(np.abs(F)) if len(F) else 0.


def solve(alg, Y, S, V0, ref, pv, pq, p, order, **kw):
    from pypower.newtonpf import newtonpf
    from pypower.fdpf import fdpf
    from pypower.gausspf import gausspf
    o = api.opts(**kw)
    Ys = csr_matrix(Y)
    if alg == 1:
        return newtonpf(Ys, S, V0, ref, pv, pq, o)
    if alg == 4:
        return gausspf(Ys, S, V0, ref, pv, pq, o)
    Bp, Bpp = B_ref(p, order, alg)
    return fdpf(Ys, S, V0, csr_matrix(Bp), csr_matrix(Bpp), ref, pv, pq, o)


def run(item):
    r = Result()
    for sc in item["scales"]:
        p = build_state(item["base"], item["edits"])
        p["bus"][:, [PD, QD]] *= sc
        p["gen"][:, PG] *= min(sc, 2.)
        I = internal(p)
        if I is None:
            r.tag("no_reference_possible"); continue
        order, roles, Y, S, V0, ref, pv, pq = I
        connected = all(any(roles[b] == "ref" for b in c) for c in phys.components(p))
        key0 = "%s:%s:x%g" % (item["base"], ";".join("_".join(map(str, e)) for e in item["edits"]), sc)
        r.states.add(canon([p, sc]))
        rok, rV, rit = phys.newton_reference(p, roles, tol=1e-9, maxit=15)
        rok = rok and connected
        light = (sc <= 1.0 and len(item["edits"]) <= 1 and rok and
                 not any(e[0] == "bus_v" and e[2] < .9 for e in item["edits"]))
        for alg, itname, maxdef in ((1, "PF_MAX_IT", 10), (2, "PF_MAX_IT_FD", 30), (3, "PF_MAX_IT_FD", 30), (4, "PF_MAX_IT_GS", 1000)):
            key = "alg%d:%s" % (alg, key0)
            runs = {}
            cap4 = 1000 if (light or sc == 1.0 and len(item["edits"]) <= 1) else 60
            plans = [(1e-8, maxdef if alg != 4 else cap4)]
            if len(item["edits"]) <= 1 or alg == 1:
                plans += [(1e-3, maxdef if alg != 4 else cap4), (1e-8, 0), (1e-8, 1), (1e-8, 2)]
            if len(item["edits"]) >= 2 and alg == 1:
                plans += [(1e-8, 3)]
            if len(item["edits"]) >= 2 and alg == 4:
                plans = [(1e-6, 25)]
            conv_at = None
            done = set()
            while plans:
                tol, mit = plans.pop(0)
                if (tol, mit) in done:
                    continue
                done.add((tol, mit))
                Sx, Vx = S.copy(), V0.copy()
                r.evals += 1
                try:
                    V, conv, it = solve(alg, Y, Sx, Vx, ref, pv, pq, p, order, PF_TOL=tol, **{itname: mit})
                except (RuntimeError, ZeroDivisionError) as ex:
                    if not connected or not rok:
                        r.tag("raised_unsolvable"); continue
                    if alg in (2, 3):
                        Bp, Bpp = B_ref(p, order, alg)
                        pvpq = np.r_[pv, pq]
                        sing = (np.linalg.cond(Bp[np.ix_(pvpq, pvpq)]) > 1e10 or
                                (len(pq) and np.linalg.cond(Bpp[np.ix_(pq, pq)]) > 1e10))
                        if sing:
                            r.tag("raised_singular_B"); continue
                    raise
                r.transitions += int(it)
                k = key + ":tol%g:max%d" % (tol, mit)
                r.expect(np.array_equal(Sx, S) and np.array_equal(Vx, V0), k + ":mutates", "solver modified its input vectors")
                r.expect(0 <= it <= mit, k + ":cap", "performed %r iterations with limit %d" % (it, mit))
                V = np.asarray(V)
                n = norm_mis(Y, S, V, pv, pq, alg) if np.all(np.isfinite(V)) else np.inf
                if conv:
                    r.expect(n < tol * (1 + 1e-6) + 1e-13, k + ":falseconv", "reports convergence with mismatch %g (tolerance %g)" % (n, tol))
                    r.tag("alg%d_converged" % alg)
                else:
                    r.expect(not (n < tol * (1 - 1e-6) - 1e-13), k + ":falsefail", "reports failure with mismatch %g (tolerance %g)" % (n, tol))
                    r.expect(it == mit or not np.all(np.isfinite(V)), k + ":early", "gave up after %d of %d iterations" % (it, mit))
                    r.tag("alg%d_failed" % alg)
                if np.all(np.isfinite(V)):
                    r.expect(np.max(np.abs(V[ref] - V0[ref])) < 1e-12, k + ":ref", "reference voltage moved")
                    if len(pv):
                        r.expect(np.max(np.abs(np.abs(V[pv]) - np.abs(V0[pv]))) < 1e-10, k + ":pvmag", "regulated magnitude moved")
                if tol == 1e-8 and mit in (maxdef, cap4):
                    if alg == 1 and rok and rit <= 6:
                        if r.expect(bool(conv), k + ":nosolve", "reference Newton converges in %d iterations, solver failed" % rit):
                            e = max(abs(V[i] - rV[b]) for i, b in enumerate(order))
                            r.expect(e < 1e-6, k + ":other", "differs from the reference Newton solution by %g" % e)
                            r.expect(it <= rit + 1, k + ":slow", "took %d iterations, Newton needs %d" % (it, rit))
                            r.validated += 1
                    if alg != 1 and light:
                        if r.expect(bool(conv), k + ":nosolve", "lightly loaded case not solved"):
                            e = max(abs(V[i] - rV[b]) for i, b in enumerate(order))
                            r.expect(e < 1e-5, k + ":other", "differs from the Newton solution by %g" % e)
                            r.validated += 1
                    if conv and it > 0:
                        conv_at = it
                        # the iteration limit decides: exactly enough converges, one less does not
                        plans.append((tol, int(it)))
                        plans.append((tol, int(it) - 1))
                if tol == 1e-8 and conv_at is not None and mit not in (maxdef, cap4):
                    r.expect(bool(conv) == (mit >= conv_at), k + ":limit", "limit %d, converges at %d, flag %r" % (mit, conv_at, conv))
            if r.sample is None and conv_at:
                r.sample = {"case": key0, "alg": alg, "converges_at": int(conv_at)}
        # runpf must pass the truth on
        if len(item["edits"]) <= 1:
            for alg in (1, 2, 3, 4):
                if alg == 4 and not light:
                    continue
                r.evals += 1
                try:
                    res, ok = api.pf(p, PF_ALG=alg)
                except (RuntimeError, ZeroDivisionError):
                    if connected and rok:
                        raise
                    r.tag("runpf_raised_unsolvable"); continue
                q = dict(p); q["bus"], q["gen"], q["branch"] = res["bus"], res["gen"], res["branch"]
                Vd = phys.volts(q)
                V = np.array([Vd[b] for b in order])
                n = norm_mis(Y, S, V, pv, pq, 1) if np.all(np.isfinite(V)) else np.inf
                r.expect(bool(ok) == bool(res["success"]), "runpf:alg%d:%s:flags" % (alg, key0), "flag and success field differ")
                if ok:
                    r.expect(n < 2e-8, "runpf:alg%d:%s:falsesuccess" % (alg, key0), "success reported with mismatch %g" % n)
                else:
                    r.expect(not n < 1e-10, "runpf:alg%d:%s:falsefail" % (alg, key0), "failure reported with mismatch %g" % n)
                    if alg == 1 and rok and rit <= 6:
                        r.bad("runpf:alg%d:%s:nosolve" % (alg, key0), "solvable case reported as failure")
                for tgt, val in (("PF_MAX_IT", 1), ("PF_TOL", 1e-1)):
                    if alg == 1 and (V0 is not None):
                        res2, ok2 = api.pf(p, PF_ALG=1, **{tgt: val})
                        q["bus"] = res2["bus"]
                        Vd = phys.volts(q)
                        V = np.array([Vd[b] for b in order])
                        n = norm_mis(Y, S, V, pv, pq, 1) if np.all(np.isfinite(V)) else np.inf
                        lim = 1e-1 if tgt == "PF_TOL" else 1e-8
                        r.expect(bool(ok2) == bool(n < lim), "runpf:%s:%s" % (tgt, key0), "success=%r with mismatch %g" % (ok2, n))
    return r
