"""C27: continuation power flow traces genuine solutions and stops where told."""
import itertools, math
import numpy as np
from mc.core import Result, canon
from mc.space import *
from mc import phys, api
from mc.checks import c01

PROP = "C27"
LEVEL = "model_checking"
RULE = ("states: (network reached by at most `depth` edits, transfer direction); in each, the real continuation power flow is run under every listed combination "
        "of parameterization x step size x step adaptation x stopping rule and every reported point is checked against the circuit equations and the "
        "continuation rules, and the whole trace against an independently followed solution curve. Non-trivial: the base case is solvable")
ASSUMPTIONS = ["base and target differ only in demands and scheduled outputs (same topology, unit status and numbering)",
               "natural parameterization may fail within two steps of the nose; a full trace of the lower part of the curve may fail where the lower solution collapses to zero voltage"]
TOL = 1e-8

DIRS = {                       # per network: additions to PD, QD (by row) and PG (by unit row)
    "b2": {"p": ({1: (260., 0.)}, {}), "pq": ({1: (200., 120.)}, {}), "q": ({1: (0., 200.)}, {}), "both": ({0: (50., 20.), 1: (300., 50.)}, {}), "neg": ({1: (-150., -20.)}, {}), "slack": ({0: (50., 20.)}, {})},
    "b3": {"p": ({2: (700., 0.)}, {}), "pq": ({2: (500., 250.), 1: (100., 30.)}, {1: 150.}), "gen": ({}, {1: 600.}), "q": ({2: (0., 450.)}, {0: 30.}), "slack": ({0: (40., 9.), 1: (0., 30.)}, {0: 20.})},
    "b4": {"p": ({0: (900., 100.), 3: (100., 0.)}, {1: 300.}), "rad": ({3: (500., 0.)}, {}), "pq": ({0: (300., 200.), 2: (50., 10.), 3: (300., 160.)}, {0: 100., 2: 50.}), "slack": ({2: (30., 5.)}, {0: 100., 2: 50.})},
}
E1 = {"b2": [("br_shift", 0, 8.), ("br_tap", 0, .95), ("br_par", 0), ("br_rev", 0), ("bus_shunt", 1, 3., 20.), ("bus_load", 1, 0., 0.), ("renum", "odd"), ("renum", "zero"), ("bus_first", 1), ("base", 50.), ("gen_dup", 0)],
      "b3": [("br_off", 0), ("br_off", 2), ("br_shift", 0, 5.), ("gen_off", 1), ("bus_type", 1, 1), ("bus_first", 2), ("renum", "rev"), ("renum", "zero"), ("base", 10.), ("gen_dup", 1), ("disp", 2), ("br_rev", 2), ("bus_type", 2, 4)],
      "b4": [("br_off", 0), ("br_off", 3), ("gen_off", 0), ("gen_off", 1), ("gen_last", 0), ("bus_type", 1, 1), ("bus_first", 3), ("bus_type", 3, 4), ("renum", "odd"), ("bus_shunt", 0, 0., 15.), ("br_first", 2), ("base", 1000.)]}


def combos(tier, main):
    C = []
    for par in (3, 2, 1):
        for stop in ("NOSE", "FULL", .013, .3, .77, 4.):
            for step in (.01, .05, .1, .2):
                for ad in (None, 1e-3, 1e-2):
                    C.append(dict(CPF_PARAMETERIZATION=par, CPF_STOP_AT=stop, CPF_STEP=step, CPF_ADAPT_STEP=ad is not None, CPF_ERROR_TOL=ad or 1e-3))
    X = [dict(CPF_PARAMETERIZATION=3, CPF_STOP_AT=s, CPF_STEP=st, CPF_ADAPT_STEP=True, CPF_ERROR_TOL=et, CPF_STEP_MIN=mn, CPF_STEP_MAX=mx)
         for s in ("NOSE", "FULL", "nose", .5) for st in (.02, .1) for et in (1e-4, 1e-1) for mn, mx in ((1e-4, .08), (.03, .3))]
    Y = [dict(CPF_STOP_AT=s) for s in (0., .05, 1., "full")]
    k = lambda c: (c["CPF_PARAMETERIZATION"], c["CPF_STOP_AT"], c["CPF_STEP"], c["CPF_ERROR_TOL"] if c["CPF_ADAPT_STEP"] else None)
    if main and tier != "quick":
        return C + X + Y
    if main:
        return [c for c in C if c["CPF_STEP"] == .05 and k(c)[3] in (None, 1e-3) or c["CPF_STEP"] == .2 and k(c)[3] in (None, 1e-2) and k(c)[1] in ("FULL", .3)] + [x for x in X if x["CPF_STEP"] == .1 and x["CPF_STOP_AT"] != "nose"] + Y
    if tier == "quick":
        want = [(3, "NOSE", .1, None), (3, .77, .1, 1e-2), (3, "FULL", .1, 1e-2), (2, "NOSE", .1, 1e-3), (1, .3, .05, None), (2, .3, .05, 1e-3)]
        return [c for c in C if k(c) in want]
    return [c for c in C if c["CPF_STEP"] in (.05, .2)]


def build(tier):
    items, nt = [], 0
    for base in sorted(DIRS):
        seqs = [()] + [(e,) for e in E1[base]]
        if tier != "quick":
            seqs += [s for s in itertools.combinations(E1[base], 2)]
        for s in seqs:
            nt += 1
            for d in [d for d in sorted(DIRS[base]) if tier != "quick" or not s or d in ("pq", "p", "gen", "slack")] + ["zero"]:
                cs = combos(tier, not s)
                if d in ("zero", "slack"):
                    cs = cs[::6]
                n = 8
                for i in range(0, len(cs), n):
                    items.append({"base": base, "edits": tolist(s), "dir": d, "opts": cs[i:i + n], "stride": 5 if tier == "quick" else 1})
    return items, {"transitions": nt}


def make(item):
    p = BASES[item["base"]]()
    n = dict((int(b), i) for i, b in enumerate(p["bus"][:, 0]))
    dl, dg = DIRS[item["base"]].get(item["dir"], ({}, {}))
    t = api.clone(p)
    for i, (a, b) in dl.items():
        t["bus"][i, PD] += a; t["bus"][i, QD] += b
    for i, a in dg.items():
        t["gen"][i, PG] += a
    for e in item["edits"]:
        for q in (p, t):
            if apply(q, e) is False:
                return None
        if e[0] == "bus_load":
            t["bus"][int(e[1]), [PD, QD]] = p["bus"][int(e[1]), [PD, QD]] + dl.get(int(e[1]), (0, 0))
    return p, t


def at(p, t, lam):
    q = api.clone(p)
    for c in (PD, QD):
        q["bus"][:, c] = p["bus"][:, c] + lam * (t["bus"][:, c] - p["bus"][:, c])
    q["gen"][:, PG] = p["gen"][:, PG] + lam * (t["gen"][:, PG] - p["gen"][:, PG])
    return q


def solve(p, t, roles, lam, V):
    q = at(p, t, lam)
    if V is not None:
        for r_ in q["bus"]:
            b = int(r_[0])
            if b in V:
                r_[VM], r_[VA] = abs(V[b]), math.degrees(math.atan2(V[b].imag, V[b].real))
    ok, W, _ = phys.newton_reference(q, roles, maxit=10, condmax=1e7)
    return W if ok else None


def curve(p, t, roles, top=4.2):
    """upper solution curve by natural continuation -> (list of (lam, V)), last lam reached"""
    V = solve(p, t, roles, 0., None)
    if V is None:
        return None
    pts, h = [(0., V)], .1
    while pts[-1][0] < top and h > 2e-4:
        W = solve(p, t, roles, pts[-1][0] + h, pts[-1][1])
        if W is None or max(abs(W[b] - pts[-1][1][b]) for b in W) > .12:
            h /= 2
        else:
            pts.append((pts[-1][0] + h, W))
    return pts


TRACE = []


def recorder(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args, results=None, is_final=False):
    TRACE.append((int(k), np.array(V_c), float(np.ravel(lam_c)[0]), np.array(V_p), float(np.ravel(lam_p)[0]), bool(is_final), cb_args))
    if is_final:
        results = dict(results or {}); results["seen"] = len(TRACE)
    else:
        cb_state = dict(cb_state); cb_state["mine"] = cb_state.get("mine", 0) + 1
    return cb_state, results


def run(item):
    import pypower.cpf_callbacks as cbs
    from pypower.runcpf import runcpf
    r = Result()
    m = make(item)
    if m is None:
        r.tag("not_enabled"); return r
    p, t = m
    roles = phys.effective_types(p)
    if roles is None or not all(sum(roles[b] == "ref" for b in c) == 1 for c in phys.components(p)):
        r.tag("reference_assumption"); return r
    r.states.add(canon([p, t]))
    ref = curve(p, t, roles)
    if ref is None:
        r.tag("base_unsolvable"); return r
    nose = ref[-1][0] if ref[-1][0] < 4.2 else None
    key0 = "%s:%s:%s" % (item["base"], ";".join("_".join(map(str, e)) for e in item["edits"]), item["dir"])
    cbs.mc_recorder = recorder
    order = [int(b) for b in p["bus"][:, 0]]
    live = [i for i, b in enumerate(order) if b in roles]
    ia = [i for i in live if roles[order[i]] != "ref"]
    im = [i for i in live if roles[order[i]] == "pq"]
    Y = phys.ybus_dense(p, [order[i] for i in live])
    S0, S1 = phys.spec_injection(p), phys.spec_injection(t)
    S0 = np.array([S0[order[i]] for i in live]) / p["baseMVA"]; S1 = np.array([S1[order[i]] for i in live]) / p["baseMVA"]
    D = S1 - S0
    ra = [k for k, i in enumerate(live) if i in ia]; rm = [k for k, i in enumerate(live) if i in im]

    sel = [k for k, i in enumerate(ia) if i in im] + list(range(len(ia), len(ia) + len(im) + 1))     # error norms that leave out angles of regulated buses are accepted too

    def mism(V, lam):
        v = V[live]
        s = v * (Y @ v).conj() - S0 - lam * D
        return np.r_[s.real[ra], s.imag[rm]]

    def dead(q):            # isolated buses are reported as given in the target
        for i in range(len(order)):
            if i not in live:
                q["bus"][i] = t["bus"][i]

    def vec(V, lam):
        return np.r_[np.angle(V[ia]), np.abs(V[im]), lam]

    def unvec(x, V):
        v = V.copy()
        a, mgn = np.angle(V), np.abs(V)
        a[ia] = x[:len(ia)]; mgn[im] = x[len(ia):-1]
        return mgn * np.exp(1j * a), x[-1]

    stride = item.get("stride", 1)
    for o in item["opts"]:
        key = key0 + ":" + ",".join("%s=%s" % (k[4:], o[k]) for k in sorted(o))
        E = lambda c, k, msg: r.expect(c, key + ":" + k, msg)
        del TRACE[:]
        a, b = api.clone(p), api.clone(t)
        r.evals += 1
        res, ok = runcpf(a, b, api.opts(CPF_USER_CALLBACK="mc_recorder", CPF_USER_CALLBACK_ARGS={"tok": 7}, PF_TOL=TOL, **o))
        tr = list(TRACE)
        E(canon(a) == canon(p) and canon(b) == canon(t), "inputs", "the given cases were modified")
        stop, par, step = o["CPF_STOP_AT"], o.get("CPF_PARAMETERIZATION", 3), o.get("CPF_STEP", .05)
        ad, mn, mx = o.get("CPF_ADAPT_STEP", False), o.get("CPF_STEP_MIN", 1e-4), o.get("CPF_STEP_MAX", .2)
        numeric = not isinstance(stop, str)
        big = max(step, mx if ad else 0)
        none = np.abs(np.r_[D.real[ra], D.imag[rm]]).max() == 0      # nothing the power flow equations depend on is transferred
        if item["dir"] == "zero" or none and (np.abs(D).max() == 0 or not numeric):
            if E(ok == 1, "zero", "identical cases reported as failure"):
                c = res["cpf"]
                E(np.size(c["lam_c"]) == 1 and np.ravel(c["lam_c"])[0] == 0 and c["iterations"] == 0 and np.shape(c["V_c"]) == (len(order), 1), "zero", "identical cases: trace %s" % (np.ravel(c["lam_c"]),))
                for i in live:
                    E(abs(c["V_c"][i, 0] - ref[0][1][order[i]]) < 1e-6, "zero", "identical cases: base solution not reported")
                q = at(p, t, 0.)
                dead(q)
                c01.judge(r, key, q, res, ok, TOL)
            r.tag("zero_transfer"); r.validated += 1
            continue
        if none:
            E(ok == 1 and abs(np.ravel(res["cpf"]["lam_c"])[-1] - stop) < 1e-6, "slack", "lambda=%g not reached although the transfer has no effect" % stop)
            r.tag("slack_only"); continue
        if not ok:
            # legitimate only next to the nose (natural) or on the lower part of the curve
            r.tag("failed")
            ls = [x[2] for x in tr]
            if nose is None:
                E(max(ls) > 4.2, "fail", "failure although the curve goes past lambda 4.2 (last %g)" % ls[-1])
            elif numeric and stop < nose - 2 * big:
                E(False, "fail", "lambda=%g is reachable (nose %.4f) but failure was reported after %s" % (stop, nose, ls[-2:]))
            elif par == 1:
                E(max(ls) > nose - 2.1 * big - .02, "fail", "failure at lambda %g long before the nose %.4f" % (max(ls), nose))
            elif not numeric and stop.upper() == "NOSE" and (not ad and step <= .05 or ad and o["CPF_ERROR_TOL"] < .05):
                E(False, "fail", "nose %.4f not passed: %s" % (nose, ls[-3:]))
            else:
                r.tag("full_failed" if not numeric else "num_failed")
                E(max(ls) > nose - 2.1 * big - .02, "fail", "failure at lambda %g long before the nose %.4f" % (max(ls), nose))
            E([x[0] for x in tr] == list(range(len(tr))) and not any(x[5] for x in tr), "callbacks", "user callback saw %s" % [x[0] for x in tr])
            continue
        r.validated += 1
        c = res["cpf"]
        lam, lp = np.ravel(c["lam_c"]).astype(float), np.ravel(c["lam_p"]).astype(float)
        Vc, Vp = np.asarray(c["V_c"]), np.asarray(c["V_p"])
        n = len(lam)
        if not E(len(lp) == n and Vc.shape == (len(order), n) and Vp.shape == Vc.shape and c["iterations"] == n - 1 and n >= 2, "shape", "lam %s V %s iterations %s" % (lam.shape, Vc.shape, c["iterations"])):
            continue
        for i in range(len(order)):
            E(np.isfinite(Vc[i]).all() if i in live else np.isnan(Vc[i]).all(), "rows", "bus %d voltages %s" % (order[i], Vc[i][:3]))
        if r.violations:
            return r
        # genuine solutions
        for k in range(n):
            e = np.abs(mism(Vc[:, k], lam[k])).max()
            E(e < 10 * TOL, "solution", "point %d (lambda %.6f) misses the power flow equations by %g" % (k, lam[k], e))
            dv = max(abs(Vc[i, k] - Vc[i, 0]) if roles[order[i]] == "ref" else abs(abs(Vc[i, k]) - abs(Vc[i, 0])) if roles[order[i]] == "pv" else 0 for i in live)
            E(dv < 1e-9, "held", "regulated voltage moved by %g at point %d" % (dv, k))
        E(lam[0] == 0 and max(abs(Vc[i, 0] - ref[0][1][order[i]]) for i in live) < 1e-6, "start", "the trace does not start at the base solution")
        top = int(np.argmax(lam))
        E(abs(c["max_lam"] - lam.max()) < 1e-12, "maxlam", "max_lam %r, trace %r" % (c["max_lam"], lam.max()))
        # upper part of the curve
        for k in sorted(set(range(1, top + 1, stride)) | {top - 1, top}):
            near = [x for x in ref if x[0] <= lam[k]][-1]
            if lam[k] < (ref[-1][0] if nose is None else nose - .05):
                W = solve(p, t, roles, lam[k], near[1])
                if W is not None:
                    e = max(abs(W[order[i]] - Vc[i, k]) for i in live)
                    E(e < 1e-4, "branch", "point %d (lambda %.4f) is not on the curve through the base solution (differs by %g)" % (k, lam[k], e))
        if nose is not None:
            E(lam.max() < nose + 2e-3, "beyond", "lambda %.5f beyond the nose %.5f" % (lam.max(), nose))
        # where it stopped
        mono = (np.diff(lam[:-1]) > -1e-12).all() if n > 2 else True
        if numeric:
            if lam[-1] < lam[-2] - 1e-12:
                E(nose is not None and stop > nose - 1e-3 and lam.max() > nose - 1.05 * big, "stop", "stopped at %g before reaching %g (nose %s)" % (lam[-1], stop, nose))
                r.tag("nose_first")
            else:
                E(abs(lam[-1] - stop) < 1e-8 and mono and (lam[:-1] <= stop + 1e-12).all(), "stop", "asked to stop at %g: trace ends %s" % (stop, lam[-3:]))
                r.tag("target")
        elif stop.upper() == "NOSE":
            E(lam[-1] < lam[-2] and mono, "stop", "asked to stop at the nose: trace ends %s" % lam[-3:])
            if nose is not None:
                E(lam.max() > nose - 1.05 * big, "stop", "nose reported at %.4f, reachable %.4f" % (lam.max(), nose))
            r.tag("nose")
        else:
            E(abs(lam[-1]) < 1e-8 and n > 2 and (np.diff(lam[:top + 1]) > 0).all() and (lam[1:-1] > 0).all(), "stop", "asked for the full curve: trace ends %s" % lam[-3:])
            if nose is not None:
                E(lam.max() > nose - 1.05 * big, "stop", "nose passed at %.4f, reachable %.4f" % (lam.max(), nose))
            E(max(abs(Vc[i, -1] - Vc[i, 0]) for i in live) > 1e-3, "stop", "full trace returned along the upper curve")
            r.tag("full")
        # continuous progress with the requested spacing
        prev = None
        for k in range(1, n):
            x0, xc, xp = vec(Vc[:, k - 1], lam[k - 1]), vec(Vc[:, k], lam[k]), vec(Vp[:, k], lp[k])
            s = np.linalg.norm(xp - x0)
            clamped = k == n - 1 and (numeric or stop.upper() == "FULL") and abs(lam[-1] - (stop if numeric else 0)) < 1e-8
            if clamped:
                E(abs(lam[k] - lam[k - 1]) <= big * 1.0001 + 1e-9, "last", "last step moves lambda by %g" % abs(lam[k] - lam[k - 1]))
                if s < 1e-7:
                    continue
            else:
                if not ad:
                    E(abs(s - step) < 1e-9, "step", "predictor %d moves by %g, step size %g" % (k, s, step))
                elif prev is None:
                    E(abs(s - step) < 1e-9, "step", "first predictor moves by %g, step size %g" % (s, step))
                else:
                    lo, hi = min(mn, prev[0]), max(mx, prev[0])
                    E(lo - 1e-9 <= s <= hi + 1e-9, "adapt", "step %d of size %g outside [%g, %g]" % (k, s, mn, mx))
                    if prev[1] < o["CPF_ERROR_TOL"] * .999 and prev[2] < o["CPF_ERROR_TOL"] * .999:
                        E(s >= min(prev[0], mx) - 1e-9, "adapt", "step %d reduced from %g to %g although the last error was %g" % (k, prev[0], s, prev[1]))
                    elif prev[1] > o["CPF_ERROR_TOL"] * 1.001 and prev[2] > o["CPF_ERROR_TOL"] * 1.001:
                        E(s <= max(prev[0], mn) + 1e-9, "adapt", "step %d increased from %g to %g although the last error was %g" % (k, prev[0], s, prev[1]))
                if par == 1:
                    E(abs(abs(lam[k] - lam[k - 1]) - s) < 1e-7, "param", "natural step of %g moved lambda by %g" % (s, lam[k] - lam[k - 1]))
                elif par == 2:
                    E(abs(np.linalg.norm(xc - x0) - s) < 1e-6 / s, "param", "arc length step of %g moved by %g" % (s, np.linalg.norm(xc - x0)))
                else:
                    E(abs(np.dot(xc - xp, xp - x0)) < 1e-7 * s * 10, "param", "correction %d is not orthogonal to the tangent" % k)
                if par != 1 and not ad and step <= .05:
                    # no jump to another part of the curve
                    E(np.linalg.norm(xc - x0) < 4 * s, "jump", "step of %g moved by %g" % (s, np.linalg.norm(xc - x0)))
            # predictor along the tangent
            z = (xp - x0) / s
            h = 1e-5
            va, la = unvec(x0 + h * z, Vc[:, k - 1]); vb, lb = unvec(x0 - h * z, Vc[:, k - 1])
            g = np.abs(mism(va, la) - mism(vb, lb)).max() / (2 * h)
            E(g < 1e-5 * (1 + np.abs(Y).max()), "tangent", "predictor %d leaves the tangent (%g)" % (k, g))
            prev = (s, np.max(np.abs(xc - xp)), np.max(np.abs((xc - xp)[sel])))
        # callbacks
        good = len(tr) == n + 1 and [x[0] for x in tr] == list(range(n)) + [n - 1] and [x[5] for x in tr] == [False] * n + [True] and all(x[6] == {"tok": 7} for x in tr)
        if E(good, "callbacks", "user callback saw steps %s, final %s, arguments %s for %d points" % ([x[0] for x in tr], [x[5] for x in tr][-2:], tr[0][6] if tr else None, n)):
            srt = sorted(live, key=lambda i: np.abs(Vc[i, 0]))
            for k, x in enumerate(tr):
                j = min(k, n - 1)
                E(abs(x[2] - lam[j]) < 1e-12 and abs(x[4] - lp[j]) < 1e-12 and np.allclose(np.sort_complex(x[1]), np.sort_complex(Vc[live, j]), atol=1e-12) and np.allclose(np.sort_complex(x[3]), np.sort_complex(Vp[live, j]), atol=1e-12),
                  "callbacks", "user callback %d saw lambda %g, trace %g" % (k, x[2], lam[j]))
            E(c.get("mine") == n and c.get("seen") == n + 1, "callbacks", "state or results of the user callback lost: %s" % sorted(c))
        # the returned case is the last point
        q = at(p, t, lam[-1])
        dead(q)
        tg = api.clone(res)
        tg["gen"][:, VG] = p["gen"][:, VG]
        k = key + ":final"
        c01.judge(r, k, q, tg, ok, 1e-7)
        for i in live:
            E(abs(res["bus"][i, VM] - abs(Vc[i, -1])) < 1e-9 and abs(np.exp(1j * np.radians(res["bus"][i, VA])) - Vc[i, -1] / abs(Vc[i, -1])) < 1e-9, "final", "returned voltage is not the last point")
        if r.sample is None:
            r.sample = {"item": key, "lam": lam[:6].tolist() + lam[-2:].tolist(), "nose": nose}
    return r
