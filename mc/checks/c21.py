"""C21: the OPF model object indexes variables, constraints and costs consistently."""
import copy
import numpy as np
from scipy.sparse import csr_matrix as sparse
from mc.core import Result, canon

PROP = "C21"
LEVEL = "model_checking"
RULE = ("states: every opf_model reachable by a sequence of at most D accepted additions from an alphabet of variable, linear, nonlinear and cost "
        "sets (empty ones, default / explicit / reversed variable lists, absent optional parts); transitions: every addition, valid or not, tried in "
        "every state. Each state is compared with a reference list model through every query, before and after repeating the queries; rejected "
        "additions must leave every query unchanged. Non-trivial: at least one named set")
ASSUMPTIONS = ["variable lists name each set at most once", "cost matrices N and H are sparse, as the documented callers pass them"]
inf = np.inf

# op = (kind, name, ...)
VARS = [("V", "a", 2, 0, 0, 0), ("V", "b", 1, 1, 1, 1), ("V", "c", 0, 0, 0, 0), ("V", "d", 3, 1, 0, 1), ("V", "e", 2, 0, 1, 0), ("V", "f", 0, 1, 1, 1)]
BADV = [("V!", "g", 2, 3, 0, 0), ("V!", "g", 2, 0, 1, 0), ("V!", "g", 3, 0, 0, 2)]
#        kind name rows varsets l u  extra-cols l-size-err
LINS = [("L", "p", 2, None, 1, 1), ("L", "q", 1, ["b", "a"], 1, 0), ("L", "r", 0, None, 0, 0), ("L", "s", 1, ["a"], 0, 1),
        ("L", "t", 2, [], 1, 1), ("L", "u", 3, ["d", "c"], 1, 1), ("L", "v", 0, ["a"], 1, 1)]
BADL = [("L!", "w", 2, None, "cols"), ("L!", "w", 2, ["a"], "cols"), ("L!", "w", 2, None, "l"), ("L!", "w", 2, None, "u"), ("L!", "w", 1, ["zz"], "ok"), ("L!", "w", 0, ["zz"], "ok")]
NLNS = [("N", "p", 2), ("N", "n", 0), ("N", "m", 3)]
COSTS = [("C", "p", 2, None, ""), ("C", "x", 1, ["b", "a"], "Hdrkm"), ("C", "y", 0, None, ""), ("C", "z", 2, ["d"], "Hk"), ("C", "w", 3, [], "drm"), ("C", "v", 0, ["a"], "Hdrkm")]
BADC = [("C!", "k", 2, None, "N"), ("C!", "k", 1, ["a"], "N"), ("C!", "k", 2, None, "Cw"), ("C!", "k", 2, None, "H"), ("C!", "k", 2, None, "H2"), ("C!", "k", 1, None, "dd"), ("C!", "k", 2, None, "rh"),
        ("C!", "k", 2, None, "kk"), ("C!", "k", 2, None, "mm"), ("C!", "k", 1, ["zz"], "ok"), ("C!", "k", 0, ["zz"], "ok")]
USER = [("U", "k1", 7.5), ("U", "k1", [1, 2])]
ALL = VARS + BADV + LINS + BADL + NLNS + COSTS + BADC + USER
BAD = BADV + BADL + BADC


def vals(tag, n, k=1):
    """deterministic distinct numbers"""
    s = sum((i + 1) * ord(c) for i, c in enumerate(tag)) % 97
    return np.array([((s * 7 + 13 * i * k + 5) % 41 - 20) / 4. for i in range(n)])


class Ref(object):
    """reference model: plain ordered lists"""
    def __init__(self):
        self.v, self.l, self.n, self.c, self.u = [], [], [], [], {}

    def nv(self, vs):
        d = dict((n, N) for n, N, _ in self.v)
        return sum(d[x] for x in vs)

    def off(self):
        o, k = {}, 0
        for n, N, _ in self.v:
            o[n] = (k, k + N); k += N
        return o, k

    def place(self, blk, vs):
        o, n = self.off()
        M = np.zeros((blk.shape[0], n))
        k = 0
        for x in vs:
            a, b = o[x]
            M[:, a:b] = blk[:, k:k + b - a]
            k += b - a
        return M


def apply(op, om, ref):
    """Perform op on the real model; returns (accepted, expected accepted, exception).  ref is updated if the op is valid."""
    kind, name = op[0], op[1]
    if kind in ("V", "V!"):
        _, _, N, a, b, c = op
        if kind == "V!":
            args = [np.zeros(0) if not k else vals(name + "x", N + (1 if k != 2 else -1) if k != 3 else N + 2) for k in (a, b, c)]
            ok = False
        else:
            args = [vals(name + "0", N) if a else None, vals(name + "l", N) - 30 if b else (None if N % 2 else np.array([])), vals(name + "u", N) + 30 if c else None]
            ok = name not in [x[0] for x in ref.v]
        call = lambda: om.add_vars(name, N, *args)
        def upd():
            ref.v.append((name, N, (args[0] if a else np.zeros(N), args[1] if b else np.full(N, -inf), args[2] if c else np.full(N, inf))))
    elif kind in ("L", "L!"):
        _, _, rows, vs = op[:4]
        known = [x[0] for x in ref.v]
        use = known if not vs else vs
        okv = all(x in known for x in use)
        nc = ref.nv(use) if okv else 2
        ok = okv and name not in [x[0] for x in ref.l]
        if kind == "L!":
            ok = False
            if op[4] == "cols":
                nc += 1
        A = vals(name + "A", rows * nc, 3).reshape(rows, nc)
        l, u = vals(name + "l", rows) - 9, vals(name + "u", rows) + 9
        if kind == "L!":
            if op[4] == "l": l = np.r_[l, 1.]
            if op[4] == "u": u = u[:-1] if rows > 1 else np.r_[u, 1.]
        else:
            if not op[4]: l = np.array([])
            if not op[5]: u = np.array([])
        kw = {} if vs is None else {"varsets": list(vs)}
        call = lambda: om.add_constraints(name, sparse(A), l, u, **kw)
        def upd():
            ref.l.append((name, rows, A, l if len(l) else np.full(rows, -inf), u if len(u) else np.full(rows, inf), list(use)))
    elif kind == "N":
        _, _, N = op
        ok = name not in [x[0] for x in ref.n]
        call = lambda: om.add_constraints(name, N, "non-linear")
        def upd():
            ref.n.append((name, N))
    elif kind in ("C", "C!"):
        _, _, nw, vs, what = op
        known = [x[0] for x in ref.v]
        use = known if not vs else vs
        okv = all(x in known for x in use)
        nc = ref.nv(use) if okv else 2
        ok = okv and name not in [x[0] for x in ref.c]
        cp = {"N": vals(name + "N", nw * nc, 3).reshape(nw, nc), "Cw": vals(name + "c", nw)}
        H = vals(name + "H", nw * nw).reshape(nw, nw); H = H + H.T
        full = {"H": H, "dd": np.array([1. + (i % 2) for i in range(nw)]), "rh": vals(name + "r", nw), "kk": np.abs(vals(name + "k", nw)) / 4, "mm": vals(name + "m", nw) + .125}
        for ch, k in zip("Hdrkm", ("H", "dd", "rh", "kk", "mm")):
            if kind == "C" and ch in what:
                cp[k] = full[k]
        if kind == "C!":
            ok = False
            if what == "N":
                cp["N"] = np.hstack([cp["N"], np.ones((nw, 1))])
            elif what == "Cw":
                cp["Cw"] = cp["Cw"][:-1]
            elif what == "H":
                cp["H"] = H[:, :-1]
            elif what == "H2":
                cp["H"] = H[:-1, :]
            elif what != "ok":
                cp[what] = np.r_[full[what], 1.]
        ref_cp = dict((k, np.array(x)) for k, x in cp.items())
        cp["N"] = sparse(cp["N"])
        if "H" in cp:
            cp["H"] = sparse(cp["H"])
        keys = sorted(cp)
        shapeN = cp["N"].shape
        call = lambda: om.add_costs(name, cp, None if vs is None else list(vs))
        def upd():
            e = {"N": ref_cp["N"], "Cw": ref_cp["Cw"], "H": np.zeros((nw, nw)), "dd": np.ones(nw), "rh": np.zeros(nw), "kk": np.zeros(nw), "mm": np.ones(nw)}
            e.update(ref_cp)
            ref.c.append((name, nw, e, list(use)))
    else:
        ok = True
        call = lambda: om.userdata(name, copy.deepcopy(op[2]))
        def upd():
            ref.u[name] = op[2]
    exc = None
    try:
        call()
        done = True
    except Exception as ex:
        done, exc = False, ex
    if kind in ("C", "C!") and (sorted(cp) != keys or cp["N"].shape != shapeN):
        return done, ok, exc, "the caller's cost parameter dict was changed by add_costs"
    if done and ok:
        upd()
    return done, ok, exc, None


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


def refcost(e, x):
    t = 0.
    w = []
    for i in range(len(e["Cw"])):
        z = float(e["N"][i].dot(x)) - e["rh"][i]
        k = e["kk"][i]
        z = z + k if z < -k else (z - k if z > k else 0.)
        w.append(e["mm"][i] * (z if e["dd"][i] == 1 else z * z))
    w = np.array(w)
    return float(.5 * w.dot(e["H"]).dot(w) + e["Cw"].dot(w)) if len(w) else 0.


def flat(o):
    """nested query result -> comparable plain data"""
    if isinstance(o, dict):
        return dict((str(k), flat(v)) for k, v in o.items())
    if isinstance(o, (tuple, list)):
        return [flat(x) for x in o]
    if hasattr(o, "toarray"):
        return o.toarray().tolist()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return o


def snapshot(om, ref):
    names = [x[0] for x in ref.v], [x[0] for x in ref.l], [x[0] for x in ref.n], [x[0] for x in ref.c]
    s = [flat(om.get_idx()), [om.getN(k) for k in ("var", "lin", "nln", "cost")], flat(om.getv()), flat(om.linear_constraints()),
         [flat(om.getv(n)) for n in names[0]]]
    om.build_cost_params()
    s.append(flat(om.get_cost_params()))
    s.append([flat(om.get_cost_params(n)) for n in names[3]])
    s.append([flat(om.userdata(n)) for n in ("k1", "nope")])
    s.append(repr(om))
    return s


def compare(om, ref, r, key):
    E = r.expect
    groups = [("var", [(x[0], x[1]) for x in ref.v]), ("lin", [(x[0], x[1]) for x in ref.l]), ("nln", [(x[0], x[1]) for x in ref.n]), ("cost", [(x[0], x[1]) for x in ref.c])]
    vv, ll, nn, cc = om.get_idx()
    got = {"var": vv, "lin": ll, "nln": nn, "cost": cc}
    for g, lst in groups:
        k = 0
        for n, N in lst:
            E(n in got[g]["N"] and got[g]["N"][n] == N and got[g]["i1"][n] == k and got[g]["iN"][n] == k + N, key + ":idx:" + g,
              lambda: "%s set %s: %s expected range [%d,%d)" % (g, n, {q: got[g][q].get(n) for q in ("i1", "iN", "N")}, k, k + N))
            E(om.getN(g, n) == N, key + ":getN:" + g, lambda: "getN(%s,%s)=%s expected %d" % (g, n, om.getN(g, n), N))
            k += N
        E(sorted(got[g]["N"]) == sorted(n for n, _ in lst), key + ":names:" + g, lambda: "sets %s expected %s" % (sorted(got[g]["N"]), [n for n, _ in lst]))
        E(om.getN(g) == k, key + ":getN:" + g, lambda: "getN(%s)=%s expected %d" % (g, om.getN(g), k))
        E(om.getN(g, "nosuch") == 0, key + ":getN-unknown", "getN of an unknown set is not 0")
        E(list(getattr(om, g)["order"]) == [n for n, _ in lst], key + ":order:" + g, "order %s" % getattr(om, g)["order"])
    o, n = ref.off()
    want = [np.concatenate([np.zeros(0)] + [x[2][i] for x in ref.v]) for i in range(3)]
    for nm, a, b in zip(("v0", "vl", "vu"), om.getv(), want):
        E(np.shape(a) == b.shape and np.array_equal(a, b), key + ":getv:" + nm, lambda: "%s = %s expected %s" % (nm, a, b))
    for name, N, t in ref.v:
        for nm, a, b in zip(("v0", "vl", "vu"), om.getv(name), t):
            E(np.shape(a) == np.shape(b) and np.array_equal(a, b), key + ":getv-named:" + nm, lambda: "%s of %s = %s expected %s" % (nm, name, a, b))
    E(all(len(x) == 0 for x in om.getv("nosuch")), key + ":getv-unknown", "getv of an unknown set is not empty")
    A, l, u = om.linear_constraints()
    m = sum(x[1] for x in ref.l)
    if m == 0:
        E((A is None or A.shape[0] == 0) and len(l) == 0 and len(u) == 0, key + ":lin-empty", "linear constraints of a model without any: %s %s %s" % (A, l, u))
    else:
        RA = np.vstack([ref.place(x[2], x[5]) for x in ref.l])
        E(A.shape == RA.shape and np.array_equal(dense(A), RA), key + ":lin-A", lambda: "A =\n%s\nexpected\n%s" % (dense(A), RA))
        E(np.array_equal(l, np.concatenate([x[3] for x in ref.l])) and np.array_equal(u, np.concatenate([x[4] for x in ref.l])), key + ":lin-lu",
          lambda: "l=%s u=%s expected %s %s" % (l, u, np.concatenate([x[3] for x in ref.l]), np.concatenate([x[4] for x in ref.l])))
    om.build_cost_params()
    cp = om.get_cost_params()
    nw = sum(x[1] for x in ref.c)
    W = {"N": np.zeros((0, n)), "H": np.zeros((nw, nw))}
    for k in ("Cw", "dd", "rh", "kk", "mm"):
        W[k] = np.concatenate([np.zeros(0)] + [x[2][k] for x in ref.c])
    if ref.c:
        W["N"] = np.vstack([ref.place(x[2]["N"], x[3]) if x[1] else np.zeros((0, n)) for x in ref.c])
    k = 0
    parts = {}
    for name, N, e, vs in ref.c:
        W["H"][k:k + N, k:k + N] = e["H"]
        parts[name] = dict((q, W[q][k:k + N]) for q in ("N", "Cw", "dd", "rh", "kk", "mm"))
        parts[name]["H"] = e["H"]
        k += N
    for q in W:
        E(dense(cp[q]).shape == W[q].shape and np.array_equal(dense(cp[q]), W[q]), key + ":cost:" + q, lambda: "%s = %s expected %s" % (q, dense(cp[q]), W[q]))
    for name in parts:
        c1 = om.get_cost_params(name)
        for q in W:
            E(dense(c1[q]).shape == parts[name][q].shape and np.array_equal(dense(c1[q]), parts[name][q]), key + ":cost-named:" + q,
              lambda: "%s of set %s = %s expected %s" % (q, name, dense(c1[q]), parts[name][q]))
    for j in range(3):
        x = vals("x%d" % j, n) if j else np.zeros(n)
        a, b = float(om.compute_cost(x)), refcost(W, x)
        E(abs(a - b) <= 1e-9 * (1 + abs(b)), key + ":compute_cost", lambda: "cost at %s = %r expected %r" % (x, a, b))
        for name in parts:
            a, b = float(om.compute_cost(x, name)), refcost(parts[name], x)
            E(abs(a - b) <= 1e-9 * (1 + abs(b)), key + ":compute_cost-named", lambda: "cost of %s at %s = %r expected %r" % (name, x, a, b))
    for nm in ("k1", "nope"):
        got_u = om.userdata(nm)
        E(np.array_equal(got_u, ref.u[nm]) if nm in ref.u else len(got_u) == 0, key + ":userdata", lambda: "userdata(%s)=%s expected %s" % (nm, got_u, ref.u.get(nm)))


def build(tier):
    d = 4 if tier == "quick" else 5
    return [{"pre": [i], "depth": d} for i in range(len(ALL)) if ALL[i] not in BAD] + \
           [{"pre": [i, j], "depth": d} for i in range(len(VARS)) for j in range(len(ALL)) if ALL[j] not in BAD and i != j]


SMALL = [o for o in ALL if (o[0], o[1]) in (("V", "a"), ("V", "b"), ("V", "c"), ("V", "d"), ("L", "p"), ("L", "q"), ("N", "p"), ("C", "x"), ("C", "p"))]


def run(item):
    from pypower.opf_model import opf_model
    r = Result()
    om, ref = opf_model({"k": 1}), Ref()
    path = []
    first = True
    for i in item["pre"]:
        done, ok, exc, bad = apply(ALL[i], om, ref)
        path.append(ALL[i])
        if done != ok:
            r.bad("accept:%s" % (path,), "sequence %s: last addition %s" % (path, "accepted" if done else "rejected: %r" % exc))
            return r
        if not done:
            return r
    if len(item["pre"]) == 1 and ALL[item["pre"][0]] in VARS:
        # deeper prefixes are their own items
        visit(om, ref, path, r, 0)
    else:
        visit(om, ref, path, r, item["depth"] - len(path))
    if r.sample is None:
        r.sample = {"sequence": [str(p) for p in path]}
    return r


def visit(om, ref, path, r, left):
    key = "state:" + ",".join("%s.%s" % (p[0], p[1]) for p in path)
    if len(r.violations) > 20:
        return
    r.states.add(canon([str(p) for p in path]))
    compare(om, ref, r, key)
    r.validated += 1
    s0 = snapshot(om, ref)
    r.expect(str(snapshot(om, ref)) == str(s0), key + ":query-effect", "repeating the queries gives different answers")
    # with two steps or more left, continue with the full alphabet below depth 3, with a core alphabet deeper
    for op in (ALL if len(path) <= 2 else SMALL + BAD[::5] if left > 0 else []):
        if op in BAD:
            om2, ref2 = om, ref
        elif left <= 0:
            continue
        else:
            om2, ref2 = copy.deepcopy(om), copy.deepcopy(ref)
        done, ok, exc, bad = apply(op, om2, ref2)
        r.evals += 1
        r.transitions += 1
        k2 = key + "+%s.%s" % (op[0], op[1])
        if bad:
            r.bad(k2 + ":arg", bad)
        if done and not ok:
            r.bad(k2 + ":accepted", "invalid addition %s accepted after %s" % (op, path))
            if op in BAD:
                return
        elif ok and not done:
            r.bad(k2 + ":rejected", "valid addition %s rejected after %s: %r" % (op, path, exc))
        elif not done:
            r.tag("rejected")
            r.expect(str(snapshot(om2, ref2)) == str(s0), k2 + ":rejected-effect", "rejected addition %s changed the model" % (op,))
        else:
            r.tag("accepted")
            visit(om2, ref2, path + [op], r, left - 1)
