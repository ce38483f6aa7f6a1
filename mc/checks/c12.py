"""C12: second derivatives and OPF callbacks are exact and mutually consistent."""
import itertools
import numpy as np
from scipy.sparse import csr_matrix, issparse
from mc.core import Result, canon
from mc.space import *
from mc import deriv, api
from mc.checks.c10 import internal, ref_ac, dense
from mc.checks import c11
from mc.checks.c11 import eq, network, voltages, PTS

PROP = "C12"
LEVEL = "model_checking"
RULE = ("states: (edited network, voltage grid point, unit multiplier) for the second-derivative functions, and (flow-limit type, limited branch "
        "subset, cost model, user cost, point, unit multiplier) for the OPF callbacks: full products; compared with derivatives assembled "
        "element by element from the product rule. Non-trivial: not the flat voltage state")
ASSUMPTIONS = ["voltages are not zero", "user cost residuals are not exactly at the edge of their dead zone when derivatives are compared", "H symmetric"]

COSTS = ["poly", "cubic", "const", "pwl", "mixed", "qpoly", "qpwl"]
LIMS = ["all", "none", "first", "last", "big"]
USERS = ["none", "lin", "quad", "deadzone", "mix", "nodefaults"]


def build(tier):
    items, info = c11.build("quick" if tier == "quick" else "thorough")
    if tier == "quick":        # depth-2 networks keep three voltage states, depth-1 the full grid
        items = [i for i in items if "ship" not in i or i["ship"] in ("case4gs", "case6ww", "case9")]
    for i in items:
        i["k"] = "d2"; i["deep"] = tier != "quick"
        if tier == "quick" and len(i.get("edits", [])) > 1 and i["base"] == "b4":
            i["skip"] = True
    items = [i for i in items if not i.get("skip")]
    for b in ("b2", "b3", "b4"):
        for ed in ([], [["br_shift", 0, 8.], ["br_tap", 0, .96]], [["br_par", 0], ["br_rev", 0]], [["base", 10.]]):
            for fl, li, co, us in itertools.product((0, 1, 2), LIMS, COSTS, USERS):
                if tier == "quick" and ((ed and b != "b3") or not ((co, us) in (("poly", "none"), ("mixed", "mix"), ("qpwl", "deadzone"))
                                        or (fl == 0 and li == "all" and not ed) or (fl == 1 and li == "first" and b == "b2"))):
                    continue
                items.append({"k": "cb", "base": b, "edits": ed, "fl": fl, "li": li, "co": co, "us": us, "deep": tier != "quick"})
    return items, info


def d2(item, r):
    from pypower.d2Sbus_dV2 import d2Sbus_dV2
    from pypower.d2Sbr_dV2 import d2Sbr_dV2
    from pypower.d2Ibr_dV2 import d2Ibr_dV2
    from pypower.d2ASbr_dV2 import d2ASbr_dV2
    from pypower.d2AIbr_dV2 import d2AIbr_dV2
    p = network(item)
    nb, nl = len(p["bus"]), len(p["branch"])
    Y, Yf, Yt = ref_ac(p["bus"], p["branch"], p["baseMVA"])
    sY = csr_matrix(Y)
    f, t = p["branch"][:, 0].astype(int), p["branch"][:, 1].astype(int)
    base_key = item.get("ship") or "%s:%s" % (item["base"], item["edits"])

    def four(key, out, h):
        for n, x, y in zip(("aa", "av", "va", "vv"), out, (h[:nb, :nb], h[:nb, nb:], h[nb:, :nb], h[nb:, nb:])):
            eq(r, key + n, x, y)
    for iv, V in enumerate(voltages(item, p)):
        D, H = deriv.dvolt(V)
        hs = [deriv.power(i, Y[i], V, D, H) for i in range(nb)]
        unit = iv == 1 or item.get("deep")
        lams = ([np.eye(nb)[i] for i in range(nb)] if unit else []) + [np.array([(-1.) ** i * (1 + .5 * i) for i in range(nb)])]
        for il, lam in enumerate(lams):
            four("%s:V%d:lam%d:d2Sbus" % (base_key, iv, il), d2Sbus_dV2(sY, V, lam), sum(l * h[2] for l, h in zip(lam, hs)))
        for end, Ye, b in (("f", Yf, f), ("t", Yt, t)):
            sYe = csr_matrix(Ye)
            C = csr_matrix((np.ones(nl), (range(nl), b)), (nl, nb))
            S = [deriv.power(b[k], Ye[k], V, D, H) for k in range(nl)]
            I = [deriv.lin(Ye[k], V, D, H) for k in range(nl)]
            lams = ([np.eye(nl)[i] for i in range(nl)] if nl <= 8 else [np.eye(nl)[0], np.eye(nl)[nl - 1]]) if unit else []
            lams.append(np.array([(-1.) ** i * (1 + .5 * i) for i in range(nl)]))
            Sv = np.array([s[0] for s in S]); dS = np.array([s[1] for s in S])
            Iv = np.array([s[0] for s in I]); dI = np.array([s[1] for s in I])
            m = lambda a: csr_matrix(a)
            for il, lam in enumerate(lams):
                key = "%s:V%d:%s:lam%d:" % (base_key, iv, end, il)
                for c in (1., 1j * .5 - .25) if il == len(lams) - 1 else (1.,):
                    four(key + "d2Sbr", d2Sbr_dV2(C, sYe, V, lam * c), sum(l * c * h[2] for l, h in zip(lam, S)))
                    four(key + "d2Ibr", d2Ibr_dV2(sYe, V, lam * c), sum(l * c * h[2] for l, h in zip(lam, I)))
                four(key + "d2ASbr", d2ASbr_dV2(m(dS[:, :nb]), m(dS[:, nb:]), Sv, C, sYe, V, lam), sum(l * deriv.sq(*h)[2] for l, h in zip(lam, S)))
                four(key + "d2APbr", d2ASbr_dV2(m(dS[:, :nb].real), m(dS[:, nb:].real), Sv.real, C, sYe, V, lam),
                     sum(l * deriv.sq(h[0], h[1], h[2], "real")[2] for l, h in zip(lam, S)))
                four(key + "d2AIbr", d2AIbr_dV2(m(dI[:, :nb]), m(dI[:, nb:]), Iv, sYe, V, lam), sum(l * deriv.sq(*h)[2] for l, h in zip(lam, I)))
        r.validated += 1
        r.states.add(canon((base_key, iv)))
    r.tag("d2_voltage_states", iv + 1)


# ------------------------------------------------------------------- callbacks
def cb_case(item):
    p = internal(build_state(item["base"], item["edits"]))
    p["gen"] = p["gen"][np.argsort(p["gen"][:, 0], kind="stable")]
    p["gencost"] = None
    ng, nl, nb = len(p["gen"]), len(p["branch"]), len(p["bus"])
    co = item["co"]
    poly = [[2, 0, 0, 3, .1 + .05 * i, 5. - i, 20. + i, 0, 0, 0] for i in range(ng)]
    pwl = [[1, 0, 0, 3, 0, 0, 50 + i, 300 + i, 200, 2500 + i] for i in range(ng)]
    if co == "poly":
        gc = poly
    elif co == "cubic":
        gc = [[2, 0, 0, 4, 1e-3 * (i + 1), .02, 4., 7., 0, 0] if i % 2 == 0 else [2, 0, 0, 5, 1e-5, 1e-4, .01, 3., 2., 0] for i in range(ng)]
    elif co == "const":
        gc = [[2, 0, 0, 1, 7., 0, 0, 0, 0, 0] if i % 2 == 0 else [2, 0, 0, 2, 6., 3., 0, 0, 0, 0] for i in range(ng)]
    elif co == "pwl":
        gc = pwl
    elif co == "mixed":
        gc = [poly[i] if i % 2 else pwl[i] for i in range(ng)]
    elif co == "qpoly":
        gc = [poly[i] if i % 2 else pwl[i] for i in range(ng)] + [[2, 0, 0, 3, .02 * (i + 1), -.5, 1., 0, 0, 0] if i % 2 else [2, 0, 0, 4, 2e-4 * (i + 1), .02, -.5, 1., 0, 0] for i in range(ng)]
    elif co == "qpwl":
        gc = poly + [[1, 0, 0, 3, -100, 200. + i, 0, 0, 100, 300, ] if i % 2 == 0 else poly[i] for i in range(ng)]
    p["gencost"] = np.array(gc, float)
    li = item["li"]
    rate = {"all": [100. + 10 * k for k in range(nl)], "none": [0.] * nl, "first": [90.] + [0.] * (nl - 1), "last": [0.] * (nl - 1) + [80.],
            "big": [1e10] + [120.] * (nl - 1)}[li]
    p["branch"][:, RATE_A] = rate
    p.pop("areas", None)
    us = item["us"]
    n = 2 * nb + 2 * ng
    if us != "none":
        N = np.zeros((4, n)); N[0, 2 * nb] = 1.; N[1, [0, nb - 1, n - 1]] = [1., -.5, 2.]; N[2, nb] = 3.; N[2, 2 * nb + ng - 1] = -1.5; N[3, nb - 1] = 1.
        if us == "lin":
            fp = [[1, 0, 0, 1], [1, .1, 0, 2.], [1, -.2, 0, .5], [1, 0, 0, -1]]
        elif us == "quad":
            fp = [[2, 0, 0, 1], [2, .1, 0, 2.], [2, -.2, 0, .5], [2, 0, 0, 1.5]]
        elif us == "deadzone":
            fp = [[1, .2, .15, 1], [2, .1, .3, 2.], [2, 1., .25, .5], [1, 0, 5., 1]]
        elif us == "mix":
            fp = [[2, .2, .05, 1], [1, .1, .1, 2.], [2, 1., 0., .5], [1, .3, .2, 1.]]
        p["N"] = csr_matrix(N); p["Cw"] = np.array([1., -2., 3., .5])
        if us != "nodefaults":
            p["fparm"] = np.array(fp, float)
        if us in ("quad", "mix", "nodefaults"):
            p["H"] = csr_matrix(np.array([[1., .5, 0, 0], [.5, 2., 0, -.25], [0, 0, 0, 0], [0, -.25, 0, 3.]]))
    return p


def curve(row, q):
    """value, first and second derivative of a polynomial cost row"""
    n = int(row[3]); c = np.poly1d(row[4:4 + n]) if n else np.poly1d([0.])
    return c(q), c.deriv(1)(q), c.deriv(2)(q)


def cb(item, r):
    from pypower.opf_args import opf_args2
    from pypower.ext2int import ext2int
    from pypower.opf_setup import opf_setup
    from pypower.opf_costfcn import opf_costfcn
    from pypower.opf_consfcn import opf_consfcn
    from pypower.opf_hessfcn import opf_hessfcn
    p = cb_case(item)
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    base = p["baseMVA"]
    opt = api.opts(OPF_FLOW_LIM=item["fl"], OPF_ALG=560)
    ppc, opt = opf_args2(api.clone(p), opt)
    om = opf_setup(ext2int(ppc), opt)
    om.build_cost_params()
    key0 = "cb:%s:%s:fl%d:%s:%s:%s" % (item["base"], item["edits"], item["fl"], item["li"], item["co"], item["us"])
    gc = p["gencost"]
    ipwl = [i for i in range(len(gc)) if gc[i, 0] == 1]
    ny = len(ipwl)
    nx = 2 * nb + 2 * ng + ny
    if not r.expect(om.getN("var") == nx, key0 + ":nvar", "model has %d variables, expected %d" % (om.getN("var"), nx)):
        return
    Y, Yf, Yt = ref_ac(p["bus"], p["branch"], base)
    il = np.array([k for k in range(nl) if p["branch"][k, RATE_A] != 0 and p["branch"][k, RATE_A] < 1e10], int)
    sY, sYf, sYt = csr_matrix(Y), csr_matrix(Yf[il]), csr_matrix(Yt[il])
    pts = []
    for s in range(4):
        V = [PTS[(i * (s + 1) + s) % 5] for i in range(nb)]
        x = np.r_[[v[1] for v in V], [v[0] for v in V], [(.4 + .3 * i) * (1 if s < 2 else -1.1) * 100 / base for i in range(ng)],
                  [(-.2 + .15 * i) * (1 + s) * 100 / base for i in range(ng)], [5. + 3 * i + s for i in range(ny)]]
        pts.append(x)
    pts.append(np.r_[np.zeros(nb), np.ones(nb), np.zeros(2 * ng), np.zeros(ny)])
    for ix, x in enumerate(pts):
        key = key0 + ":x%d:" % ix
        Va, Vm = x[:nb], x[nb:2 * nb]
        V = Vm * np.exp(1j * Va)
        PQ = x[2 * nb:2 * nb + 2 * ng] * base
        # cost reference
        f, df, Hf = 0., np.zeros(nx), np.zeros((nx, nx))
        for i in range(len(gc)):
            if gc[i, 0] == 2:
                v, d, dd = curve(gc[i], PQ[i])
                f += v; df[2 * nb + i] += base * d; Hf[2 * nb + i, 2 * nb + i] += base ** 2 * dd
        f += x[nx - ny:].sum(); df[nx - ny:] += 1.
        edge = False
        if "N" in p:
            N = np.hstack([p["N"].toarray(), np.zeros((4, ny))]) if p["N"].shape[1] < nx else p["N"].toarray()
            fp = p.get("fparm", np.tile([1., 0, 0, 1.], (4, 1)))
            Hm = p["H"].toarray() if "H" in p else np.zeros((4, 4))
            u = N.dot(x) - fp[:, 1]
            w, dw, d2w = np.zeros(4), np.zeros(4), np.zeros(4)
            for i in range(4):
                d, _, k, m = fp[i]
                if k > 0 and abs(abs(u[i]) - k) < 1e-9:
                    edge = True
                q = u[i] - k if u[i] > k else (u[i] + k if u[i] < -k else 0.)
                inside = abs(u[i]) < k
                if d == 1:
                    w[i], dw[i] = m * q, 0. if inside else m
                else:
                    w[i], dw[i], d2w[i] = m * q * q, 2 * m * q, 0. if inside else 2 * m
            f += .5 * w.dot(Hm).dot(w) + p["Cw"].dot(w)
            gw = Hm.dot(w) + p["Cw"]
            J = dw[:, None] * N
            df += J.T.dot(gw)
            Hf += J.T.dot(Hm).dot(J) + N.T.dot(np.diag(d2w * gw)).dot(N)
        x0 = x.copy()
        try:
            o = opf_costfcn(x, om, True); o2 = opf_costfcn(x, om)
        except Exception as e:
            r.bad(key + "cost:exception", "opf_costfcn raised %s: %s" % (type(e).__name__, e)); return
        eq(r, key + "f", np.array([float(o[0])]), np.array([f])); eq(r, key + "f2", np.array([float(o2[0])]), np.array([f]))
        if not edge:
            eq(r, key + "df", np.asarray(o[1]).reshape(-1), df); eq(r, key + "df2", np.asarray(o2[1]).reshape(-1), df)
            eq(r, key + "d2f", o[2], Hf)
        # constraints
        D, H = deriv.dvolt(V)
        mis = [deriv.power(i, Y[i], V, D, H) for i in range(nb)]
        S = -(p["bus"][:, PD] + 1j * p["bus"][:, QD]) / base
        for i in range(ng):
            S[int(p["gen"][i, 0])] += (PQ[i] + 1j * PQ[ng + i]) / base
        g = np.array([m[0] for m in mis]) - S
        dg = np.zeros((2 * nb, nx))
        for i in range(nb):
            dg[i, :2 * nb] = mis[i][1].real; dg[nb + i, :2 * nb] = mis[i][1].imag
        for i in range(ng):
            dg[int(p["gen"][i, 0]), 2 * nb + i] -= 1; dg[nb + int(p["gen"][i, 0]), 2 * nb + ng + i] -= 1
        fl = []
        for Ye, col in ((Yf, 0), (Yt, 1)):
            for k in il:
                b = int(p["branch"][k, col])
                z = deriv.lin(Ye[k], V, D, H) if item["fl"] == 2 else deriv.power(b, Ye[k], V, D, H)
                fl.append(deriv.sq(z[0], z[1], z[2], "real" if item["fl"] == 1 else "abs"))
        lim = np.r_[(p["branch"][il, RATE_A] / base) ** 2, (p["branch"][il, RATE_A] / base) ** 2]
        h = np.array([z[0] for z in fl]) - lim
        try:
            hh, gg, dhh, dgg = opf_consfcn(x, om, sY, sYf, sYt, opt, il)
        except Exception as e:
            r.bad(key + "cons:exception", "opf_consfcn raised %s: %s" % (type(e).__name__, e)); return
        eq(r, key + "g", gg, np.r_[g.real, g.imag]); eq(r, key + "dg", dgg.T, dg)
        if len(il):
            eq(r, key + "h", hh, h)
            dh = np.zeros((len(fl), nx)); dh[:, :2 * nb] = [z[1] for z in fl]
            eq(r, key + "dh", dhh.T, dh)
        else:
            r.expect(np.size(hh) == 0 and (dhh is None or dhh.shape[1] == 0), key + "h", "flow constraints without limited branches")
        # lagrangian hessian
        unit = ix in (1, 4) or item.get("deep")
        mults = [] if not unit else [("e%d" % i, np.eye(2 * nb)[i], np.zeros(2 * len(il)), 1.) for i in range(2 * nb)]
        if unit:
            mults += [("i%d" % i, np.zeros(2 * nb), np.eye(2 * len(il))[i], 1.) for i in range(2 * len(il))]
        mults += [("c", np.zeros(2 * nb), np.zeros(2 * len(il)), 2.5), ("gen", np.arange(2. * nb) - 1.5, np.arange(2. * len(il)) * .7, 1e-2)]
        for name, le, li_, cm in mults:
            ref = cm * Hf.copy()
            ref[:2 * nb, :2 * nb] += sum(le[i] * mis[i][2].real + le[nb + i] * mis[i][2].imag for i in range(nb))
            for l, z in zip(li_, fl):
                ref[:2 * nb, :2 * nb] += l * z[2]
            if edge:
                continue
            try:
                out = opf_hessfcn(x, {"eqnonlin": le, "ineqnonlin": li_}, om, sY, sYf, sYt, opt, il, cm)
            except Exception as e:
                r.bad(key + "hess:exception", "opf_hessfcn raised %s: %s" % (type(e).__name__, e)); return
            eq(r, key + "hess:" + name, out, ref)
        r.expect(np.array_equal(x, x0), key + "mutated", "callbacks modified x")
        r.validated += 1; r.transitions += len(mults)
        r.states.add(canon(key))
    r.tag("callbacks_fl%d" % item["fl"])


def run(item):
    r = Result()
    (d2 if item["k"] == "d2" else cb)(item, r)
    return r
