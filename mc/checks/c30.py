"""C30: printed reports state the results they print."""
import io, itertools, math, re, sys
import numpy as np
from mc.core import Result, canon, CaseTimeout
from mc.space import *
from mc.space import apply as sp_apply
from mc import api

PROP = "C30"
LEVEL = "model_checking"
RULE = ("states: (network, edits, analysis) with every outcome (solved, not converged, infeasible); each report is parsed back and compared token by token with an independently written model of what every "
        "section must list; the complete matrix of output switches is enumerated on every analysis and every block of text must be exactly the verified block of its section. Non-trivial: the report has sections")
ASSUMPTIONS = ["bus numbers and values are small enough for the report's fixed columns", "an empty box without table is allowed where no element qualifies"]
PTOL = 1e-4

SYS, AREA, GEN, DISP, BUS, BRANCH, VLIM, GLIM, DLIM, LLIM = ("System Summary", "Area Summary", "Generator Data", "Dispatchable Load Data", "Bus Data", "Branch Data", "Voltage Constraints",
                                                               "Generation Constraints", "Dispatchable Load Constraints", "Branch Flow Constraints")


def rep():
    """four areas' worth of everything: tie lines, shunts, transformer, dispatchable load, off unit, off line, isolated bus"""
    p = mk([bus(7, 1, 30., 10., area=5), bus(2, 2, 0., 0., vm=1.02, va=1., area=2), bus(9, 3, 25., 5., 2., 0., vm=1.0, va=-4., area=5), bus(14, 4, 11., 3., area=2),
            bus(4, 1, 35., 12., 0., 6., vm=.98, area=9), bus(31, 1, 0., 0., area=2)],
           [gen(9, 10., vg=1.0, pmax=200., pmin=0.), gen(2, 45., vg=1.02, pmax=90.), gen(31, -12., -4., 0., -5., 1., 1, 0., -15.), gen(9, 15., vg=1.0, pmax=60., pmin=0., qmax=20., qmin=-7.), gen(4, 20., status=0, pmax=33.),
            gen(7, -6., 0., 0., 0., 1., 1, 0., -6.), gen(14, 5., pmax=44.)],
           [br(7, 2, .02, .10, .04), br(2, 9, .015, .09, .03), br(9, 7, .01, .08, 0., tap=1.02, shift=-3.), br(9, 4, .03, .14, .05, rate=38.), br(31, 2, .02, .07, .02),
            br(4, 9, .025, .12, .02, st=0), br(14, 2, .01, .1), br(4, 31, .03, .13, .01, rate=0.)],
           [[2, 0, 0, 3, 0.08, 6., 10.], [2, 0, 0, 3, 0.02, 14., 5.], [2, 0, 0, 3, 0., 40., 0.], [2, 0, 0, 3, 0.03, 9., 0.], [2, 0, 0, 3, 0.03, 9., 0.], [2, 0, 0, 3, 0., 9., 0.], [2, 0, 0, 3, 0.03, 9., 0.]])
    p["areas"] = np.array([[5., 9.], [2., 2.], [9., 4.]])
    return p


def b1():
    """one bus, no branches"""
    return mk([bus(6, 3, 30., 8., 1., 2.)], [gen(6, 30.)], np.zeros((0, 13)), [[2, 0, 0, 3, .1, 5., 20.]])


NETS = dict(BASES, rep=rep, b1=b1)


def do(p, e):
    k = e[0]
    if k == "area":
        p["bus"][:, BUS_AREA] = e[1][:len(p["bus"])]
    elif k == "notap":
        p["branch"][:, TAP] = 0; p["branch"][:, SHIFT] = 0
    elif k == "alltap":
        p["branch"][:, TAP] = .97 + .01 * np.arange(len(p["branch"]))
    elif k == "inject":         # loads that are injections
        p["bus"][e[1], [PD, QD]] = e[2:]
    elif k == "noload":
        p["bus"][:, [PD, QD]] = 0
    elif k == "nodisp":
        keep = p["gen"][:, PMIN] >= 0
        p["gen"], p["gencost"] = p["gen"][keep], p["gencost"][keep]
    elif k == "vlim":
        p["bus"][:, VMAX] = e[2]; p["bus"][:, VMIN] = e[1]
    elif k == "rate":
        p["branch"][e[1], RATE_A] = e[2]
    elif k == "plim":
        p["gen"][e[1], [PMIN, PMAX]] = e[2:]
    elif k == "shunts":
        p["bus"][:, GS] = [1.5, 0., -.5, 0., 2., 0.][:len(p["bus"])]; p["bus"][:, BS] = [0., -7., 5., 0., 2., 0.][:len(p["bus"])]
    else:
        return sp_apply(p, tuple(e))
    return True


def alphabet(n, p, rich):
    nb, ng, nl = len(p["bus"]), len(p["gen"]), len(p["branch"])
    A = [("area", [1, 1, 1, 1, 1, 1]), ("area", [3, 1, 2, 8, 8, 1]), ("area", [6, 5, 4, 3, 2, 1]), ("notap",), ("alltap",), ("inject", 1, -8., 0.), ("inject", 2, -5., -3.), ("noload",), ("nodisp",), ("vlim", .99, 1.0), ("vlim", .8, 1.2), ("shunts",),
         ("renum", "odd"), ("renum", "zero"), ("base", 10.)]
    for k in range(nl):
        A += [("br_off", k), ("rate", k, 5.), ("rate", k, 0.), ("br_shift", k, 8.), ("br_rev", k)]
    for k in range(ng):
        A += [("gen_off", k), ("plim", k, 12., 12.), ("plim", k, 0., 0.), ("gen_q", k, 0., 3.)]
        if rich:
            A += [("gen_neg", k), ("gen_q", k, -2., 0.), ("gen_dup", k), ("plim", k, 0., 30.)]
    for k in range(nb):
        A += [("bus_type", k, 4), ("bus_load", k, 15., -6.), ("bus_load", k, 0., 4.)]
        if rich:
            A += [("bus_load", k, 5., 0.), ("disp", k), ("bus_first", k), ("bus_type", k, 3)]
    return A


KINDS = {"pf": {}, "pffail": dict(PF_MAX_IT=0), "pfq": dict(ENFORCE_Q_LIMS=True), "dcpf": {}, "opf": {}, "opfp": dict(OPF_FLOW_LIM=1), "opfi": dict(OPF_FLOW_LIM=2), "opffail": dict(PDIPM_MAX_IT=2), "dcopf": {}, "dcopffail": dict(PDIPM_MAX_IT=2),
         "dcopfflag": dict(PF_DC=True), "uopf": {}, "cpf": {}}


def analyse(kind, p, extra=None, fn=None):
    from pypower import api as A
    from pypower.runcpf import runcpf
    o = dict(KINDS[kind], **(extra or {}))
    opt = api.opts(**o)
    f = {"pf": A.runpf, "pffail": A.runpf, "pfq": A.runpf, "dcpf": A.rundcpf, "opf": A.runopf, "opfp": A.runopf, "opfi": A.runopf, "opffail": A.runopf, "dcopf": A.rundcopf, "dcopffail": A.rundcopf, "dcopfflag": A.runopf,
         "uopf": A.runuopf, "cpf": None}[kind]
    if kind == "cpf":
        t = api.clone(p)
        t["bus"][-1, [PD, QD]] += [60., 20.]
        return runcpf(p, t, opt)[0]
    r = f(p, opt)
    return r[0] if isinstance(r, tuple) else r


def build(tier):
    items = []
    quick = tier == "quick"
    for n in NETS:
        p = NETS[n]()
        for k in KINDS:
            full = n == "rep" and k in ("pf", "dcpf", "opf", "dcopf") if quick else n in ("rep", "b2")
            for part in range(16 if full else 4 if not quick or n != "b3" else 1):
                if full or not quick or (n, part) in (("b1", 0), ("b4", 1), ("rep", 2), ("b2", 3), ("b3", 0)):
                    items.append({"k": "matrix" if full else "matrix_small", "net": n, "an": k, "edits": [], "part": part, "of": 16 if full else 4})
    for n in (["rep"] if quick else ["rep", "b3", "b4"]):
        A = alphabet(n, NETS[n](), not quick)
        S = [(e,) for e in A]
        if not quick and n == "rep":
            S += [s for s in itertools.combinations([e for e in A if e[0] in ("area", "nodisp", "br_off", "rate", "vlim", "gen_off")], 2)]
        for s in S:
            for k in ("pf", "dcpf", "opf", "dcopf") + (() if quick and s[0][0] not in ("vlim", "rate", "br_off") else ("opfp", "opfi", "opffail")):
                items.append({"k": "one", "net": n, "an": k, "edits": tolist(s)})
    return items


def make(item):
    p = NETS[item["net"]]()
    for e in item["edits"]:
        try:
            if do(p, e) is False:
                return None
        except IndexError:
            return None         # the element was removed by an earlier edit
    return p


# ---------------------------------------------------------------------------------------- what the report must say
class Model(object):
    """expected tokens of each section, from the results alone; nothing shared with the code under test"""
    def __init__(self, res, dc, flowlim, ctol):
        self.dc = dc
        self.opf = res.get("f") is not None
        self.b = np.array(res["bus"], float); self.g = np.array(res["gen"], float); self.l = np.array(res["branch"], float)
        self.base, self.f, self.ok, self.et, self.fl, self.ctol = res["baseMVA"], res.get("f"), res["success"], res["et"], flowlim, ctol
        b, g, l = self.b, self.g, self.l
        if dc:
            b[:, [QD, BS]] = 0; g[:, [QG, QMAX, QMIN]] = 0; l[:, [BR_R, BR_B]] = 0
        self.row = {int(x[0]): x for x in b}
        self.isld = [x[PMIN] < 0 and x[PMAX] == 0 for x in g]
        on = [x[GEN_STATUS] > 0 for x in g]
        n = range(len(g))
        self.allg = [i for i in n if not self.isld[i]]
        self.ong = [i for i in n if on[i] and not self.isld[i]]
        self.onld = [i for i in n if on[i] and self.isld[i]]
        self.loss, self.fch, self.tch = [], [], []
        for x in l:
            V = {k: r[VM] * complex(math.cos(math.radians(r[VA])), math.sin(math.radians(r[VA]))) for k, r in self.row.items()}
            vf, vt = V[int(x[F_BUS])], V[int(x[T_BUS])]
            a = (x[TAP] or 1.) * complex(math.cos(math.radians(x[SHIFT])), math.sin(math.radians(x[SHIFT])))
            z = complex(x[BR_R], x[BR_X])
            if x[BR_STATUS] == 0 or 4 in (self.row[int(x[F_BUS])][BUS_TYPE], self.row[int(x[T_BUS])][BUS_TYPE]):
                self.loss.append(0j); self.fch.append(0.); self.tch.append(0.)
            else:
                self.loss.append(0j if dc else abs((vf / a - vt) / z) ** 2 * z * self.base)
                self.fch.append(abs(vf / a) ** 2 * x[BR_B] * self.base / 2); self.tch.append(abs(vt) ** 2 * x[BR_B] * self.base / 2)

    def area(self, n):
        return self.row[int(n)][BUS_AREA]

    def qlim(self, i):
        lo, hi = self.g[i, QMIN], self.g[i, QMAX]
        return hi if lo == 0 else lo if hi == 0 else 0.

    def groups(self):
        b = self.b
        fx = [x for x in b if x[PD] or x[QD]]
        sh = [x for x in b if x[GS] or x[BS]]
        return fx, sh

    def sys(self):
        b, g, l = self.b, self.g, self.l
        S = lambda rows, c: sum(x[c] for x in rows)
        G = lambda idx: [g[i] for i in idx]
        fx, sh = self.groups()
        ties = [i for i, x in enumerate(l) if self.area(x[F_BUS]) != self.area(x[T_BUS])]
        allg, ong, ld = G(self.allg), G(self.ong), G(self.onld)
        L = []
        L += [["Buses", len(b), "Total", "Gen", "Capacity", S(allg, PMAX), S(allg, QMIN), "to", S(allg, QMAX)],
              ["Generators", len(allg), "On-line", "Capacity", S(ong, PMAX), S(ong, QMIN), "to", S(ong, QMAX)],
              ["Committed", "Gens", len(ong), "Generation", "(actual)", S(ong, PG), S(ong, QG)],
              ["Loads", len(fx) + len(ld), "Load", S(fx, PD) - S(ld, PG), S(fx, QD) - S(ld, QG)],
              ["Fixed", len(fx), "Fixed", S(fx, PD), S(fx, QD)],
              ["Dispatchable", len(ld), "Dispatchable", -S(ld, PG), "of", -S(ld, PMIN), -S(ld, QG)],
              ["Shunts", len(sh), "Shunt", "(inj)", -sum(x[VM] ** 2 * x[GS] for x in sh), sum(x[VM] ** 2 * x[BS] for x in sh)],
              ["Branches", len(l), "Losses", "(I^2", "*", "Z)", sum(x.real for x in self.loss), sum(x.imag for x in self.loss)],
              ["Transformers", sum(1 for x in l if x[TAP]), "Branch", "Charging", "(inj)", "-", sum(self.fch) + sum(self.tch)],
              ["Inter-ties", len(ties), "Total", "Inter-tie", "Flow", sum(abs(l[i, PF] - l[i, PT]) for i in ties) / 2, sum(abs(l[i, QF] - l[i, QT]) for i in ties) / 2],
              ["Areas", len(set(b[:, BUS_AREA]))]]
        at = lambda c, f: ("@bus", c, f)
        E = [("Voltage Magnitude", VM), ("Voltage Angle", VA)] + ([("Lambda P", LAM_P), ("Lambda Q", LAM_Q)] if self.opf else [])
        return L, E

    def areas(self):
        b, g, l = self.b, self.g, self.l
        fx, sh = self.groups()
        T1, T2, T3, T4 = [], [], [], []
        for a in sorted(set(b[:, BUS_AREA])) + [None]:
            ina = (lambda n: True) if a is None else (lambda n: self.area(n) == a)
            gi = [i for i in self.allg if ina(g[i, 0])]
            go = [i for i in self.ong if ina(g[i, 0])]
            ld = [i for i in self.onld if ina(g[i, 0])]
            F = [x for x in fx if ina(x[0])]; SH = [x for x in sh if ina(x[0])]
            inner = [i for i, x in enumerate(l) if ina(x[F_BUS]) and ina(x[T_BUS])]
            tie = [i for i, x in enumerate(l) if (ina(x[F_BUS]) != ina(x[T_BUS]) if a is not None else self.area(x[F_BUS]) != self.area(x[T_BUS]))]
            h = "Tot:" if a is None else a
            T1.append([h, sum(1 for x in b if ina(x[0])), len(gi), len(go), len(F) + len(ld), len(F), len(ld), len(SH), len(inner), sum(1 for i in inner if l[i, TAP]), len(tie)])
            s = lambda idx, c: sum(g[i, c] for i in idx)
            T2.append([h, s(gi, PMAX), s(gi, QMIN), "to", s(gi, QMAX), s(go, PMAX), s(go, QMIN), "to", s(go, QMAX), s(go, PG), s(go, QG)])
            fp, fq = sum(x[PD] for x in F), sum(x[QD] for x in F)
            T3.append([h, -s(ld, PMIN), -sum(self.qlim(i) for i in ld), -s(ld, PG), -s(ld, QG), fp, fq, fp - s(ld, PG), fq - s(ld, QG)])
            if a is None:
                ch, lo, ex = sum(self.fch) + sum(self.tch), sum(self.loss), ["-", "-"]
            else:
                half = [i for i in tie]
                ch = sum((self.fch[i] if ina(l[i, F_BUS]) else 0) + (self.tch[i] if ina(l[i, T_BUS]) else 0) for i in range(len(l)))
                lo = sum(self.loss[i] for i in inner) + sum(self.loss[i] for i in tie) / 2
                e = sum(complex(l[i, PF], l[i, QF]) if ina(l[i, F_BUS]) else complex(l[i, PT], l[i, QT]) for i in tie if l[i, BR_STATUS]) - sum(self.loss[i] for i in tie) / 2
                ex = [complex(e).real, complex(e).imag]
            lo = complex(lo)
            T4.append([h, -sum(x[VM] ** 2 * x[GS] for x in SH), sum(x[VM] ** 2 * x[BS] for x in SH), ch, lo.real, lo.imag] + ex)
        return T1 + T2 + T3 + T4

    def lam(self, n):
        return [self.row[int(n)][LAM_P], self.row[int(n)][LAM_Q]] if self.opf else []

    def gens(self, idx, sign):
        g = self.g
        out = []
        for i in idx:
            pq = [sign * g[i, PG], sign * g[i, QG]] if g[i, PG] or g[i, QG] else ["-", "-"]
            out.append([i, g[i, 0], g[i, GEN_STATUS]] + pq + self.lam(g[i, 0]))
        return out + [["Total:", sign * sum(g[i, PG] for i in idx), sign * sum(g[i, QG] for i in idx)]]

    def buses(self):
        out = []
        tp = tq = lp = lq = 0.
        g = self.g
        for x in self.b:
            n = x[0]
            gi = [i for i in self.ong if g[i, 0] == n]; li = [i for i in self.onld if g[i, 0] == n]
            r = [n, x[VM], x[VA]] + (["*"] if x[BUS_TYPE] == 3 else [])
            r += [sum(g[i, PG] for i in gi), sum(g[i, QG] for i in gi)] if gi else ["-", "-"]
            if li:
                r += [x[PD] - sum(g[i, PG] for i in li), "*", x[QD] - sum(g[i, QG] for i in li), "*"]
            elif x[PD] or x[QD]:
                r += [x[PD], x[QD]]
            else:
                r += ["-", "-"]
            if self.opf:
                r += [x[LAM_P], x[LAM_Q] if abs(x[LAM_Q]) > PTOL else "-"]
            out.append(r)
            lp += x[PD]; lq += x[QD]
        return out + [["Total:", sum(g[i, PG] for i in self.ong), sum(g[i, QG] for i in self.ong), lp - sum(g[i, PG] for i in self.onld), lq - sum(g[i, QG] for i in self.onld)]]

    def branches(self):
        out = [[i, x[F_BUS], x[T_BUS], x[PF], x[QF], x[PT], x[QT], self.loss[i].real, self.loss[i].imag] for i, x in enumerate(self.l)]
        s = complex(sum(self.loss))
        return out + [["Total:", s.real, s.imag]]

    # constraints: [lower multiplier or -], lower, value, upper, [upper multiplier or -]
    def vlim(self, mode):
        if not self.opf or self.dc or not mode:
            return None
        c, out = self.ctol, []
        for x in self.b:
            lo = x[VM] < x[VMIN] + c or x[MU_VMIN] > PTOL
            hi = x[VM] > x[VMAX] - c or x[MU_VMAX] > PTOL
            if mode == 2 or lo or hi:
                out.append([x[0], x[MU_VMIN] if lo else "-", x[VMIN], x[VM], x[VMAX], x[MU_VMAX] if hi else "-"])
        return out if mode == 2 or out else None

    def glim(self, mode, idx, reactive):
        if not self.opf or not mode or (reactive and self.dc):
            return None
        val, lo_, hi_, ml, mh = (QG, QMIN, QMAX, MU_QMIN, MU_QMAX) if reactive else (PG, PMIN, PMAX, MU_PMIN, MU_PMAX)
        c, out = self.ctol, []
        for i in idx:
            x = self.g[i]
            lo = x[val] < x[lo_] + c or x[ml] > PTOL
            hi = x[val] > x[hi_] - c or x[mh] > PTOL
            if mode == 2 or lo or hi:
                out.append([i, x[0], x[ml] if lo else "-", x[lo_], x[val] if x[val] else "-", x[hi_], x[mh] if hi else "-"])
        return out if mode == 2 or out else None

    def llim(self, mode):
        if not self.opf or not mode:
            return None
        c, out = self.ctol, []
        for i, x in enumerate(self.l):
            vm = [self.row[int(x[F_BUS])][VM], self.row[int(x[T_BUS])][VM]]
            if self.fl == 1 or self.dc:
                F = [x[PF], x[PT]]
            else:
                F = [math.hypot(x[PF], x[QF]), math.hypot(x[PT], x[QT])]
                if self.fl == 2:
                    F = [F[0] / vm[0], F[1] / vm[1]]
            r = x[RATE_A]
            hit = [(r != 0 and abs(F[k]) > r - c) or x[MU_SF + k] > PTOL for k in (0, 1)]
            near = any(r != 0 and abs(abs(F[k]) - (r - c)) < 1e-9 * max(r, 1) and x[MU_SF + k] <= PTOL for k in (0, 1))
            if mode == 2 or any(hit) or near:
                # the multiplier column shows the multiplier, or a dash where there is nothing to show
                m = [("mu", x[MU_SF + k]) for k in (0, 1)]
                out.append(([i, x[F_BUS], m[0], F[0], r, F[1], m[1], x[T_BUS]], near and not any(hit) and mode != 2))
        return out if mode == 2 or any(not o for _, o in out) else ([] if out else None) and None


NUM = re.compile(r"^[-+]?(\d+\.?\d*|nan|inf)$")


def tok(line):
    return re.sub(r"(?<=\d)-(?=\d)", " -", line.replace("*", " * ")).split()


def same(t, w):
    if isinstance(w, tuple) and w[0] == "mu":
        return same(t, w[1]) or (t == "-" and abs(w[1]) <= PTOL)
    if isinstance(w, str):
        return t == w
    if not NUM.match(t):
        return False
    x = float(t)
    if not np.isfinite(w):
        return not np.isfinite(x)
    d = len(t.split(".")[1]) if "." in t else 0
    if d == 0 and float(w) != int(w):
        return False
    return abs(x - w) <= .5 * 10 ** -d * (1 + 1e-6) + 1e-9 * (1 + abs(w))


def blocks(text):
    """-> (header text, [(title, text)])"""
    lines = text.split("\n")
    idx = [i for i, s in enumerate(lines) if s.startswith("|") and s.endswith("|")]
    if not idx:
        return text, []
    head = "\n".join(lines[:idx[0] - 1])
    out = []
    for a, b in zip(idx, idx[1:] + [len(lines) + 1]):
        out.append((lines[a].strip("| "), "\n".join(lines[a + 2:b - 1])))
    return head, out


def rows(text):
    """table lines below each ruler"""
    out, live = [], False
    for s in text.split("\n"):
        if re.match(r"^\s*-+(\s+-+)+\s*$", s) and "--" in s:
            live = True
            continue
        if not s.strip():
            live = False
            continue
        if live:
            out.append(s)
    return out


def compare(r, key, name, text, want):
    got = [tok(s) for s in rows(text)]
    want_ = []
    for w in want:
        opt = False
        if isinstance(w, tuple):
            w, opt = w
        want_.append((w, opt))
    i = 0
    for w, opt in want_:
        if i < len(got) and len(got[i]) == len(w) and all(same(t, v) for t, v in zip(got[i], w)):
            i += 1
        elif not opt:
            r.bad(key + ":" + name, "%s: line %d reads %s, the results say %s" % (name, i, got[i] if i < len(got) else "(missing)", w))
            return False
    return r.expect(i == len(got), key + ":" + name, lambda: "%s: superfluous line %s" % (name, got[i]))


def sections(m, sel):
    """expected [(title, payload)] for a selection"""
    out = []
    if sel["SYS"]:
        out.append((SYS, None))
    if sel["AREA"]:
        out.append((AREA, m.areas()))
    if sel["GEN"]:
        out.append((GEN, m.gens(m.ong, 1)))
        if m.onld:
            out.append((DISP, m.gens(m.onld, -1)))
    if sel["BUS"]:
        out.append((BUS, m.buses()))
    if sel["BRANCH"]:
        out.append((BRANCH, m.branches()))
    v = m.vlim(sel["V"])
    if v is not None:
        out.append((VLIM, v))
    for title, idx in ((GLIM, m.ong), (DLIM, m.onld)):
        a, b = m.glim(sel["PG"], idx, 0), m.glim(sel["QG"], idx, 1)
        if a is not None or b is not None:
            out.append((title, (a or []) + (b or [])))
    l = m.llim(sel["LINE"])
    if l is not None:
        out.append((LLIM, l))
    return out


def verify(r, key, text, m, sel):
    """parse one report and compare it with the model; returns {title: block text}"""
    exp = sections(m, sel)
    head, blk = blocks(text)
    titles = [t for t, _ in exp]
    # an empty box is tolerated
    got = [(t, s) for t, s in blk if t in titles or rows(s)]
    if not r.expect([t for t, _ in got] == titles, key + ":sections", lambda: "sections %s, expected %s" % ([t for t, _ in got], titles)):
        return None
    ok = True
    hd = head.strip().split("\n") if head.strip() else []
    want = (["Converged", "in", m.et, "seconds"] if m.ok else ["Did", "not", "converge", m.et, "seconds"])
    h0 = hd[0].replace("(", " ").replace(")", " ").split() if hd else []
    ok &= r.expect(len(h0) == len(want) and all(same(t, w) for t, w in zip(h0, want)), key + ":header", lambda: "header %r, success=%s" % (head, m.ok))
    rest = [x for x in hd[1:] if x.strip()]
    if m.opf:
        ok &= r.expect(len(rest) == 1 and rest[0].startswith("Objective Function Value = ") and same(rest[0].split()[4], m.f), key + ":objective", lambda: "objective line %s, results say %r" % (rest, m.f))
    else:
        ok &= r.expect(not rest, key + ":objective", lambda: "unexpected %s" % rest)
    for (t, s), (_, w) in zip(got, exp):
        if t == SYS:
            ok &= check_sys(r, key, s, m)
        else:
            ok &= compare(r, key, t, s, w)
    return {t: s for t, s in got}


def check_sys(r, key, text, m):
    L, E = m.sys()
    lines = [s.split() for s in text.split("\n") if s.strip()]
    for w in L:
        hit = [s for s in lines if len(s) == len(w) and all(same(t, v) for t, v in zip(s, w))]
        if not r.expect(len(hit) == 1, key + ":sys:" + str(w[0]), lambda: "summary line should read %s, report: %s" % (w, [s for s in lines if s[0] == w[0]])):
            return False
    for nm, c in E:
        s = [x for x in text.split("\n") if x.startswith(nm)]
        z = re.findall(r"(-?[\d.]+|nan)\s+\S+\s+@ bus (\d+)", s[0]) if s else []
        if not r.expect(len(z) == 2, key + ":sys:" + nm, lambda: "line %s missing or unreadable: %s" % (nm, s)):
            return False
        col = m.b[:, c]
        for (v, n), ext in zip(z, (np.min(col), np.max(col))):
            row = m.row.get(int(n))
            r.expect(row is not None and same(v, ext) and abs(row[c] - ext) <= 1e-9, key + ":sys:" + nm, "%s: %s @ bus %s, results say %r at %s" % (nm, v, n, ext, [int(x[0]) for x in m.b if x[c] == ext]))
    for nm, part in (("P Losses", "real"), ("Q Losses", "imag")):
        s = [x for x in text.split("\n") if x.startswith(nm)]
        if m.dc:
            r.expect(not s, key + ":sys:" + nm, "losses reported for a DC solution")
            continue
        v = [getattr(x, part) for x in m.loss]
        if not v:
            continue
        z = re.findall(r"(-?[\d.]+|nan)\s+\S+\s+@ line (\d+)-(\d+)", s[0]) if s else []
        if not r.expect(len(z) == 1, key + ":sys:" + nm, "%s: %s" % (nm, s)):
            return False
        t, a, b = z[0]
        r.expect(same(t, max(v)) and any(int(x[0]) == int(a) and int(x[1]) == int(b) and abs(v[i] - max(v)) < 1e-9 * (1 + abs(max(v))) for i, x in enumerate(m.l)), key + ":sys:" + nm, "largest loss %s @ %s-%s, results say %r" % (t, a, b, max(v)))
    for nm, on in (("Lambda P", m.opf), ("Lambda Q", m.opf)):
        r.expect(any(x.startswith(nm) for x in text.split("\n")) == on, key + ":sys:" + nm, "line %s" % ("missing" if on else "printed for a power flow"))
    return True


ALL = dict(SYS=1, AREA=1, GEN=1, BUS=1, BRANCH=1, V=2, PG=2, QG=2, LINE=2)
OPT = dict(SYS="OUT_SYS_SUM", AREA="OUT_AREA_SUM", GEN="OUT_GEN", BUS="OUT_BUS", BRANCH="OUT_BRANCH", V="OUT_V_LIM", LINE="OUT_LINE_LIM", PG="OUT_PG_LIM", QG="OUT_QG_LIM")


def selections():
    """complete matrix of output switches -> (option values, effective selection)"""
    S = ["SYS", "AREA", "GEN", "BUS", "BRANCH"]
    Lm = ["V", "LINE", "PG", "QG"]
    out = [(dict(OUT_ALL=1), ALL)]
    for s in itertools.product((0, 1), repeat=5):
        d = {OPT[k]: bool(v) for k, v in zip(S, s)}
        sel = dict(zip(S, s))
        for m in (0, 1, 2):
            out.append((dict(d, OUT_ALL=-1, OUT_ALL_LIM=m), dict(sel, V=m, LINE=m, PG=m, QG=m)))
        for q in itertools.product((0, 1, 2), repeat=4):
            e = {OPT[k]: v for k, v in zip(Lm, q)}
            out.append((dict(d, OUT_ALL=-1, OUT_ALL_LIM=-1, **e), dict(sel, **dict(zip(Lm, q)))))
    return out


SEL = selections()


def show(res, opt):
    from pypower.printpf import printpf
    f = io.StringIO()
    printpf(res, f, opt)
    return f.getvalue()


def digest(res):
    return canon([{k: (v if not isinstance(v, dict) else sorted(map(str, v))) for k, v in res.items() if isinstance(v, (int, float, bool, np.ndarray, np.generic, dict, str, type(None)))}])


def run(item):
    r = Result()
    r.states.add(canon(item))
    p = make(item)
    if p is None:
        r.tag("no_such_edit"); return r
    an = item["an"]
    key = "%s:%s:%s" % (item["net"], an, ";".join("_".join(map(str, e)) for e in item["edits"]))
    try:
        res = analyse(an, api.clone(p))
    except CaseTimeout:
        raise
    except Exception as e:
        r.tag("analysis_raised:%s:%s" % (type(e).__name__, an)); return r
    r.evals += 1
    dc = an.startswith("dc")
    fl = KINDS[an].get("OPF_FLOW_LIM", 0)
    r.tag("solved" if res["success"] else "failed")
    big = max([float(np.nanmax(np.abs(res[t]), initial=0.)) for t in ("bus", "gen", "branch")] + [abs(res.get("f") or 0.)])
    wide = [np.abs(res[t][:, c]) for t, cs in (("bus", range(13, 17)), ("gen", range(21, 25)), ("branch", range(17, 19))) for c in cs if c < res[t].shape[1] and len(res[t])]
    if big > 5e4 or (wide and max(float(np.max(x)) for x in wide) > 900) or not all(np.all(np.isfinite(res[t])) for t in ("bus", "gen", "branch")):
        # columns overflow: only demand that printing works and changes nothing
        h = digest(res)
        t = show(res, api.opts(OUT_ALL=1, PF_DC=dc, OPF_FLOW_LIM=fl))
        r.expect(len(t) > 500 and digest(res) == h, key + ":overflow", "printing very large values fails or changes them")
        r.tag("overflow"); r.evals += 1
        return r
    for ok, et in [(res["success"], res["et"])]:
        m = Model(res, dc, fl, 5e-6)
        mk_ = lambda **o: api.opts(**dict(dict(PF_DC=dc, OPF_FLOW_LIM=fl), **o))
        h = digest(res)
        text = {}
        verified = {}
        probe = [(dict(OUT_ALL=1), ALL), (dict(OUT_ALL=-1, OUT_ALL_LIM=1, OUT_GEN=True, OUT_AREA_SUM=True), dict(ALL, V=1, PG=1, QG=1, LINE=1))]
        for o, sel in probe:
            oo = mk_(**o)
            ho = dict(oo)
            t = show(res, oo)
            r.evals += 1
            r.expect(oo == ho, key + ":opt", "printing changes the options")
            b = verify(r, key + ":" + str(o.get("OUT_ALL_LIM", "all")), t, m, sel)
            if b is None:
                return r
            mode = 2 if sel is ALL else 1
            for ti, s in b.items():
                verified[ti, mode] = s
            text[mode] = t
        r.validated += 1
        r.expect(digest(res) == h, key + ":changed", "printing changes the results")
        # the same report through the other calling forms
        from pypower.printpf import printpf
        f = io.StringIO()
        printpf(res["baseMVA"], res["bus"], res["gen"], res["branch"], res.get("f"), res["success"], res["et"], f, mk_(OUT_ALL=1))
        if "userfcn" not in res:
            r.expect(f.getvalue() == text[2], key + ":form", "positional form prints another report")
        mark = sys.stdout.tell()
        printpf(res)
        a = sys.stdout.getvalue()[mark:]
        mark = sys.stdout.tell()
        printpf(res["baseMVA"], res["bus"], res["gen"], res["branch"], res.get("f"), res["success"], res["et"])
        b = sys.stdout.getvalue()[mark:]
        f = io.StringIO()
        printpf(res, f)
        from pypower.ppoption import ppoption
        c = show(res, ppoption())
        r.evals += 5
        r.expect(a == c and f.getvalue() == c and b == c, key + ":default", "default stream or options print another report")
        r.expect(show(res, mk_(OUT_ALL=0)) == "", key + ":none", "OUT_ALL=0 prints")
        # what the analysis itself prints
        mark = sys.stdout.tell()
        res2 = analyse(an, api.clone(p), dict(OUT_ALL=1))
        t = sys.stdout.getvalue()[mark:]
        cut = lambda s: re.sub(r"\d+\.\d\d seconds", "T seconds", s)
        r.evals += 1
        r.expect(cut(t).strip() == cut(text[2]).strip(), key + ":run", "the analysis prints another report than printpf of its results")
        if item["k"] == "one":
            continue
        full = SEL if item["k"] == "matrix" else [x for i, x in enumerate(SEL) if x[1]["AREA"] == x[1]["GEN"] and x[1]["BUS"] == x[1]["BRANCH"]]
        for o, sel in full[item["part"]::item["of"]]:
            t = show(res, mk_(**o))
            r.evals += 1
            head, blk = blocks(t)
            exp = sections_fast(m, sel)
            got = [(ti, s) for ti, s in blk if ti in [e[0] for e in exp] or rows(s)]
            k2 = key + ":" + ",".join("%s%d" % (a, int(b)) for a, b in sorted(sel.items()))
            if not r.expect([x for x, _ in got] == [e[0] for e in exp], k2, lambda: "sections %s, expected %s" % ([x for x, _ in got], [e[0] for e in exp])):
                return r
            if not any(sel.values()):
                r.expect(t == "" or o.get("OUT_ALL") == 1, k2, "everything switched off, yet the report reads %r" % t)
            elif exp:
                r.expect(head.strip() == blocks(text[2])[0].strip(), k2, "header differs: %r" % head)
            for (ti, s), (_, modes) in zip(got, exp):
                if len(modes) == 1 or len(set(modes)) == 1:
                    r.expect(s == verified.get((ti, modes[0])), k2, "block %s differs from the verified one" % ti)
                else:
                    # mixed P and Q modes: the tables must be those of the verified blocks
                    i = m.ong if ti == GLIM else m.onld
                    compare(r, k2, ti, s, (m.glim(modes[0], i, 0) or []) + (m.glim(modes[1], i, 1) or []))
        r.tag("matrix")
    r.sample = {"item": item}
    return r


def sections_fast(m, sel):
    if not hasattr(m, "_p"):
        m._p = {}
        for k in (0, 1, 2):
            m._p[VLIM, k] = m.vlim(k) is not None
            m._p[LLIM, k] = m.llim(k) is not None
            for t, i in ((GLIM, m.ong), (DLIM, m.onld)):
                m._p[t, k, 0] = m.glim(k, i, 0) is not None
                m._p[t, k, 1] = m.glim(k, i, 1) is not None
    out = [(t, [2]) for t, k in ((SYS, "SYS"), (AREA, "AREA")) if sel[k]]
    if sel["GEN"]:
        out.append((GEN, [2]))
        if m.onld:
            out.append((DISP, [2]))
    out += [(t, [2]) for t, k in ((BUS, "BUS"), (BRANCH, "BRANCH")) if sel[k]]
    if m._p[VLIM, sel["V"]]:
        out.append((VLIM, [sel["V"]]))
    for t in (GLIM, DLIM):
        if m._p[t, sel["PG"], 0] or m._p[t, sel["QG"], 1]:
            out.append((t, [sel["PG"], sel["QG"]]))
    if m._p[LLIM, sel["LINE"]]:
        out.append((LLIM, [sel["LINE"]]))
    return out
