"""Independent reference physics, written bus by bus / branch by branch from the circuit
equations (no code shared with the tree under test, dense python loops only)."""
import cmath, math
import numpy as np
from mc.space import *


def energised(p):
    """external bus numbers that take part: not type NONE"""
    return set(int(b) for b, t in zip(p["bus"][:, BUS_I], p["bus"][:, BUS_TYPE]) if t != NONE)


def live_gens(p):
    on = energised(p)
    return [i for i, g in enumerate(p["gen"]) if g[GEN_STATUS] > 0 and int(g[GEN_BUS]) in on]


def live_branches(p):
    on = energised(p)
    return [i for i, r in enumerate(p["branch"]) if r[BR_STATUS] != 0 and int(r[F_BUS]) in on and int(r[T_BUS]) in on]


def volts(p):
    return {int(r[BUS_I]): cmath.rect(r[VM], math.radians(r[VA])) for r in p["bus"]}


def two_port(row, vf, vt):
    """complex currents entering the branch at its from and to ends (pi model, ideal
    phase-shifting transformer at the from end)"""
    ys = 1 / complex(row[BR_R], row[BR_X])
    ratio = row[TAP] if row[TAP] != 0 else 1.0
    n = cmath.rect(ratio, math.radians(row[SHIFT]))
    vp = vf / n                                   # voltage behind the transformer
    ip = (vp - vt) * ys + vp * complex(0, row[BR_B] / 2)
    it = (vt - vp) * ys + vt * complex(0, row[BR_B] / 2)
    return ip / n.conjugate(), it


def branch_flow(row, V, base):
    vf, vt = V[int(row[F_BUS])], V[int(row[T_BUS])]
    i_f, i_t = two_port(row, vf, vt)
    return vf * i_f.conjugate() * base, vt * i_t.conjugate() * base


def injections(p, V=None):
    """complex MVA flowing out of each energised bus into network (branches + shunts)"""
    V = V or volts(p)
    base = p["baseMVA"]
    inj = {b: 0j for b in energised(p)}
    for i in live_branches(p):
        sf, st = branch_flow(p["branch"][i], V, base)
        inj[int(p["branch"][i, F_BUS])] += sf
        inj[int(p["branch"][i, T_BUS])] += st
    for r in p["bus"]:
        b = int(r[BUS_I])
        if b in inj:
            inj[b] += abs(V[b]) ** 2 * complex(r[GS], -r[BS])
    return inj


def spec_injection(p):
    """gen - load per energised bus (MVA)"""
    s = {int(r[BUS_I]): -complex(r[PD], r[QD]) for r in p["bus"] if r[BUS_TYPE] != NONE}
    for i in live_gens(p):
        g = p["gen"][i]
        s[int(g[GEN_BUS])] += complex(g[PG], g[QG])
    return s


def effective_types(p):
    """bus roles a power flow must use: PV/REF only with a live generator; if no reference is
    left the first PV bus takes over.  Returns dict bus-> 'ref'|'pv'|'pq' or None if there is
    no voltage-controlled bus at all."""
    lg = live_gens(p)
    has = set(int(p["gen"][i, GEN_BUS]) for i in lg)
    role = {}
    for r in p["bus"]:
        b = int(r[BUS_I])
        if r[BUS_TYPE] == NONE:
            continue
        if r[BUS_TYPE] == REFT and b in has:
            role[b] = "ref"
        elif r[BUS_TYPE] == PVT and b in has:
            role[b] = "pv"
        else:
            role[b] = "pq"
    if "ref" not in role.values():
        pv = [int(r[BUS_I]) for r in p["bus"] if role.get(int(r[BUS_I])) == "pv"]
        if not pv:
            return None
        role[pv[0]] = "ref"
    return role


def components(p):
    """connected components of the live network (sets of bus numbers)"""
    on = energised(p)
    par = {b: b for b in on}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for i in live_branches(p):
        a, b = find(int(p["branch"][i, F_BUS])), find(int(p["branch"][i, T_BUS]))
        par[a] = b
    comp = {}
    for b in on:
        comp.setdefault(find(b), set()).add(b)
    return list(comp.values())


def ybus_dense(p, order):
    """nodal admittance matrix by probing: column j = currents for unit voltage at bus j"""
    n = len(order)
    Y = np.zeros((n, n), complex)
    pos = {b: i for i, b in enumerate(order)}
    for i in live_branches(p):
        row = p["branch"][i]
        f, t = pos[int(row[F_BUS])], pos[int(row[T_BUS])]
        a, b = two_port(row, 1., 0.)
        c, d = two_port(row, 0., 1.)
        Y[f, f] += a; Y[t, f] += b; Y[f, t] += c; Y[t, t] += d
    for r in p["bus"]:
        if int(r[BUS_I]) in pos:
            Y[pos[int(r[BUS_I])], pos[int(r[BUS_I])]] += complex(r[GS], r[BS]) / p["baseMVA"]
    return Y


def newton_reference(p, role, tol=1e-9, maxit=12, condmax=1e4):
    """dense reference Newton in polar form with a numerically exact jacobian built from
    elementary partial derivatives.  Returns (ok, V dict, iterations)."""
    order = [int(r[BUS_I]) for r in p["bus"] if int(r[BUS_I]) in role]
    Y = ybus_dense(p, order)
    n = len(order)
    rows = {int(r[BUS_I]): r for r in p["bus"]}
    vset = {}
    for i in live_gens(p):
        vset[int(p["gen"][i, GEN_BUS])] = p["gen"][i, VG]
    vm = np.array([rows[b][VM] for b in order]); va = np.radians([rows[b][VA] for b in order])
    for i, b in enumerate(order):
        if b in vset and (role[b] in ("pv", "ref")):
            vm[i] = vset[b]
    spec = spec_injection(p)
    S = np.array([spec[b] for b in order]) / p["baseMVA"]
    ip = [i for i, b in enumerate(order) if role[b] != "ref"]
    iq = [i for i, b in enumerate(order) if role[b] == "pq"]
    for it in range(maxit + 1):
        V = vm * np.exp(1j * va)
        I = Y.dot(V)
        mis = V * I.conj() - S
        F = np.r_[mis[ip].real, mis[iq].imag]
        if not np.all(np.isfinite(F)):
            return False, None, it
        if len(F) == 0 or np.max(np.abs(F)) < tol:
            return True, {b: V[i] for i, b in enumerate(order)}, it
        J = np.zeros((len(F), len(F)))
        for c, j in enumerate(ip):
            for r, i in enumerate(ip):
                d = V[i] * (Y[i, j] * 1j * V[j]).conjugate() + (1j * V[i] * I[i].conjugate() if i == j else 0)
                J[r, c] = d.real
            for r, i in enumerate(iq):
                d = V[i] * (Y[i, j] * 1j * V[j]).conjugate() + (1j * V[i] * I[i].conjugate() if i == j else 0)
                J[len(ip) + r, c] = d.imag
        for c, j in enumerate(iq):
            u = V[j] / abs(V[j])
            for r, i in enumerate(ip):
                d = V[i] * (Y[i, j] * u).conjugate() + (u * I[i].conjugate() if i == j else 0)
                J[r, len(ip) + c] = d.real
            for r, i in enumerate(iq):
                d = V[i] * (Y[i, j] * u).conjugate() + (u * I[i].conjugate() if i == j else 0)
                J[len(ip) + r, len(ip) + c] = d.imag
        try:
            if np.linalg.cond(J) > condmax:
                return False, None, it
            dx = np.linalg.solve(J, -F)
        except np.linalg.LinAlgError:
            return False, None, it
        va[ip] += dx[:len(ip)]
        vm[iq] += dx[len(ip):]
    return False, None, maxit
