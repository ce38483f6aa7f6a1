"""Exact first and second derivatives of network quantities, assembled element by element
from the product rule (dense, no code shared with the tree under test).

x = (Va_1..Va_n, Vm_1..Vm_n), V_i = Vm_i exp(j Va_i)."""
import numpy as np


def dvolt(V):
    """DV[i, k] = dV_i / dx_k ; D2[i] = 2x2 second derivatives of V_i by (Va_i, Vm_i)"""
    n = len(V)
    vm, u = np.abs(V), V / np.abs(V)
    D = np.zeros((n, 2 * n), complex)
    H = np.zeros((n, 2 * n, 2 * n), complex)
    for i in range(n):
        D[i, i] = 1j * V[i]; D[i, n + i] = u[i]
        H[i, i, i] = -V[i]; H[i, i, n + i] = H[i, n + i, i] = 1j * u[i]
    return D, H


def lin(b, V, D=None, H=None):
    """value, gradient, hessian of b.V"""
    if D is None:
        D, H = dvolt(V)
    return b.dot(V), b.dot(D), np.tensordot(b, H, 1)


def power(i, b, V, D=None, H=None):
    """value, gradient, hessian of V_i conj(b.V)"""
    if D is None:
        D, H = dvolt(V)
    I, dI, hI = lin(b, V, D, H)
    I, dI, hI = np.conj(I), np.conj(dI), np.conj(hI)
    g = D[i] * I + V[i] * dI
    h = H[i] * I + np.outer(D[i], dI) + np.outer(dI, D[i]) + V[i] * hI
    return V[i] * I, g, h


def sq(z, g, h, part="abs"):
    """value, gradient, hessian of |z|^2 (or Re(z)^2)"""
    if part == "real":
        z, g, h = z.real, g.real, h.real
        return z * z, 2 * z * g, 2 * (np.outer(g, g) + z * h)
    return abs(z) ** 2, 2 * (np.conj(z) * g).real, 2 * (np.conj(z) * h + np.outer(g, np.conj(g))).real
