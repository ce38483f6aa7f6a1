"""Complete active-set enumeration for small convex QPs
        min .5 x'Hx + c'x   s.t.  l <= Ax <= u,  xmin <= x <= xmax
(independent of the tree under test).  solve() -> (kind, f, x, X) with kind one of 'infeasible', 'unbounded',
'optimal'."""
import itertools
import numpy as np

TOL = 1e-9


def rows(n, A, l, u, xmin, xmax):
    """-> (G, h) inequalities G x <= h, (E, d) equalities; each list complete"""
    G, h, E, d = [], [], [], []
    lim = [(np.eye(n)[i], xmin[i], xmax[i]) for i in range(n)] + [(A[i], l[i], u[i]) for i in range(len(A))]
    for a, lo, hi in lim:
        if lo == hi:
            E.append(a); d.append(lo); continue
        if hi < 1e10:
            G.append(a); h.append(hi)
        if lo > -1e10:
            G.append(-a); h.append(-lo)
    f = lambda m: np.array(m, float).reshape(-1, n)
    return f(G), np.array(h, float), f(E), np.array(d, float)


def _null(M, n):
    if len(M) == 0:
        return np.eye(n)
    u, s, vt = np.linalg.svd(M)
    rank = int((s > 1e-9).sum())
    return vt[rank:].T


def solve(H, c, A, l, u, xmin, xmax):
    n = len(c)
    G, h, E, d = rows(n, A, l, u, xmin, xmax)
    subsets = [list(s) for k in range(min(n, len(G)) + 1) for s in itertools.combinations(range(len(G)), k)]

    def feas(x):
        return (not len(G) or (G.dot(x) <= h + TOL * (1 + np.abs(h))).all()) and (not len(E) or (np.abs(E.dot(x) - d) <= TOL * (1 + np.abs(d))).all())
    # feasibility: every non-empty polyhedron has a minimal face which is an affine set
    some = None
    for s in subsets:
        M, b = np.vstack([E, G[s]]), np.r_[d, h[s]]
        x = np.linalg.lstsq(M, b, rcond=None)[0] if len(M) else np.zeros(n)
        if feas(x):
            some = x; break
    if some is None:
        return "infeasible", None, None, None
    # unboundedness: descent direction in the recession cone
    lineal = _null(np.vstack([E, G, H]), n)
    if lineal.size and np.abs(c.dot(lineal)).max() > TOL:
        return "unbounded", None, None, None
    base = np.vstack([E, H, lineal.T])
    for s in subsets:
        N = _null(np.vstack([base, G[s]]), n)
        if N.shape[1] == 1:
            for dd in (N[:, 0], -N[:, 0]):
                if (not len(G) or (G.dot(dd) <= TOL).all()) and c.dot(dd) < -TOL:
                    return "unbounded", None, None, None
    # optimum: stationary points of all faces
    best, bx, pts = np.inf, None, []
    for s in subsets:
        M, b = np.vstack([E, G[s]]), np.r_[d, h[s]]
        K = np.vstack([np.hstack([H, M.T]), np.hstack([M, np.zeros((len(M), len(M)))])])
        rhs = np.r_[-c, b]
        z = np.linalg.lstsq(K, rhs, rcond=None)[0]
        if np.abs(K.dot(z) - rhs).max() > 1e-8:
            continue
        x = z[:n]
        if feas(x):
            f = .5 * x.dot(H).dot(x) + c.dot(x)
            if f < best - 1e-12:
                best, bx = f, x
    if bx is None:
        raise AssertionError("no stationary face of a bounded feasible QP")
    return "optimal", best, bx, (G, h, E, d)
