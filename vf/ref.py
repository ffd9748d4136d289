# -*- coding: utf-8 -*-
"""Independent reference: 3-D Euler-Bernoulli frames by dense linear algebra.

Nothing here calls the code under test.  Element matrices come from Gauss
integration of the interpolation polynomials, member loads from integrating
load times shape function, end releases from extra unknowns (not condensation).
"""
import numpy as np

_G = np.polynomial.legendre.leggauss(6)
GX, GW = (_G[0] + 1) / 2, _G[1] / 2


def rodrigues(v, k, th):
    k = np.asarray(k, float) / np.linalg.norm(k)
    return v * np.cos(th) + np.cross(k, v) * np.sin(th) + k * np.dot(k, v) * (1 - np.cos(th))


def rot_matrix(axis, th):
    """Matrix R with R @ v = v rotated by th about axis (right-handed)."""
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    Kx = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(th) * Kx + (1 - np.cos(th)) * Kx @ Kx


def beam_axes(a, b, rot=0.0):
    """Rows: local x (a->b), y, z.  Non-vertical: y lies in the vertical plane
    through the member and points up.  Vertical: y is the global X axis.
    Then rotated by `rot` about local x."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    x = (b - a) / np.linalg.norm(b - a)
    up = np.array([0.0, 0, 1])
    if abs(x[0]) < 1e-9 and abs(x[1]) < 1e-9:
        up = np.array([1.0, 0, 0])
    y = up - np.dot(up, x) * x
    y /= np.linalg.norm(y)
    z = np.cross(x, y)
    if rot:
        y, z = rodrigues(y, x, rot), rodrigues(z, x, rot)
    return np.array([x, y, z])


def blocks(R, n):
    T = np.zeros((3 * n, 3 * n))
    for i in range(n):
        T[3 * i:3 * i + 3, 3 * i:3 * i + 3] = R
    return T


def N_matrix(xi, L):
    """Rows: axial u, deflection v (axis 2), deflection w (axis 3), twist, at xi."""
    h = [1 - 3 * xi**2 + 2 * xi**3, L * (xi - 2 * xi**2 + xi**3), 3 * xi**2 - 2 * xi**3, L * (xi**3 - xi**2)]
    N = np.zeros((4, 12))
    N[0, 0], N[0, 6] = 1 - xi, xi
    N[1, 1], N[1, 5], N[1, 7], N[1, 11] = h
    N[2, 2], N[2, 4], N[2, 8], N[2, 10] = h[0], -h[1], h[2], -h[3]
    N[3, 3], N[3, 9] = 1 - xi, xi
    return N


def slope_matrix(xi, L):
    """Rows: rotation about axis 2 (= -dw/dx), rotation about axis 3 (= dv/dx)."""
    d = [(-6 * xi + 6 * xi**2) / L, 1 - 4 * xi + 3 * xi**2, (6 * xi - 6 * xi**2) / L, 3 * xi**2 - 2 * xi]
    S = np.zeros((2, 12))
    S[1, 1], S[1, 5], S[1, 7], S[1, 11] = d
    S[0, 2], S[0, 4], S[0, 8], S[0, 10] = -d[0], d[1], -d[2], d[3]
    return S


def beam_K(E, G, A, I2, I3, J, L):
    K = np.zeros((12, 12))
    for xi, w in zip(GX, GW):
        c = [(-6 + 12 * xi) / L**2, (-4 + 6 * xi) / L, (6 - 12 * xi) / L**2, (6 * xi - 2) / L]
        B = np.zeros((4, 12))
        B[0, 0], B[0, 6] = -1 / L, 1 / L
        B[1, 1], B[1, 5], B[1, 7], B[1, 11] = c
        B[2, 2], B[2, 4], B[2, 8], B[2, 10] = c[0], -c[1], c[2], -c[3]
        B[3, 3], B[3, 9] = -1 / L, 1 / L
        K += w * L * B.T @ np.diag([E * A, E * I3, E * I2, G * J]) @ B
    return K


def beam_M_consistent(rho, A, J, L):
    M = np.zeros((12, 12))
    for xi, w in zip(GX, GW):
        N = N_matrix(xi, L)
        M += w * L * N.T @ np.diag([rho * A, rho * A, rho * A, rho * J]) @ N
    return M


def beam_M_lumped(rho, A, L):
    m = rho * A * L / 2
    return np.diag([m, m, m, 1e-12, 1e-12, 1e-12] * 2)


def dist_f(q, L):
    """q = pi,pj,qi2,qj2,qi3,qj3,ti,tj: linearly varying along the member."""
    f = np.zeros(12)
    for xi, w in zip(GX, GW):
        v = [q[0] * (1 - xi) + q[1] * xi, q[2] * (1 - xi) + q[3] * xi,
             q[4] * (1 - xi) + q[5] * xi, q[6] * (1 - xi) + q[7] * xi]
        f += w * L * N_matrix(xi, L).T @ v
    return f


def conc_f(F, r, L):
    """F = F1,F2,F3,M1,M2,M3 at relative location r."""
    return N_matrix(r, L).T @ np.array([F[0], F[1], F[2], F[3]]) + slope_matrix(r, L).T @ np.array([F[4], F[5]])


class Frame:
    """nodes: list of xyz; beams: list of dict(i,j,E,G,A,I2,I3,J,rho,rot,rel)."""

    def __init__(self, nodes, beams, shells=()):
        self.X = np.asarray(nodes, float)
        self.beams = beams
        self.n = len(nodes)
        self.nu = 6 * self.n
        self.extra = []
        self.load_size = 0.0
        self.G, self.k, self.L, self.T, self.R = [], [], [], [], []
        for b in beams:
            a, c = self.X[b["i"]], self.X[b["j"]]
            L = np.linalg.norm(c - a)
            R = beam_axes(a, c, b.get("rot", 0.0))
            T = blocks(R, 4)
            self.L.append(L)
            self.R.append(R)
            self.T.append(T)
            self.k.append(beam_K(b["E"], b["G"], b["A"], b["I2"], b["I3"], b["J"], L))
            ex = []
            for d in range(12):
                if b.get("rel") and b["rel"][d]:
                    ex.append((d, self.nu))
                    self.nu += 1
            self.extra.append(ex)
        for b, T, ex in zip(beams, self.T, self.extra):
            G = np.zeros((12, self.nu))
            G[:, 6 * b["i"]:6 * b["i"] + 6] = T[:, :6]
            G[:, 6 * b["j"]:6 * b["j"] + 6] += T[:, 6:]
            for d, col in ex:
                G[d, :] = 0
                G[d, col] = 1
            self.G.append(G)
        self.K = np.zeros((self.nu, self.nu))
        for G, k in zip(self.G, self.k):
            self.K += G.T @ k @ G

    def member_f(self, b, loads):
        f = np.zeros(12)
        for q in loads.get("dist", []):
            if q[0] == b:
                f += dist_f(q[1], self.L[b])
        for q in loads.get("conc", []):
            if q[0] == b:
                f += conc_f(q[1], q[2], self.L[b])
        return f

    def load_vector(self, loads):
        F = np.zeros(self.nu)
        size = np.zeros(self.nu)                 # of the loads, before they cancel
        for nd, v in loads.get("nodal", []):
            F[6 * nd:6 * nd + 6] += v
            size[6 * nd:6 * nd + 6] += np.abs(v)
        for b in range(len(self.beams)):
            f = self.member_f(b, loads)
            F += self.G[b].T @ f
            size += np.abs(self.G[b]).T @ np.abs(f)
            if self.beams[b].get("rel") and any(self.beams[b]["rel"]):   # what a released end takes leaves rounding at the nodes
                m = np.abs(f).reshape(4, 3)
                p, q = max(m[0].max(), m[2].max()), max(m[1].max(), m[3].max())
                for e in (self.beams[b]["i"], self.beams[b]["j"]):
                    size[6 * e:6 * e + 6] += [p + q / self.L[b]] * 3 + [p * self.L[b] + q] * 3
        self.load_size = np.maximum(self.load_size, size)
        return F

    def solve(self, loads, fixed):
        """loads: dict; fixed: set of restrained global DOFs."""
        F = self.load_vector(loads)
        free = [i for i in range(self.nu) if i not in fixed]
        u = np.zeros(self.nu)
        if not free:                             # fully restrained: nothing moves
            self.cond, self.u = 1.0, u
            return u[:6 * self.n]
        if self.loose(free):
            return None
        Kff = self.K[np.ix_(free, free)]
        s = 1 / np.sqrt(np.abs(np.diag(Kff)) + 1e-300)
        A = Kff * s[:, None] * s[None, :]
        c = np.linalg.cond(A)
        self.cond = c
        if not c < 1e12:
            return None
        u[free] = s * np.linalg.solve(A, s * F[free])
        self.u = u
        top = np.max(self.load_size) * (1 + max(self.L) + 1 / min(self.L))
        if max(np.max(np.abs(k @ (G @ u))) for k, G in zip(self.k, self.G)) > 1e4 * top:
            return None                          # next to a mechanism: forces far beyond the loads
        return u[:6 * self.n]

    def loose(self, free, K=None):
        """Is a free DOF of a node held by nothing but rounding (an axis turned
        by pi/2 leaves 1e-16 behind)?  Scaling by the diagonal would hide it."""
        d = np.abs(np.diag(self.K if K is None else K)[:6 * self.n])
        for part in (np.arange(6 * self.n) % 6 < 3, np.arange(6 * self.n) % 6 >= 3):
            top = np.max(np.abs(np.diag(self.K)[:6 * self.n])[part])
            top = max([top] + [np.max(np.abs(np.diag(k)).reshape(4, 3)[0 if part[0] else 1]) for k in self.k])
            if any(part[i] and d[i] < 1e-9 * top for i in free if i < 6 * self.n):
                return True
        return False

    def end_force(self, b, loads):
        return self.k[b] @ (self.G[b] @ self.u) - self.member_f(b, loads)

    def condensed_K(self):
        """Nodal stiffness with the released ends eliminated."""
        n = 6 * self.n
        if self.nu == n:
            return self.K
        a, b, c = self.K[:n, :n], self.K[:n, n:], self.K[n:, n:]
        return a - b @ np.linalg.solve(c, b.T)

    def condensed_F(self, loads):
        n = 6 * self.n
        F = self.load_vector(loads)
        if self.nu == n:
            return F
        return F[:n] - self.K[:n, n:] @ np.linalg.solve(self.K[n:, n:], F[n:])
