# Shell element matrices.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Known, Violation, close, require

KERNELS = ("metaT9", "metaGQ12", "metaDKT", "metaDKQ")

# "sec" is used by other checks as well: structures of thin shells are badly conditioned
thin = st.fixed_dictionaries({"E": st.one_of(st.integers(1, 300).map(lambda i: i * 1e9), st.integers(1, 300).map(lambda i: i * 1e9), gen.fine(1, 300, 1)), "mu": gen.poisson, "t": st.one_of(gen.num(0.01, 0.6, 3), gen.num(0.0002, 0.012, 4))})
sec = st.fixed_dictionaries({"E": st.integers(1, 300).map(lambda i: i * 1e9), "mu": gen.poisson, "t": gen.num(0.01, 0.6, 3)})
place = st.fixed_dictionaries({
    "o": st.one_of(st.tuples(gen.num(-9, 9, 1), gen.num(-9, 9, 1), gen.num(-9, 9, 1)), st.tuples(gen.fine(-9, 9), gen.fine(-9, 9), gen.fine(-900, 900))).map(list),
    "ax": gen.unit_vec.map(list), "th": st.one_of(st.sampled_from([0.0, np.pi / 2, np.pi]), gen.num(-3.1, 3.1, 2)),
    "ax2": st.sampled_from([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]),
    "q": st.integers(0, 3),
})


def rotation(p):
    return ref.rot_matrix(p["ax2"], p["q"] * np.pi / 2) @ ref.rot_matrix(p["ax"], p["th"])


@st.composite
def tri(draw):
    """Triangles with angles not too small, either sense of rotation."""
    a = draw(st.one_of(gen.num(0.3, 6, 2), gen.fine(0.3, 6, 2)))
    u, v = draw(gen.num(-0.5, 1.5, 2)), draw(gen.num(0.25, 2, 2))
    P = [[0.0, 0.0], [a, 0.0], [round(a * u, 12), round(a * v, 12)]]
    if draw(st.booleans()):
        P = [P[0], P[2], P[1]]
    return P


@st.composite
def quad(draw, kind=None):
    k = kind or draw(gen.pick("square", "rectangle", "parallelogram", "convex"))
    a = draw(st.one_of(gen.num(0.3, 6, 2), gen.fine(0.3, 6, 2)))
    if k == "square":
        P = [[0, 0], [a, 0], [a, a], [0, a]]
    elif k in ("rectangle", "parallelogram"):
        b = a * draw(gen.num(0.3, 3, 2))
        s = draw(gen.num(-0.6, 0.6, 2)) * a if k == "parallelogram" else 0.0
        P = [[0, 0], [a, 0], [a + s, b], [s, b]]
    else:
        # corners of a square moved by less than a quarter of its side: convex
        b = a * draw(gen.num(0.5, 2, 2))
        d = [[draw(gen.num(-0.2, 0.2, 2)) for _ in range(2)] for _ in range(4)]
        P = [[x * a + dx * a, y * b + dy * b] for (x, y), (dx, dy) in zip([(0, 0), (1, 0), (1, 1), (0, 1)], d)]
    P = [[round(float(x), 12), round(float(y), 12)] for x, y in P]
    if draw(st.booleans()):
        P = P[::-1]
    r = draw(st.integers(0, 3))
    return {"k": k, "P": P[r:] + P[:r]}


def points(P, pl):
    P3 = np.column_stack([np.asarray(P, float), np.zeros(len(P))])
    return P3 @ rotation(pl).T + np.asarray(pl["o"], float)


def model(P3, sc, ty):
    from hyperstatic.core.fe_model.model import Model
    m = Model()
    for i, p in enumerate(P3):
        m.add_node("n%d" % i, *[float(x) for x in p])
    m.add_isotropic_material("m", 7850.0, sc["E"], sc["mu"], 1e-5)
    m.add_shell_section("s", "m", sc["t"], ty)
    m.add_shell("e", "s", *["n%d" % i for i in range(len(P3))])
    return m


def arr(x):
    return np.asarray(x.toarray() if hasattr(x, "toarray") else x, float)


def matrices(P3, sc, ty):
    """local stiffness, transformation, stiffness in global directions"""
    m = model(P3, sc, ty)
    K, T = arr(m.get_shell_K("e")), arr(m.get_shell_transform_matrix("e"))
    n = 6 * len(P3)
    require(K.shape == (n, n) and T.shape == (n, n), "shapes %s %s" % (K.shape, T.shape))
    return K, T, T.T @ K @ T


def local(P3, T):
    """coordinates in the element's own axes, about the centroid"""
    R = T[:3, :3]
    return (P3 - P3.mean(0)) @ R.T


def axes_ok(P3, T):
    n = len(P3)
    R = T[:3, :3]
    close(T, np.kron(np.eye(2 * n), R), 1e-12, "transformation is one rotation for all nodes", scale=1.0)
    close(R @ R.T, np.eye(3), 1e-9, "axes not orthonormal")
    require(np.linalg.det(R) > 0, "axes left-handed")
    X = local(P3, T)
    close(X[:, 2], np.zeros(n), 1e-8, "third axis is not normal to the element", scale=np.max(np.abs(X)))
    return X


def weights(K):
    d = np.abs(np.diag(K))
    return d


def basic(K, what):
    close(K, K.T, 1e-9, what + ": not symmetric")
    ev = np.linalg.eigvalsh((K + K.T) / 2)
    require(ev[0] >= -1e-9 * ev[-1], "%s: negative energy %g of %g" % (what, ev[0], ev[-1]))


def rigid(P3):
    n = len(P3)
    R = np.zeros((6 * n, 6))
    for i, p in enumerate(P3):
        R[6 * i:6 * i + 3, :3] = np.eye(3)
        for a in range(3):
            w = np.eye(3)[a]
            R[6 * i:6 * i + 3, 3 + a] = np.cross(w, p - P3.mean(0))
            R[6 * i + 3:6 * i + 6, 3 + a] = w
    return R


def no_work(K, r, what):
    """K r = 0 against the size of the terms it is made of"""
    f = K @ r
    s = np.max(np.abs(K) @ np.abs(r))
    require(np.max(np.abs(f)) <= 1e-8 * s + 1e-11 * np.max(np.abs(K)) * np.max(np.abs(r)), "%s causes forces (%g of %g)" % (what, np.max(np.abs(f)), s))


def dmat(sc, bending):
    E, mu, t = sc["E"], sc["mu"], sc["t"]
    c = E * t**3 / 12 if bending else E * t
    return c / (1 - mu * mu) * np.array([[1, mu, 0], [mu, 1, 0], [0, 0, (1 - mu) / 2]])


def area2(P):
    P = np.asarray(P, float)
    x, y = P[:, 0], P[:, 1]
    return abs(0.5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


# ---- reference triangle: discrete Kirchhoff, built from its assumptions ----
def dkt(X, sc):
    X = np.asarray(X, float)[:, :2]
    D = dmat(sc, True)
    # rotations beta = (theta_y, -theta_x) = -(grad w), quadratic over the triangle
    B6 = np.zeros((12, 9))                     # betas at corners and midsides from (w,tx,ty)
    for i in range(3):
        B6[2 * i, 3 * i + 2] = 1
        B6[2 * i + 1, 3 * i + 1] = -1
    for k, (i, j) in enumerate(((0, 1), (1, 2), (2, 0))):
        d = X[j] - X[i]
        l = np.hypot(*d)
        s, n = d / l, np.array([-d[1], d[0]]) / l
        ws = np.zeros(9)
        wn = np.zeros(9)
        for q in (i, j):
            # grad w = (-ty, tx)
            ws[3 * q + 1] += -s[1] / 4
            ws[3 * q + 2] += s[0] / 4
            wn[3 * q + 1] += n[1] / 2
            wn[3 * q + 2] += -n[0] / 2
        ws[3 * i] -= 1.5 / l
        ws[3 * j] += 1.5 / l
        for a in range(2):
            B6[6 + 2 * k + a] = -(s[a] * ws + n[a] * wn)
    A2 = (X[1, 0] - X[0, 0]) * (X[2, 1] - X[0, 1]) - (X[2, 0] - X[0, 0]) * (X[1, 1] - X[0, 1])
    g = np.array([[X[1, 1] - X[2, 1], X[2, 0] - X[1, 0]], [X[2, 1] - X[0, 1], X[0, 0] - X[2, 0]], [X[0, 1] - X[1, 1], X[1, 0] - X[0, 0]]]) / A2
    K = np.zeros((9, 9))
    for z in ((.5, .5, 0), (0, .5, .5), (.5, 0, .5)):
        dN = np.zeros((6, 2))
        for i in range(3):
            dN[i] = (4 * z[i] - 1) * g[i]
        for k, (i, j) in enumerate(((0, 1), (1, 2), (2, 0))):
            dN[3 + k] = 4 * (z[i] * g[j] + z[j] * g[i])
        L = np.zeros((3, 12))
        for q in range(6):
            L[0, 2 * q] = dN[q, 0]
            L[1, 2 * q + 1] = dN[q, 1]
            L[2, 2 * q], L[2, 2 * q + 1] = dN[q, 1], dN[q, 0]
        B = L @ B6
        K += B.T @ D @ B * abs(A2) / 6
    return K


def q4(X, sc):
    """bilinear quadrilateral, 3x3 Gauss"""
    X = np.asarray(X, float)[:, :2]
    D = dmat(sc, False)
    g, w = np.polynomial.legendre.leggauss(3)
    xs, es = np.array([-1, 1, 1, -1]), np.array([-1, -1, 1, 1])
    K = np.zeros((8, 8))
    for a, wa in zip(g, w):
        for b, wb in zip(g, w):
            dN = np.array([xs * (1 + es * b), es * (1 + xs * a)]) / 4
            J = dN @ X
            d = np.linalg.inv(J) @ dN
            B = np.zeros((3, 8))
            B[0, 0::2], B[1, 1::2], B[2, 0::2], B[2, 1::2] = d[0], d[1], d[1], d[0]
            K += B.T @ D @ B * abs(np.linalg.det(J)) * wa * wb
    return K


def cst(X, sc, defect=False):
    """constant-strain triangle; with the recorded defect, the slopes along x serve for both directions"""
    X = np.asarray(X, float)[:, :2]
    A2 = (X[1, 0] - X[0, 0]) * (X[2, 1] - X[0, 1]) - (X[2, 0] - X[0, 0]) * (X[1, 1] - X[0, 1])
    b = np.array([X[1, 1] - X[2, 1], X[2, 1] - X[0, 1], X[0, 1] - X[1, 1]]) / A2
    c = b if defect else np.array([X[2, 0] - X[1, 0], X[0, 0] - X[2, 0], X[1, 0] - X[0, 0]]) / A2
    B = np.zeros((3, 6))
    B[0, 0::2], B[1, 1::2], B[2, 0::2], B[2, 1::2] = b, c, c, b
    # the recorded defect includes twice the area
    return B.T @ dmat(sc, False) @ B * abs(A2) / 2 * (2 if defect else 1)


def gauss(n):
    if n == 0:                                   # four points on the axes, exact to the third degree as 2 x 2 points are
        r = (2 / 3) ** 0.5
        return [(r, 0, 1), (-r, 0, 1), (0, r, 1), (0, -r, 1)]
    g, w = np.polynomial.legendre.leggauss(n)
    return [(a, b, wa * wb) for a, wa in zip(g, w) for b, wb in zip(g, w)]


def bilinear(X, xi, eta):
    xs, es = np.array([-1, 1, 1, -1]), np.array([-1, -1, 1, 1])
    dN = np.array([xs * (1 + es * eta), es * (1 + xs * xi)]) / 4
    return dN, dN @ X


def dkq(X, sc, n=2, defect=False):
    """discrete Kirchhoff quadrilateral, built from its assumptions like dkt(); with the recorded defect, the diagonal
    terms of the inverse Jacobian are exchanged"""
    X = np.asarray(X, float)[:, :2]
    D = dmat(sc, True)
    B8 = np.zeros((16, 12))
    for i in range(4):
        B8[2 * i, 3 * i + 2] = 1
        B8[2 * i + 1, 3 * i + 1] = -1
    for k in range(4):
        i, j = k, (k + 1) % 4
        d = X[j] - X[i]
        l = np.hypot(*d)
        s, m = d / l, np.array([-d[1], d[0]]) / l
        ws, wn = np.zeros(12), np.zeros(12)
        for q in (i, j):
            ws[3 * q + 1] += -s[1] / 4
            ws[3 * q + 2] += s[0] / 4
            wn[3 * q + 1] += m[1] / 2
            wn[3 * q + 2] += -m[0] / 2
        ws[3 * i] -= 1.5 / l
        ws[3 * j] += 1.5 / l
        for a in range(2):
            B8[8 + 2 * k + a] = -(s[a] * ws + m[a] * wn)
    xs, es = np.array([-1, 1, 1, -1]), np.array([-1, -1, 1, 1])
    K = np.zeros((12, 12))
    for xi, eta, w in gauss(n):
        J = bilinear(X, xi, eta)[1]
        dN = np.zeros((2, 8))
        dN[0, :4] = xs * (1 + eta * es) * (2 * xi * xs + eta * es) / 4
        dN[1, :4] = es * (1 + xi * xs) * (xi * xs + 2 * eta * es) / 4
        dN[0, 4:] = [-xi * (1 - eta), (1 - eta**2) / 2, -xi * (1 + eta), -(1 - eta**2) / 2]
        dN[1, 4:] = [-(1 - xi**2) / 2, -eta * (1 + xi), (1 - xi**2) / 2, -eta * (1 - xi)]
        I = np.array([[J[0, 0], -J[0, 1]], [-J[1, 0], J[1, 1]]]) / np.linalg.det(J) if defect else np.linalg.inv(J)
        g = I @ dN
        L = np.zeros((3, 16))
        L[0, 0::2], L[1, 1::2], L[2, 0::2], L[2, 1::2] = g[0], g[1], g[1], g[0]
        B = L @ B8
        K += B.T @ D @ B * abs(np.linalg.det(J)) * w
    return K


def gq12(X, sc, n=2):
    """generalized conforming quadrilateral with rotations about the normal (freedoms u, v, turn of each node): the
    displacements of the sides are cubic across them, linear along them"""
    X = np.asarray(X, float)[:, :2]
    D = dmat(sc, False)
    xs, es = np.array([1, 1, -1, -1.0]), np.array([-1, 1, 1, -1.0])
    a = [np.sum(w * X[:, 0]) / 4 for w in (xs, es, xs * es)]
    b = [np.sum(w * X[:, 1]) / 4 for w in (xs, es, xs * es)]
    K = np.zeros((12, 12))
    for xi, eta, w in gauss(n):
        dN = np.array([xs * (1 + es * eta), es * (1 + xs * xi)]) / 4
        J = dN @ X
        # f = xi (1-xi^2) (1+es eta) p + es (1-eta^2) (1+xs xi) q, p and q of the side
        p = np.array([(1 - 3 * xi**2) * (1 + es * eta), xi * (1 - xi**2) * es]) / 8
        q = np.array([es * (1 - eta**2) * xs, -2 * eta * es * (1 + xs * xi)]) / 8
        du = p * (b[0] + b[2] * es) + q * (b[1] + b[2] * xs)
        dv = -(p * (a[0] + a[2] * es) + q * (a[1] + a[2] * xs))
        I = np.linalg.inv(J)
        N, U, V = I @ dN, I @ du, I @ dv
        B = np.zeros((3, 12))
        B[0, 0::3], B[1, 1::3], B[2, 0::3], B[2, 1::3] = N[0], N[1], N[1], N[0]
        B[0, 2::3], B[1, 2::3], B[2, 2::3] = U[0], V[1], U[1] + V[0]
        K += B.T @ D @ B * abs(np.linalg.det(J)) * w
    return K


def one_of(K, refs, tol, what):
    """K is one of the admissible matrices, each DOF on its own scale"""
    err = []
    for R in refs:
        w = np.sqrt(np.abs(np.diag(R)))
        w[w < 1e-6 * np.max(w)] = np.max(w)
        err.append(float(np.max(np.abs((K - R) / w[:, None] / w))))
    require(min(err) <= tol, "%s: differs by %s from its references" % (what, ", ".join("%.2g" % e for e in err)))


RULES = (0, 2, 3, 5)
PLATE = lambda n: [6 * i + k for i in range(n) for k in (2, 3, 4)]
MEMB = lambda n: [6 * i + k for i in range(n) for k in (0, 1, 5)]
TRANS = lambda n: [6 * i + k for i in range(n) for k in (0, 1)]


def curvature(X, kx, ky, kxy):
    x, y = X[:, 0], X[:, 1]
    d = np.zeros(6 * len(X))
    d[2::6] = .5 * (kx * x * x + ky * y * y + kxy * x * y)
    d[3::6] = .5 * (2 * ky * y + kxy * x)
    d[4::6] = -.5 * (2 * kx * x + kxy * y)
    return d


def strain(X, ex, ey, g):
    x, y = X[:, 0], X[:, 1]
    d = np.zeros(6 * len(X))
    d[0::6] = ex * x + g * y / 2
    d[1::6] = ey * y + g * x / 2
    return d


def patch(K, X, sc, field, bending, what, vals=np.eye(3)):
    D = dmat(sc, bending)
    for e in np.vstack([np.eye(3), [1.0, -0.5, 0.7]]):
        d = field(X, *e)
        close(d @ K @ d, area2(X[:, :2]) * (e @ D @ e), 1e-6, "%s: energy of the constant state %s" % (what, e.tolist()))


# --------------------------------------------------------------------------
tspec = st.fixed_dictionaries({"P": tri(), "s": thin, "pl": place})


def o_tri_plate(s):
    P3 = points(s["P"], s["pl"])
    K, T, G = matrices(P3, s["s"], "plate")
    X = axes_ok(P3, T)
    basic(K, "triangle")
    i = PLATE(3)
    d = np.ones(18, bool)
    d[i] = False
    require(not np.any(K[d]) and not np.any(K[:, d]), "plate triangle resists in its plane")
    Kr = dkt(X, s["s"])
    w = np.sqrt(np.diag(Kr))
    close(K[np.ix_(i, i)] / w[:, None] / w, Kr / w[:, None] / w, 1e-7, "plate triangle versus discrete Kirchhoff triangle")
    R = rigid(P3)
    for a in range(6):
        no_work(G, R[:, a], "rigid motion %d" % a)
    patch(K, X, s["s"], curvature, True, "plate triangle")


def o_area(s):
    from hyperstatic.core.fe_model.element.tria import Tria
    from hyperstatic.core.fe_model.element.quad import Quad
    from hyperstatic.core.fe_model.node import Node
    P = s["P"]["P"] if isinstance(s["P"], dict) else s["P"]
    P3 = points(P, s["pl"])
    nodes = [Node("n%d" % i, *[float(x) for x in p]) for i, p in enumerate(P3)]
    e = Tria("e", *nodes, 18) if len(P) == 3 else Quad("e", *nodes, 24)
    close(e.area, area2(P), 1e-8, "area")
    o = np.asarray(e.local_csys.origin, float)
    close(o, P3.mean(0), 1e-9, "origin", scale=max(1.0, np.max(np.abs(P3))))


qspec = st.fixed_dictionaries({"P": quad(), "s": thin, "pl": place})


def o_quad_membrane(s):
    P3 = points(s["P"]["P"], s["pl"])
    K, T, G = matrices(P3, s["s"], "membrane")
    X = axes_ok(P3, T)
    basic(K, "quadrilateral membrane")
    d = np.ones(24, bool)
    d[MEMB(4)] = False
    require(not np.any(K[d]) and not np.any(K[:, d]), "membrane resists out of its plane")
    patch(K, X, s["s"], strain, False, "quadrilateral membrane")
    # rigid translations, and the rotation carried by the translations
    R = rigid(P3)
    for a in range(6):
        r = R[:, a].copy()
        for q in range(4):
            r[6 * q + 3:6 * q + 6] = 0
        no_work(G, r, "rigid motion %d" % a)
    if s["P"]["k"] != "convex":
        i = TRANS(4)
        close(K[np.ix_(i, i)], q4(X, s["s"]), 1e-7, "translations versus the bilinear quadrilateral")
    i = MEMB(4)
    stiff(K[np.ix_(i, i)], "quadrilateral membrane")
    one_of(K[np.ix_(i, i)], [gq12(X, s["s"], n) for n in RULES], 1e-7, "quadrilateral membrane versus its shape functions")
    # the drilling freedoms are resisted
    z = np.diag(K)[[6 * q + 5 for q in range(4)]]
    require(np.all(z > 0), "no resistance to the nodal rotations about the normal")


def stiff(K, what):
    """beside the three rigid motions, at most one pattern of deformation is free of energy"""
    w = 1 / np.sqrt(np.diag(K))
    e = np.linalg.eigvalsh(K * w * w[:, None])
    require(e[4] > 1e-4, "%s: five independent patterns without energy (%g)" % (what, e[4]))


def o_quad_plate(s):
    P3 = points(s["P"]["P"], s["pl"])
    K, T, G = matrices(P3, s["s"], "plate")
    X = axes_ok(P3, T)
    basic(K, "quadrilateral plate")
    d = np.ones(24, bool)
    d[PLATE(4)] = False
    require(not np.any(K[d]) and not np.any(K[:, d]), "plate resists in its plane")
    R = rigid(P3)
    for a in range(6):
        no_work(G, R[:, a], "rigid motion %d" % a)
    i = PLATE(4)
    stiff(K[np.ix_(i, i)], "quadrilateral plate")
    if s["P"]["k"] == "square":
        patch(K, X, s["s"], curvature, True, "square plate")
    # beside the right element that of the known finding, no third one
    one_of(K[np.ix_(i, i)], [dkq(X, s["s"], n, d) for n in RULES for d in (False, True)], 1e-7, "quadrilateral plate versus discrete Kirchhoff quadrilateral")


def o_tri_membrane(s):
    P3 = points(s["P"], s["pl"])
    K, T, G = matrices(P3, s["s"], "membrane")
    X = axes_ok(P3, T)
    basic(K, "triangular membrane")
    i = TRANS(3)
    d = np.ones(18, bool)
    d[i] = False
    require(not np.any(K[d]) and not np.any(K[:, d]), "membrane triangle resists out of its plane")
    R = rigid(P3)
    for a in range(3):
        no_work(G, R[:, a], "translation %d" % a)
    # beside the right element that of the known finding, no third one
    one_of(K[np.ix_(i, i)], [cst(X, s["s"]), cst(X, s["s"], True)], 1e-7, "membrane triangle versus constant-strain triangle")


@st.composite
def anyspec(draw):
    s = {"s": draw(thin), "pl": draw(place), "pl2": draw(place)}
    if draw(st.booleans()):
        s["P"] = {"k": "triangle", "P": draw(tri())}
    else:
        s["P"] = draw(quad())
    s["c"] = draw(gen.num(0.25, 5, 2))
    return s


def o_types(s):
    """shell = membrane + plate; linear in E; linear / cubic in the thickness."""
    P3 = points(s["P"]["P"], s["pl"])
    Km, Kp, Ks = [matrices(P3, s["s"], ty)[0] for ty in ("membrane", "plate", "shell")]
    require(np.max(np.abs(Km)) > 0 and np.max(np.abs(Kp)) > 0, "element without stiffness")
    close(Ks, Km + Kp, 1e-9, "shell is membrane plus plate")
    n = len(P3)
    close(Ks[np.ix_(PLATE(n), PLATE(n))], Kp[np.ix_(PLATE(n), PLATE(n))], 1e-9, "bending part of a shell")
    from hyperstatic.core.fe_model.model import Model
    m = Model()
    m.add_node("a", 0, 0, 0)
    c = s["c"]
    for ty, K, p in (("membrane", Km, 1), ("plate", Kp, 3)):
        close(matrices(P3, dict(s["s"], E=c * s["s"]["E"]), ty)[0], c * K, 1e-9, ty + ": proportional to the modulus")
        close(matrices(P3, dict(s["s"], t=c * s["s"]["t"]), ty)[0], c**p * K, 1e-9, ty + ": power of the thickness")
        # similar elements
        P2 = points([[c * x for x in q] for q in s["P"]["P"]], s["pl"])
        w = np.ones(6 * n)
        for q in range(n):
            w[6 * q + (5 if p == 1 else 2)] = c if p == 1 else 1 / c
        close(matrices(P2, s["s"], ty)[0], K * w[:, None] * w, 1e-7, ty + ": similar elements", scale=np.max(np.abs(K * w[:, None] * w)))


def o_place(s):
    """Moving the element moves its stiffness."""
    for ty in ("membrane", "plate"):
        k = s["P"]["k"]
        if k == "triangle" and ty == "membrane" or ty == "plate" and k not in ("triangle", "square"):
            # known findings: not invariant against turning in their own plane.  Moving without turning must be right.
            P3 = points(s["P"]["P"], s["pl"])
            G1 = matrices(P3, s["s"], ty)[2]
            G2 = matrices(P3 + np.asarray(s["pl2"]["o"], float), s["s"], ty)[2]
            close(G2, G1, 1e-6, "%s %s moved" % (k, ty))
            continue
        P1, P2 = points(s["P"]["P"], s["pl"]), points(s["P"]["P"], s["pl2"])
        R = rotation(s["pl2"]) @ rotation(s["pl"]).T
        B = np.kron(np.eye(2 * len(P1)), R)
        G1, G2 = matrices(P1, s["s"], ty)[2], matrices(P2, s["s"], ty)[2]
        close(G2, B @ G1 @ B.T, 1e-7, "%s %s turned" % (k, ty))


def o_nodes(s):
    """The same element described from another corner or in the other sense."""
    P3 = points(s["P"]["P"], s["pl"])
    n = len(P3)
    k = s["P"]["k"]
    for ty in ("membrane", "plate"):
        G = matrices(P3, s["s"], ty)[2]
        perms = []
        for r in range(n):
            perms.append(list(np.roll(np.arange(n), -r)))
        perms.append(list(range(n))[::-1])
        for p in perms[1:]:
            rev = p == perms[-1]
            if n == 3 and ty == "membrane" and rev or n == 4 and not rev and (ty == "membrane" or k != "square"):
                continue
            i = np.concatenate([np.arange(6) + 6 * q for q in p])
            G2 = matrices(P3[p], s["s"], ty)[2]
            close(G2, G[np.ix_(i, i)], 1e-7, "%s %s with its nodes in the order %s" % (k, ty, [int(q) for q in p]))


def o_facade(s):
    """the element defined through the façade"""
    P3 = points(s["P"]["P"], s["pl"])
    n = len(P3)
    for ty in ("membrane", "plate", "shell"):
        G = matrices(P3, s["s"], ty)[2]
        with gen.Work() as w:
            x = facade.Scene(w, {"X": P3.tolist(), "props": [], "beams": [], "restr": {}, "pats": [], "cases": [], "shells": [{"n": list(range(n)), "s": 0}], "secs": [s["s"]], "types": [ty]})
            A = x.assembly()
            close(arr(A.assemble_K()), G, 1e-9, "%s defined through the façade" % ty, scale=np.max(np.abs(G)))


# known findings ------------------------------------------------------------
PL0 = {"o": [0, 0, 0], "ax": [0, 0, 1], "th": 0.0, "ax2": [1.0, 0, 0], "q": 0}
SC0 = {"E": 2e11, "mu": 0.3, "t": 0.25}


def o_known_quad(s):
    P3 = points(s["P"], PL0)
    K, T, _ = matrices(P3, s["s"], "plate")
    patch(K, local(P3, T), s["s"], curvature, True, "rectangular plate")


def o_known_tri(s):
    P3 = points(s["P"], PL0)
    K, T, _ = matrices(P3, s["s"], "membrane")
    patch(K, local(P3, T), s["s"], strain, False, "triangular membrane")


def make():
    turned = lambda s: s["pl"]["q"] or s["pl"]["th"]
    cl = lambda s: [s["P"]["k"]]
    return Check("P22", [
        Sub("plate-triangle", tspec, o_tri_plate, turned, "element not in its reference position", quick=150),
        Sub("membrane-triangle", tspec, o_tri_membrane, turned, "element not in its reference position", quick=150),
        Sub("quad-membrane", qspec, o_quad_membrane, turned, "element not in its reference position", quick=150, classify=cl),
        Sub("quad-plate", qspec, o_quad_plate, turned, "element not in its reference position", quick=150, classify=cl),
        Sub("area", st.one_of(tspec, qspec), o_area, turned, "element not in its reference position", quick=300),
        Sub("types-and-scaling", anyspec(), o_types, rule="every case", quick=80, classify=cl),
        Sub("placement", anyspec(), o_place, turned, "element not in its reference position", quick=120, classify=cl),
        Sub("node-order", anyspec(), o_nodes, turned, "element not in its reference position", quick=80, classify=cl),
        Sub("facade", anyspec(), o_facade, rule="every case", quick=40, classify=cl),
    ], known=[
        Known("quad-plate-2x1", {"P": [[0, 0], [2, 0], [2, 1], [0, 1]], "s": SC0}, o_known_quad),
        Known("triangle-membrane", {"P": [[0, 0], [2, .3], [.5, 1.7]], "s": SC0}, o_known_tri),
    ], assumptions=["flat elements; the numerical integration is the stand-in quadrature of vf/boot.py, of at least the degree the code asks for",
                    "excluded as known findings: constant curvature in quadrilaterals that are not squares, constant strain in triangles, turning those in their plane"])
