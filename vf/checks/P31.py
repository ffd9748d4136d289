# Symbolic building blocks the element kernels are derived from.
import numpy as np
import sympy as sp
from hypothesis import strategies as st
from .. import gen
from ..runner import Check, Sub, Violation, close, require

coef = st.integers(-9, 9)
unit = gen.num(0, 1, 2)


def val(e, **kw):
    """numeric value of an expression; symbols are told apart by name"""
    e = sp.sympify(e)
    return float(e.subs({x: kw[x.name] for x in e.free_symbols}))


# ---------------------------------------------------------------- interpolation
hermite = st.fixed_dictionaries({"c": st.lists(st.lists(coef, min_size=4, max_size=4), min_size=4, max_size=4), "x": unit, "y": unit, "l": gen.num(0.2, 8, 1)})


def o_hermite(s):
    """cubics and bicubics are reproduced from their values and slopes at the ends"""
    from hyperstatic.core.fe_model.meta.interpolate import Hermite as H
    c, x, y, l = np.array(s["c"], float), s["x"], s["y"], s["l"]
    P = np.polynomial.polynomial
    f = c[0]                                              # in the relative coordinate
    df = P.polyder(f)
    v = [P.polyval(0, f), P.polyval(0, df) / l, P.polyval(1, f), P.polyval(1, df) / l]
    N = H.N1D()
    require(len(N) == 4, "4 functions expected")
    close(sum(val(n, xi=x, l=l) * a for n, a in zip(N, v)), P.polyval(x, f), 1e-9, "cubic", scale=200.0)
    N = H.N2D()
    require(len(N) == 16, "16 functions expected")
    g = lambda i, j, a, b: P.polyval2d(a, b, P.polyder(P.polyder(c, i, axis=0), j, axis=1))
    corners = [(0, 0), (1, 0), (0, 1), (1, 1)]
    v = [g(i, j, a, b) / l ** (i + j) for i, j in ((0, 0), (1, 0), (0, 1), (1, 1)) for a, b in corners]
    close(sum(val(n, xi=x, eta=y, l=l) * a for n, a in zip(N, v)), P.polyval2d(x, y, c), 1e-9, "bicubic", scale=3000.0)


two = st.integers(1, 9).flatmap(lambda n: st.tuples(st.lists(st.lists(coef, min_size=4, max_size=4), min_size=n, max_size=n),
                                                    st.lists(st.lists(gen.num(-5, 5, 1), min_size=2, max_size=2), min_size=n, max_size=n)))
lagrange = two.flatmap(lambda t: st.fixed_dictionaries({"F": st.just(t[0]), "Y": st.just(t[1]), "c": st.lists(coef, min_size=4, max_size=4), "x": gen.num(-1, 1, 2), "y": gen.num(-1, 1, 2),
                                  "X": st.lists(st.lists(gen.num(-5, 5, 1), min_size=2, max_size=2), min_size=4, max_size=4)}))


def o_lagrange(s):
    from hyperstatic.core.fe_model.meta.interpolate import Lagrange as G
    from hyperstatic.core.fe_model.meta import jacobi
    c, x, y = s["c"], s["x"], s["y"]
    N = G.N1D()
    require(len(N) == 2, "2 functions expected")
    close(sum(val(n, xi=x) * (c[0] + c[1] * a) for n, a in zip(N, (-1, 1))), c[0] + c[1] * x, 1e-12, "linear", scale=20.0)
    N = G.N2D()
    require(len(N) == 4, "4 functions expected")
    f = lambda a, b: c[0] + c[1] * a + c[2] * b + c[3] * a * b
    corners = [(-1, -1), (-1, 1), (1, -1), (1, 1)]
    close(sum(val(n, xi=x, eta=y) * f(a, b) for n, (a, b) in zip(N, corners)), f(x, y), 1e-12, "bilinear", scale=40.0)
    # the Jacobian is the derivative of the mapping
    X = np.array(s["X"])
    J = jacobi.J2D(N, X)
    require(J.shape == (2, 2), "shape of the Jacobian")
    J = np.array([[val(J[i, j], xi=x, eta=y) for j in range(2)] for i in range(2)])
    def pos(a, b):
        return sum((1 + a * p) * (1 + b * q) / 4 * X[k] for k, (p, q) in enumerate(corners))
    h = 0.5                                               # bilinear: differences are exact
    D = np.array([(pos(x + h, y) - pos(x - h, y)) / (2 * h), (pos(x, y + h) - pos(x, y - h)) / (2 * h)])
    close(J, D, 1e-9, "Jacobian", scale=10.0)
    # of any number of functions
    xi, eta = jacobi.xi, jacobi.eta
    F, Y = s["F"], np.array(s["Y"])
    J = jacobi.J2D([a * xi + b * eta + c * xi * eta + d * eta ** 2 for a, b, c, d in F], Y)
    require(J.shape == (2, 2), "shape of the Jacobian")
    J = np.array([[val(J[i, j], xi=x, eta=y) for j in range(2)] for i in range(2)])
    close(J, [np.dot([a + c * y for a, b, c, d in F], Y), np.dot([b + c * x + 2 * d * y for a, b, c, d in F], Y)], 1e-9, "Jacobian of %d functions" % len(F), scale=1e3)


# -------------------------------------------------------------------- operators
field = st.fixed_dictionaries({"c": st.lists(st.lists(coef, min_size=10, max_size=10), min_size=3, max_size=3), "p": st.lists(gen.num(-2, 2, 1), min_size=3, max_size=3)})


def o_strain(s):
    """the strain operators applied to a displacement field"""
    from hyperstatic.core.fe_model.meta import operator as O
    X = sp.symbols("x y z")
    mono = [1, X[0], X[1], X[2], X[0] * X[1], X[1] * X[2], X[2] * X[0], X[0] ** 2, X[1] ** 2, X[2] ** 2]
    p = dict(zip("xyz", s["p"]))

    def grad(c, k):
        """derivative of the polynomial along axis k at p, by hand"""
        x, y, z = s["p"]
        d = [[0, 1, 0, 0, y, 0, z, 2 * x, 0, 0], [0, 0, 1, 0, x, z, 0, 0, 2 * y, 0], [0, 0, 0, 1, 0, y, x, 0, 0, 2 * z]][k]
        return float(np.dot(c, d))
    C = s["c"]
    u = sp.Matrix([sum(a * m for a, m in zip(c, mono)) for c in C])
    e = O.operator_dot(O.L3, u)
    require(e.shape == (6, 1), "six strains expected")
    g = [[grad(C[i], k) for k in range(3)] for i in range(3)]
    want = [g[0][0], g[1][1], g[2][2], g[0][1] + g[1][0], g[1][2] + g[2][1], g[2][0] + g[0][2]]
    close([val(v, **p) for v in e], want, 1e-9, "strains in space", scale=100.0)
    v = sp.Matrix([u[0], u[1]])
    e = O.operator_dot(O.L2(X[0], X[1]), v)
    require(e.shape == (3, 1), "three strains expected")
    close([val(w, **p) for w in e], [g[0][0], g[1][1], g[0][1] + g[1][0]], 1e-9, "strains in the plane", scale=100.0)
    # plain factors are multiplied, several columns are treated one by one
    A = np.array([C[0][:2], C[1][:2], C[2][:2]])
    B = sp.Matrix([[u[0], u[1]], [u[1], u[2]]])
    r = O.operator_dot(A, B)
    close([[val(r[i, j], **p) for j in range(2)] for i in range(3)], A @ [[val(B[i, j], **p) for j in range(2)] for i in range(2)], 1e-9, "factors", scale=1e3)


elastic = st.fixed_dictionaries({"E": gen.num(1, 300, 1), "nu": gen.num(0, 0.45, 2), "e": st.lists(gen.num(-1, 1, 2), min_size=6, max_size=6)})


def o_elastic(s):
    """stresses of an isotropic solid, and the energy they do"""
    from hyperstatic.core.fe_model.meta import isotropy as I
    E, nu = s["E"], s["nu"]
    names = {str(x): x for x in (I.exx, I.eyy, I.ezz, I.gxy, I.gyz, I.gzx)}
    e = s["e"]                                            # xx yy zz and engineering shears xy yz zx
    sub = {I.E: E, I.nu: nu}
    sub.update(dict(zip((I.exx, I.eyy, I.ezz, I.gxy, I.gyz, I.gzx), e)))
    sig = np.array([[float(sp.sympify(I.sig[i, j]).subs(sub)) for j in range(3)] for i in range(3)])
    eps = np.array([[e[0], e[3] / 2, e[5] / 2], [e[3] / 2, e[1], e[4] / 2], [e[5] / 2, e[4] / 2, e[2]]])
    # the strain belonging to these stresses is the one we started from
    back = (1 + nu) / E * sig - nu / E * np.trace(sig) * np.eye(3)
    close(back, eps, 1e-9, "strain of the stress", scale=1.0)
    D = np.array(I.D.tolist(), dtype=object)
    num = np.vectorize(lambda v: float(sp.sympify(v).subs(sub)))(D)
    W = np.einsum("ijkl,ij,kl", num, eps, eps)
    close(W, np.sum(sig * eps), 1e-9, "energy", scale=3 * E)
    require(W >= -1e-9 * E, "negative energy")
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(3):
                    v = sp.sympify(I.D_ijkl(i, j, k, l)).subs(sub)
                    close(float(v), num[i, j, k, l], 1e-12, "component %d%d%d%d" % (i, j, k, l), scale=E)
    close(num, np.transpose(num, (2, 3, 0, 1)), 1e-12, "major symmetry", scale=E)


def make():
    return Check("P31", [
        Sub("hermite", hermite, o_hermite, lambda s: any(map(any, s["c"])), "non-zero polynomial", quick=60),
        Sub("lagrange", lagrange, o_lagrange, lambda s: any(s["c"]), "non-zero polynomial", quick=100),
        Sub("strain", field, o_strain, lambda s: all(map(any, s["c"])), "every component moves", quick=80),
        Sub("elastic", elastic, o_elastic, lambda s: any(s["e"]) and s["nu"] > 0, "strained, with a Poisson effect", quick=25),
    ])
