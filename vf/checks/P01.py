# Local coordinate systems stay orthonormal and obey their construction rules.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..runner import Check, Sub, Violation, close, require

pt = st.one_of(st.tuples(gen.num(-50, 50, 2), gen.num(-50, 50, 2), gen.num(-50, 50, 2)), st.tuples(gen.fine(-50, 50, 2), gen.fine(-50, 50, 2), gen.fine(-9, 9, 2))).map(list)


@st.composite
def three(draw):
    O = draw(pt)
    a = draw(gen.unit_vec)
    b = draw(gen.unit_vec.filter(lambda v: np.linalg.norm(np.cross(a, v)) > 0.05 * np.linalg.norm(a) * np.linalg.norm(v)))
    la, lb = draw(gen.num(0.5, 20, 2)), draw(gen.num(0.5, 20, 2))
    if draw(st.integers(0, 4)) == 0:             # a narrow angle, or nearly a straight one
        a = np.array(a) / np.linalg.norm(a)
        e = draw(gen.pick(0.03, 0.01, 3e-3, 1e-3)) / np.linalg.norm(np.cross(a, b))
        b = draw(gen.pick(1, -1)) * a + e * np.array(b)
    elif draw(st.integers(0, 2)) == 0:           # in other units, or with all the digits
        m = draw(gen.pick(1e-3, 0.01, 39.37, 1e3, 1e5))
        O, la, lb = [x * m * 0.99993714867261235 for x in O], la * m, lb * m
    return {"O": O, "A": [float(O[i] + a[i] * la) for i in range(3)], "B": [float(O[i] + b[i] * lb) for i in range(3)], "as": draw(gen.pick("list", "array", "tuple"))}


def expected(s):
    O, A, B = (np.array(s[k]) for k in "OAB")
    x = (A - O) / np.linalg.norm(A - O)
    y = (B - O) - np.dot(B - O, x) * x
    y /= np.linalg.norm(y)
    return np.array([x, y, np.cross(x, y)])


def ortho(T, what):
    T = np.asarray(T, float)
    close(T @ T.T, np.eye(3), 1e-9, what + ": axes not orthonormal")
    require(np.linalg.det(T) > 0, what + ": axes left-handed")


def given(s):
    f = {"list": list, "array": np.array, "tuple": tuple}[s["as"]]
    return [f(s[k]) for k in "OAB"]


def spoil(pts):
    for p in pts:
        if not isinstance(p, tuple):
            p[0], p[1], p[2] = 1e3, -2e3, 3e3


def check_T(c, T, what):
    for _ in range(2):                           # what is read is the reader's own
        ortho(c.transform_matrix, what)
        gen.smash([c.transform_matrix, c.x, c.y, c.z, c.origin])
    close(c.transform_matrix, T, 1e-8, what)
    close(np.array([c.x, c.y, c.z]), T, 1e-8, what + " (x,y,z)")


def o_three(s):
    from hyperstatic.common.csys import Cartesian
    T = expected(s)
    pts = given(s)
    c = Cartesian(*pts)
    check_T(c, T, "axes from three points")
    close(c.origin, s["O"], 1e-12, "origin")
    c2 = Cartesian((0, 0, 0), (0, 1, 0), (0, 0, 1))
    c2.set_by_3pts(*pts)
    spoil(pts)                                   # the points are the caller's: used again for something else
    check_T(c, T, "axes from three points, later")
    close(c.origin, s["O"], 1e-12, "origin, later")
    check_T(c2, T, "set_by_3pts")
    close(c2.origin, s["O"], 1e-12, "origin after set_by_3pts")
    # global -> local -> global of an arbitrary vector
    v = np.array([1.3, -0.4, 2.2])
    close(c.transform_matrix.T @ (c.transform_matrix @ v), v, 1e-9, "round trip")


@st.composite
def normal(draw):
    n = draw(gen.unit_vec)
    g = draw(st.one_of(st.just([0, 0, 1]), st.just([0, 1, 0]), gen.unit_vec.map(list)))
    from hypothesis import assume
    assume(np.linalg.norm(np.cross(n, g)) > 0.05 * np.linalg.norm(n) * np.linalg.norm(g))
    if draw(st.integers(0, 4)) == 0:             # hardly leaning from the guide
        a = np.array(g) / np.linalg.norm(g)
        n = draw(gen.pick(1, -1)) * a + draw(gen.pick(0.03, 0.01, 3e-3, 1e-3)) / np.linalg.norm(np.cross(a, n)) * np.array(n)
        n = [float(x) for x in n]
    return {"O": draw(pt), "n": list(n), "g": g, "default": g == [0, 0, 1]}


def o_normal(s):
    from hyperstatic.common.csys import Cartesian
    O = np.array(s["O"])
    c = Cartesian.create_by_normal(O, s["n"]) if s["default"] else Cartesian.create_by_normal(O, s["n"], s["g"])
    n = np.array(s["n"]) / np.linalg.norm(s["n"])
    g = np.array(s["g"], float)
    u = np.cross(g, n)
    u /= np.linalg.norm(u)
    check_T(c, np.array([u, np.cross(n, u), n]), "axes from a normal")
    close(c.origin, s["O"], 1e-12, "origin")


OPS = ["ex", "ey", "ez", "x", "y", "z", "vec", "align", "pts", "origin"]


@st.composite
def history(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(OPS[:7] * 2 + OPS[7:]))
        if k == "vec":
            v = list(draw(gen.unit_vec))
            if draw(st.integers(0, 3)) == 0:     # a unit vector, to the decimals it was written down with
                d = draw(st.integers(1, 5))
                v = [round(float(x), d) for x in np.array(v) / np.linalg.norm(v)]
                ops.append([k, v, 1.0, draw(gen.angle)])
            else:
                ops.append([k, v, draw(gen.num(0.2, 5, 1)), draw(gen.angle)])
        elif k == "pts":
            ops.append([k, draw(three())])
        elif k == "align":
            ops.append([k])
        elif k == "origin":
            ops.append([k, draw(pt), draw(gen.pick("list", "array", "tuple"))])
        else:
            ops.append([k, draw(gen.angle)])
    return {"start": draw(three()), "ops": ops}


def o_history(s):
    from hyperstatic.common.csys import Cartesian
    c = Cartesian(s["start"]["O"], s["start"]["A"], s["start"]["B"], "cs")
    T = expected(s["start"])
    O = np.array(s["start"]["O"])
    G = np.eye(3)
    for op in s["ops"]:
        k = op[0]
        if k == "align":
            c.align_with_global()
            T = np.eye(3)
        elif k == "pts":
            pts = given(op[1])
            c.set_by_3pts(*pts)
            spoil(pts)
            T, O = expected(op[1]), np.array(op[1]["O"])
        elif k == "origin":
            O = np.array(op[1])
            p = {"list": list, "array": np.array, "tuple": tuple}[op[2]](op[1])
            c.origin = p
            spoil([p])
        else:
            if k == "vec":
                ax, th = np.array(op[1]) * op[2], op[3]
                c.rotate_about_vec(*ax, th)
            elif k[0] == "e":
                ax, th = G["xyz".index(k[1])], op[1]
                getattr(c, "rotate_about_external_" + k[1])(th)
            else:
                ax, th = T["xyz".index(k)], op[1]
                getattr(c, "rotate_about_" + k)(th)
            T = np.array([ref.rodrigues(v, ax, th) for v in T])
        check_T(c, T, "after %s" % k)
        close(c.origin, O, 1e-12, "origin after %s" % k)
    require(c.name == "cs", "name")


@st.composite
def line3(draw):
    O, d = draw(pt), draw(gen.unit_vec)
    a, b = draw(st.integers(1, 9)), draw(st.integers(-9, 9))
    d = [round(x * 4) / 4.0 for x in d]
    O = [round(x) * 1.0 for x in O]
    return {"O": O, "d": d, "a": a, "b": b}


def refused(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Violation("%s accepted: %s" % (what, getattr(r, "transform_matrix", r)))


def o_degenerate(s):
    from hyperstatic.common.csys import Cartesian
    O, d = np.array(s["O"]), np.array(s["d"])
    refused(lambda: Cartesian(O, O + s["a"] * d, O + s["b"] * d), "collinear points")
    for A, B in ((O + s["a"] * d, O + s["b"] * d), (O, O + d), (O + d, O), (O, O)):
        c = Cartesian((1, 2, 3), (1, 3, 3), (1, 2, 4))
        refused(lambda: c.set_by_3pts(O, A, B), "points in a line %s %s %s" % (O, A, B))
        close(c.transform_matrix, [[0, 1, 0], [0, 0, 1], [1, 0, 0]], 1e-12, "axes after a refused setting")
        close(c.origin, [1, 2, 3], 1e-12, "origin after a refused setting")
    refused(lambda: Cartesian.create_by_normal(O, s["a"] * d, s["b"] * d if s["b"] else -d), "normal along the guide")


# ------------------------------------------------------------------ nodal axes
node = st.fixed_dictionaries({"x": pt, "ops": st.lists(st.tuples(st.integers(0, 3), gen.angle).map(list), min_size=1, max_size=6)})


def o_node(s):
    from hyperstatic.core.fe_model.node import Node
    n, other = Node("n", *s["x"]), Node("m", *s["x"])
    T = np.eye(3)
    for k, th in s["ops"]:
        if k == 0:
            n.initialize_csys()
            T = np.eye(3)
        else:
            getattr(n, "rotate_about_%daxis" % k)(th)
            T = np.array([ref.rodrigues(v, T[k - 1].copy(), th) for v in T])
        close(n.local_csys.transform_matrix, T, 1e-9, "axes of a node")
        close(n.transform_matrix, ref.blocks(T, 2), 1e-9, "transformation of a node")
        close(n.loc, s["x"], 1e-12, "location of a turned node", scale=10.0)
        gen.smash([n.loc, n.transform_matrix, n.local_csys.transform_matrix])
        close(n.loc, s["x"], 1e-12, "location of a turned node, read again", scale=10.0)
    close(other.transform_matrix, np.eye(6), 1e-12, "axes of another node")


def make():
    return Check("P01", [
        Sub("three-points", three(), o_three, rule="every case (skew points)", quick=400),
        Sub("by-normal", normal(), o_normal, rule="every case", quick=300),
        Sub("history", history(), o_history, lambda s: len(s["ops"]) > 1, "at least two operations in a row", quick=500,
            classify=lambda s: [o[0] for o in s["ops"]]),
        Sub("degenerate", line3(), o_degenerate, rule="every case", quick=100),
        Sub("node", node, o_node, lambda s: len(s["ops"]) > 1, "at least two operations in a row", quick=200),
    ])
