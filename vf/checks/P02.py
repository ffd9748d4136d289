# Member axes and transformations.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..runner import Check, Sub, Violation, close, require


@st.composite
def member(draw):
    kind = draw(gen.pick("skew", "skew", "vertical", "horizontal", "plan", "steep"))
    A = [draw(gen.num(-10, 10, 2)) for _ in range(3)]
    L = draw(gen.num(0.3, 12, 2))
    if kind == "vertical":
        d = [0.0, 0.0, draw(gen.pick(1.0, -1.0))]
    elif kind == "steep":                        # nearly vertical, down to 1 mm in 10 m
        m = draw(gen.pick(1e-2, 1e-3, 2e-4))
        d = [draw(gen.pick(1.0, -1.0, 0.5, 0.0)) * m, draw(gen.pick(1.0, -1.0, -0.7)) * m, draw(gen.pick(1.0, -1.0))]
        A = [0.0, 0.0, A[2]]                     # keep the short plan distance free of rounding
    elif kind == "horizontal":
        d = draw(gen.pick([1.0, 0, 0], [-1.0, 0, 0], [0, 1.0, 0], [0, -1.0, 0]))
    else:
        d = [draw(gen.num(-1, 1, 2)), draw(gen.num(-1, 1, 2)), 0.0 if kind == "plan" else draw(gen.num(-1, 1, 2))]
        if abs(d[0]) + abs(d[1]) < 0.02:
            d[0] = 0.5
    B = [round(A[i] + L * d[i], 6) for i in range(3)]
    m = draw(gen.pick(1, 1, 1, 0.01, 39.37, 1000.0))     # in other units
    if m != 1:
        A, B = [x * m for x in A], [x * m for x in B]
    rots = draw(st.lists(gen.angle, max_size=3))
    return {"A": A, "B": B, "kind": kind, "rots": rots, "p": draw(gen.beamprop), "simple": draw(st.booleans())}


def build(s, rotate=True):
    from hyperstatic.core.fe_model.model import Model
    m = Model()
    m.add_node("i", *s["A"])
    m.add_node("j", *s["B"])
    mt, sc = s["p"]["mat"], s["p"]["sec"]
    if s["simple"]:
        m.add_simple_beam("b", "i", "j", mt["E"], mt["mu"], sc["A"], sc["I2"], sc["I3"], sc["J"], mt["rho"])
    else:
        m.add_isotropic_material("m", mt["rho"], mt["E"], mt["mu"], 1e-5)
        m.add_beam_section_general("s", "m", sc["A"], 0, 0, sc["I2"], sc["I3"], sc["J"], 0, 0)
        m.add_beam("b", "i", "j", "s")
    if rotate:
        for r in s["rots"]:
            m.set_beam_rotation("b", r)
    return m


def dense(a):
    return a.toarray() if hasattr(a, "toarray") else np.asarray(a)


def o_axes(s):
    m = build(s)
    rot = s["rots"][-1] if s["rots"] else 0.0       # a rotation replaces the previous one
    R = ref.beam_axes(s["A"], s["B"], rot)
    T = dense(m.get_beam_transform_matrix("b"))
    close(T, ref.blocks(R, 4), 1e-8, "member transformation matrix")
    close(m.get_beam_length("b"), np.linalg.norm(np.subtract(s["B"], s["A"])), 1e-12, "length")
    a, b = m.get_beam_location("b")
    close([a, b], [s["A"], s["B"]], 1e-12, "end locations")
    for n in "ij":
        close(dense(m.get_node_transform_matrix(n)), np.eye(6), 1e-12, "nodal axes are the global axes")


def o_energy(s):
    """Stiffness in global axes = same energy as the local one."""
    m = build(s)
    rot = s["rots"][-1] if s["rots"] else 0.0
    T = ref.blocks(ref.beam_axes(s["A"], s["B"], rot), 4)
    mt, sc = s["p"]["mat"], s["p"]["sec"]
    L = np.linalg.norm(np.subtract(s["B"], s["A"]))
    k = ref.beam_K(mt["E"], mt["E"] / 2 / (1 + mt["mu"]), sc["A"], sc["I2"], sc["I3"], sc["J"], L)
    close(dense(m.get_beam_K("b", local=False)), T.T @ k @ T, 1e-8, "stiffness in global axes")
    close(dense(m.get_beam_K("b")), k, 1e-8, "stiffness in local axes")


# ------------------------------------------------- members that hardly lean at all
needle = st.fixed_dictionaries({
    "lean": st.one_of(st.sampled_from([1e-10, 3e-10, 4.9e-10, 9e-10, 1.01e-9, 1.4e-9, 1.8e-9, 1.99e-9, 2.01e-9, 3e-9, 5e-9, 1e-8]), st.floats(-10, -4).map(lambda e: float("%.3g" % 10 ** e))),
    "dir": gen.num(-3.2, 3.2, 2), "z": gen.num(-9, 9, 1), "L": gen.num(0.3, 12, 1), "up": st.booleans(), "turn": st.booleans(), "p": gen.beamprop, "simple": st.booleans()})


def o_needle(s):
    A = np.array([0.0, 0.0, s["z"]])
    B = np.array([s["lean"] * np.cos(s["dir"]), s["lean"] * np.sin(s["dir"]), s["z"] + (s["L"] if s["up"] else -s["L"])])
    if s["turn"]:
        A, B = B, A
    m = build(dict(s, A=list(map(float, A)), B=list(map(float, B)), rots=[]))
    T = dense(m.get_beam_transform_matrix("b"))
    V = T[:3, :3]
    close(T, ref.blocks(V, 4), 1e-12, "one triad for all end components")
    tol = max(1e-9, 4e-15 * s["L"] / s["lean"]) if s["lean"] > 0.9e-9 else 1e-9      # what a sliver of a triangle leaves to rounding
    close(V @ V.T, np.eye(3), tol, "orthonormal axes")
    close(np.linalg.det(V), 1.0, tol, "right-handed axes")
    close(V[0], (B - A) / np.linalg.norm(B - A), 1e-9, "first axis along the member")
    d = np.max(np.abs((B - A)[:2]))
    if d < 0.9e-9:                               # vertical within the tolerance
        close(V[1], [1.0, 0.0, 0.0], 1e-7, "second axis of a vertical member")
    elif d > 2.1e-9:                             # leaning: up, in the plane of the member
        g = (B - A)[:2] / np.linalg.norm((B - A)[:2])
        n = np.array([g[1], -g[0], 0.0])         # normal of that plane
        close([V[1] @ n, abs(V[2] @ n)], [0.0, 1.0], max(1e-6, tol), "axes of a leaning member")
        require(V[1][2] > -tol and (V[1][:2] @ g) * (B - A)[2] < 0, "second axis of a leaning member points down")


def make():
    return Check("P02", [
        Sub("axes", member(), o_axes, lambda s: s["kind"] != "horizontal" or bool(s["rots"]),
            "member not along a horizontal axis, or rotated", quick=500, classify=lambda s: [s["kind"], "rot%d" % len(s["rots"])]),
        Sub("global-stiffness", member(), o_energy, lambda s: bool(s["rots"]), "rotated member", quick=200),
        Sub("needle", needle, o_needle, lambda s: True, "all", quick=300,
            classify=lambda s: ["within" if s["lean"] < 1e-9 else "about" if s["lean"] < 2.5e-9 else "beyond"]),
    ], assumptions=["with the default tolerance; plan distances between one and two tolerances only have to give proper axes"])
