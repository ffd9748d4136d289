# Results turn and move with the structure.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref
from ..runner import Check, Sub, Violation, close, require
from .P10 import ready


@st.composite
def spec(draw, mode):
    f = draw(gen.frame(2, 5, releases=True, supports=mode in ("quarter", "far")))
    f["loads"] = draw(gen.loads_for(f, n_max=4))
    far = mode == "far"
    f["t"] = [draw(gen.num(-10000, 10000, 1) if far else gen.num(-20, 20, 1)) for _ in range(3)]
    if far:
        f["rotv"] = [[0.0, 0.0, 1.0], 0.0]
    elif mode == "quarter":
        f["rotv"] = [draw(gen.pick(*[list(r) for r in np.eye(3).tolist()])), draw(st.integers(0, 3)) * np.pi / 2]
    elif mode == "plan":
        f["rotv"] = [[0.0, 0.0, 1.0], draw(gen.num(-3.1, 3.1, 2))]
    else:
        f["rotv"] = [list(draw(gen.unit_vec)), draw(gen.num(-3.1, 3.1, 2))]
    f["mode"] = mode
    return f


def moved(s):
    Q = ref.rot_matrix(*s["rotv"])
    if s["mode"] in ("quarter", "far"):
        Q = np.round(Q)
    X = np.array(s["X"]) @ Q.T + s["t"]
    t = dict(s, X=[[float(round(c, 9)) for c in p] for p in X], beams=[])
    for b in s["beams"]:
        R = ref.beam_axes(s["X"][b["i"]], s["X"][b["j"]], b["rot"]) @ Q.T
        R0 = ref.beam_axes(t["X"][b["i"]], t["X"][b["j"]], 0.0)
        rot = float(np.arctan2(np.dot(np.cross(R0[1], R[1]), R0[0]), np.dot(R0[1], R[1])))
        t["beams"].append(dict(b, rot=rot))
    t["loads"] = {"nodal": [[k, list(map(float, np.concatenate([Q @ v[:3], Q @ v[3:]])))] for k, v in s["loads"]["nodal"]],
                  "dist": s["loads"]["dist"], "conc": s["loads"]["conc"]}
    if s["mode"] in ("quarter", "far"):
        P = np.abs(Q).astype(int)
        t["restr"] = {k: [bool(x) for x in np.concatenate([P @ np.array(v[:3], int), P @ np.array(v[3:], int)])] for k, v in s["restr"].items()}
    return t, Q


def o_move(s):
    fr, u = ready(s)
    assume(s["mode"] != "far" or fr.cond < 1e7)
    t, Q = moved(s)
    fr2 = gen.ref_frame(t)
    fr2.load_vector(t["loads"])
    with gen.Work() as w1, gen.Work() as w2:
        gen.solve(gen.build_model(s), [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w1)
        gen.solve(gen.build_model(t), [gen.static_case("c", [(gen.build_pattern("p", t["loads"]), 1.0)])], w2)
        d1, d2 = gen.load_d(w1, "c")[0].reshape(-1, 3), gen.load_d(w2, "c")[0].reshape(-1, 3)
        gen.same_disp(d2.ravel(), (d1 @ Q.T).ravel(), fr2, "displacements of the moved structure", tol=2e-5)
        b1, b2 = gen.beam_resolver(w1), gen.beam_resolver(w2)
        n1, n2 = gen.node_resolver(w1), gen.node_resolver(w2)
        sc = gen.force_scale(fr, s["loads"]) * 30 + 1e-9
        for k in range(len(s["beams"])):
            close(b2.resolve_beam_end_force(gen.bname(k), "c"), b1.resolve_beam_end_force(gen.bname(k), "c"), 2e-5,
                  "end forces (member axes) of the moved structure", scale=sc)
        for k in range(fr.n):
            R1, R2 = np.asarray(n1.resolve_nodal_reaction(gen.nname(k), "c")), np.asarray(n2.resolve_nodal_reaction(gen.nname(k), "c"))
            close(R2.reshape(2, 3), R1.reshape(2, 3) @ Q.T, 2e-5, "reactions of the moved structure", scale=sc)


def make():
    nt = lambda s: gen.nonzero_load(s["loads"]) and (s["rotv"][1] != 0)
    return Check("P14", [
        Sub("quarter-turns", spec("quarter"), o_move, nt, "turned and loaded", quick=110),
        Sub("plan-rotation", spec("plan"), o_move, nt, "turned and loaded", quick=80),
        Sub("any-rotation", spec("any"), o_move, nt, "turned and loaded", quick=80),
        Sub("far-away", spec("far"), o_move, lambda s: gen.nonzero_load(s["loads"]) and max(map(abs, s["t"])) > 500,
            "moved by more than 500 m and loaded", quick=80),
    ], assumptions=["far from the origin only structures whose stiffness has a condition number below 1e7 are judged (rounding)"])
