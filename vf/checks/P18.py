# Deformation along members.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P10 import ready


@st.composite
def spec(draw):
    f = draw(gen.frame(2, 5))
    f["loads"] = draw(gen.loads_for(f, member=False))
    f["xi"] = draw(st.one_of(gen.pick(0.0, 1.0, 0.5, 1e-5, 0.99999), gen.num(0, 1, 2), gen.num(0, 1, 7)))
    f["b"] = draw(st.integers(0, len(f["beams"]) - 1))
    return f


def scales(fr, u, k):
    L = fr.L[k]
    m = np.max(np.abs(u.reshape(-1, 6)[:, :3])) + np.max(np.abs(u.reshape(-1, 6)[:, 3:])) * L
    return m + 1e-12, m / L + 1e-12


def o_exact(s):
    """Members without load of their own deform as the cubic / linear interpolation of their ends, exactly."""
    fr, u = ready(s)
    k, xi = s["b"], s["xi"]
    with gen.Work() as w:
        m = gen.build_model(s)
        gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w)
        d = np.asarray(gen.beam_resolver(w).resolve_beam_deformation(gen.bname(k), xi, "c"), float)
        require(d.shape == (6,), "six values expected")
        b = fr.beams[k]
        loc = fr.T[k] @ np.concatenate([u[6 * b["i"]:6 * b["i"] + 6], u[6 * b["j"]:6 * b["j"] + 6]])
        e = np.concatenate([ref.N_matrix(xi, fr.L[k]) @ loc, ref.slope_matrix(xi, fr.L[k])[::-1] @ loc])
        s1, s2 = scales(fr, u, k)
        close(d[:3], e[:3], 1e-6, "displacement along the member", scale=s1)
        close(d[3:], e[3:], 1e-6, "twist and slopes along the member", scale=s2)
        # the ends reproduce the nodal displacements
        for x, o in ((0.0, 0), (1.0, 6)):
            d = np.asarray(gen.beam_resolver(w).resolve_beam_deformation(gen.bname(k), x, "c"), float)
            v = loc[o:o + 6]
            close(d[:3], v[:3], 1e-6, "displacement at location %g" % x, scale=s1)
            close(d[3:], [v[3], v[5], v[4]], 1e-6, "rotations at location %g" % x, scale=s2)


@st.composite
def split(draw):
    f = draw(spec())
    f["xi"] = draw(gen.num(0.05, 0.95, 2))
    return f


def o_split(s):
    """A joint put at an interior point of an unloaded member moves exactly as the deformation reported there."""
    fr, u = ready(s)
    k, xi = s["b"], s["xi"]
    b = s["beams"][k]
    X = np.array(s["X"])
    P = X[b["i"]] + xi * (X[b["j"]] - X[b["i"]])
    t = dict(s, X=s["X"] + [P.tolist()], beams=[x for q, x in enumerate(s["beams"]) if q != k])
    n = len(s["X"])
    t["beams"] = t["beams"] + [dict(b, j=n), dict(b, i=n)]
    # sub-members of a nearly vertical member must keep the same axes
    R = fr.R[k]
    with gen.Work() as w1, gen.Work() as w2:
        gen.solve(gen.build_model(s), [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w1)
        gen.solve(gen.build_model(t), [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w2)
        d = np.asarray(gen.beam_resolver(w1).resolve_beam_deformation(gen.bname(k), xi, "c"), float)
        v = np.asarray(gen.node_resolver(w2).resolve_nodal_displacement(gen.nname(n), "c"), float)
        tr, ro = R @ v[:3], R @ v[3:]
        s1, s2 = scales(fr, u, k)
        close(d[:3], tr, 1e-5, "displacement of the inserted joint", scale=s1)
        close(d[3:], [ro[0], ro[2], ro[1]], 1e-5, "rotation of the inserted joint", scale=s2)


def make():
    nt = lambda s: 0 < s["xi"] < 1 and gen.nonzero_load(s["loads"])
    return Check("P18", [
        Sub("exact", spec(), o_exact, nt, "interior location, loaded", quick=200),
        Sub("inserted-joint", split(), o_split, nt, "interior location, loaded", quick=120),
        facade.sub(facade.deformation, 120, lambda s: 0 < s["xi"] < 1, ", interior location", member=False),
    ], assumptions=["members without releases and without load of their own, for which the interpolation is exact"])
