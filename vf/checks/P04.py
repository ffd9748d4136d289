# Beam mass matrices and nodal masses.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P02 import dense
from .P03 import prop, elem, norm_units


def o_consistent(s):
    M = dense(elem(s).integrate_M(consistent=True))
    Mr = ref.beam_M_consistent(s["rho"], s["A"], s["J"], s["L"])
    a, b = norm_units(M, s["L"]), norm_units(Mr, s["L"])
    for g in [(0, 6), (1, 5, 7, 11), (2, 4, 8, 10), (3, 9)]:
        ix = np.ix_(g, g)
        close(a[ix], b[ix], 1e-9, "consistent mass, DOFs %s" % (g,))
    close(a, b, 1e-9, "consistent mass")
    close(M, M.T, 1e-12, "symmetry")
    require(np.linalg.eigvalsh(a)[0] > 0, "not positive definite")


def o_total(s):
    """Both formulations carry the member's mass and its linear momentum."""
    e = elem(s)
    m = s["rho"] * s["A"] * s["L"]
    for cons in (False, True):
        M = dense(e.integrate_M(consistent=cons))
        for k in range(3):
            r = np.zeros(12)
            r[k] = r[6 + k] = 1
            close(r @ M @ r, m, 1e-9, "mass in direction %d (consistent=%s)" % (k, cons))
            close(np.sum(M[k::6][:, :3] @ np.eye(3)[:, [k]]) if False else (r @ M)[[k, 6 + k]], [m / 2, m / 2], 1e-9, "half at each end")
    M = dense(e.integrate_M())
    off = M - np.diag(np.diag(M))
    require(np.max(np.abs(off)) <= 1e-12 * m, "lumped mass not diagonal")
    close(np.diag(M)[[0, 1, 2, 6, 7, 8]], [m / 2] * 6, 1e-9, "lumped translational mass")
    require(np.all(np.diag(M)[[3, 4, 5, 9, 10, 11]] >= 0) and np.all(np.diag(M)[[3, 4, 5, 9, 10, 11]] <= 1e-6 * max(m, 1)),
            "rotational lumped mass is negligible")


# some directions may carry nothing
nodal_mass = st.tuples(st.lists(st.one_of(st.integers(0, 500), st.integers(0, 500).map(float), gen.num(0, 500, 2)), min_size=6, max_size=6), gen.pick("all", "all", "moved", "turned", "some"), st.integers(1, 62)).map(
    lambda v: [x * (v[1] == "all" or v[1] == "moved" and k < 3 or v[1] == "turned" and k > 2 or v[1] == "some" and v[2] >> k & 1) for k, x in enumerate(v[0])])


@st.composite
def massframe(draw):
    f = draw(gen.frame(2, 5, rotations=True))
    if draw(st.integers(0, 2)) == 0:             # whatever its ends transmit, a member has its mass
        gen.release_some(draw, f)
    f["mass"] = []
    for k in range(len(f["X"])):
        if draw(st.booleans()):
            f["mass"].append([k, draw(nodal_mass)])
    return f


def o_global(s):
    """Global mass matrix = nodal masses + half of each member at its ends."""
    from hyperstatic.core.fe_model.assembly import Assembly
    m = gen.build_model(s)
    for k, v in s["mass"]:
        m.set_nodal_mass(gen.nname(k), *v)
    M = dense(Assembly(m, []).assemble_M())
    n = len(s["X"])
    D = np.zeros(6 * n)
    tot = 0.0
    for b in s["beams"]:
        d = gen.beam_data(s, b)
        L = np.linalg.norm(np.subtract(s["X"][b["i"]], s["X"][b["j"]]))
        h = d["rho"] * d["A"] * L / 2
        tot += 2 * h
        for e in (b["i"], b["j"]):
            D[6 * e:6 * e + 3] += h
    for k, v in s["mass"]:
        D[6 * k:6 * k + 6] += v
        close(m.get_nodal_mass(gen.nname(k)), v, 1e-12, "nodal mass read back")
    sc = max(np.max(D), 1.0)
    close(M, np.diag(D), 1e-9, "global mass matrix", scale=sc)
    for d in range(3):
        r = np.zeros(6 * n)
        r[d::6] = 1
        close(r @ M @ r, tot + sum(v[d] for _, v in s["mass"]), 1e-9, "total mass in direction %d" % d)


def o_member(s):
    """the mass of a member through the model: in local axes that of the element, globally the same energy"""
    from hyperstatic.core.fe_model.model import Model
    f = dict(s, mass=[])
    m = gen.build_model(f)
    for k, b in enumerate(s["beams"]):
        d = gen.beam_data(s, b)
        X = np.array(s["X"])
        L = np.linalg.norm(X[b["i"]] - X[b["j"]])
        T = ref.blocks(ref.beam_axes(X[b["i"]], X[b["j"]], b["rot"]), 4)
        M = dense(m.get_beam_M(gen.bname(k)))
        G = dense(m.get_beam_M(gen.bname(k), local=False))
        tot = d["rho"] * d["A"] * L
        close(G, T.T @ M @ T, 1e-8, "mass of a member in global axes", scale=tot * max(1, L * L))
        for c in range(3):
            for A in (M, G):
                r = np.zeros(12)
                r[c::6] = 1
                close(r @ A @ r, tot, 1e-8, "mass of a member moving along axis %d" % c)


def make():
    return Check("P04", [
        Sub("consistent", prop, o_consistent, rule="every case", quick=400),
        Sub("totals", prop, o_total, rule="every case", quick=300),
        Sub("global", massframe(), o_global, lambda s: len(s["mass"]) > 0 and len(s["beams"]) > 1, "several members and a nodal mass", quick=150),
        Sub("member", massframe(), o_member, lambda s: any(b["rot"] for b in s["beams"]), "some member is turned", quick=100),
        facade.sub(facade.mass, 120, lambda s: len(s["mass"]) > 0, ", some nodal mass"),
    ], assumptions=["shell elements carry no mass in this code base; the mass properties are stated for members and nodes"])
