# Beam element stiffness.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P02 import dense

prop = st.fixed_dictionaries({
    "E": gen.num(0.1, 400, 2).map(lambda x: x * 1e9), "mu": gen.num(0, 0.49, 2), "rho": gen.num(1, 9000, 0),
    "A": gen.num(0.001, 2, 4), "I2": gen.num(0.00001, 0.5, 5), "I3": gen.num(0.00001, 0.5, 5), "J": gen.num(0.00001, 0.5, 5),
    "A_": st.just(0), "thin": gen.pick(1, 1, 1, 0.1, 0.01, 1e-3), "L": st.one_of(gen.num(0.1, 40, 2), gen.fine(0.1, 40, 2)), "mm": st.integers(0, 3).map(lambda k: k == 0), "dir": gen.unit_vec.map(list), "cls": gen.pick("beam", "simple", "api"),
})


thin = lambda s: s if s["thin"] == 1 else dict(s, thin=1, A=s["A"] * s["thin"], I2=s["I2"] * s["thin"] ** 2, I3=s["I3"] * s["thin"] ** 2, J=s["J"] * s["thin"] ** 2)      # down to wires
# the same member in millimetres, newtons and tonnes
units = lambda s: dict(s, mm=False, L=s["L"] * 1e3, A=s["A"] * 1e6, I2=s["I2"] * 1e12, I3=s["I3"] * 1e12, J=s["J"] * 1e12, E=s["E"] * 1e-6, rho=s["rho"] * 1.00003714e-12) if s["mm"] else s
prop = prop.map(thin).map(units)


def elem(s, dirn=None):
    from hyperstatic.core.fe_model.node import Node
    d = np.array(dirn if dirn is not None else s["dir"], float)
    d = d / np.linalg.norm(d) * s["L"]
    n1, n2 = Node("1", 0.3, -0.2, 0.1), Node("2", 0.3 + d[0], -0.2 + d[1], 0.1 + d[2])
    if s["cls"] == "simple":
        from hyperstatic.core.fe_model.element.line.simple_beam import SimpleBeam
        return SimpleBeam("e", n1, n2, s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"])
    from hyperstatic.core.fe_model.element.line.beam import Beam
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.beam_section import BeamSection
    mat = IsotropicMaterial("m", s["rho"], s["E"], s["mu"], 1e-5)
    return Beam("e", n1, n2, BeamSection("s", mat, "general", [], s["A"], 0.8 * s["A"], 0.7 * s["A"], s["J"], s["I2"], s["I3"], 1, 2))


def norm_units(K, L):
    """Make translations and rotations comparable (rotation DOFs scaled by 1/L)."""
    D = np.diag([1, 1, 1, 1 / L, 1 / L, 1 / L] * 2)
    return D @ K @ D


GROUPS = [(0, 6), (1, 5, 7, 11), (2, 4, 8, 10), (3, 9)]


def cmp_groups(K, Kr, L, tol, what):
    """Compare group by group: axial, two bending planes, torsion differ by orders of magnitude."""
    K, Kr = norm_units(K, L), norm_units(Kr, L)
    mask = np.ones((12, 12), bool)
    for g in GROUPS:
        ix = np.ix_(g, g)
        mask[ix] = False
        close(K[ix], Kr[ix], tol, what + " DOFs %s" % (g,))
    require(np.max(np.abs(K[mask])) <= tol * np.max(np.abs(Kr)), what + ": coupling between independent actions")


def o_formula(s):
    e = elem(s)
    K = dense(e.integrate_K())
    require(K.shape == (12, 12), "shape %s" % (K.shape,))
    Kr = ref.beam_K(s["E"], s["E"] / 2 / (1 + s["mu"]), s["A"], s["I2"], s["I3"], s["J"], s["L"])
    cmp_groups(K, Kr, s["L"], 1e-8, "stiffness")


def o_rigid(s):
    """Symmetric, positive semidefinite, exactly the six rigid motions cost no energy."""
    e = elem(s)
    L = s["L"]
    K = norm_units(dense(e.integrate_K()), L)
    close(K, K.T, 1e-12, "symmetry")
    w = np.linalg.eigvalsh(K)
    require(w[0] > -1e-10 * w[-1], "negative energy mode %g of %g" % (w[0], w[-1]))
    modes = []
    for k in range(3):
        r = np.zeros(12)
        r[k] = r[6 + k] = 1
        modes.append(r)
    for k in range(3):
        th = np.eye(3)[k]
        r = np.zeros(12)
        r[3:6] = th * L
        r[6:9] = np.cross(th, [L, 0, 0])
        r[9:12] = th * L
        modes.append(r)
    for r in modes:
        f = K @ r
        # per group scaling: a force must vanish against the entries of its own row
        lim = 1e-10 * np.abs(K).dot(np.abs(r)) + 1e-300
        require(np.all(np.abs(f) <= lim), "rigid motion %s costs force %s" % (r.tolist(), f.tolist()))
    for g, nz in zip(GROUPS, (1, 2, 2, 1)):
        w = np.linalg.eigvalsh(K[np.ix_(g, g)])
        require(np.sum(w > 1e-8 * w[-1]) == len(g) - nz, "rank of DOFs %s: %s" % (g, w.tolist()))


def o_indep(s):
    """Independent of the member's direction in space; E scales it; classes agree."""
    K0 = dense(elem(s).integrate_K())
    K1 = dense(elem(s, [0, 0, 1.0]).integrate_K())
    cmp_groups(K1, K0, s["L"], 1e-8, "stiffness of the same member in another direction")
    t = dict(s, E=s["E"] * 2.5)
    cmp_groups(dense(elem(t).integrate_K()), 2.5 * K0, s["L"], 1e-10, "stiffness with 2.5 E")
    t = dict(s, cls="simple" if s["cls"] != "simple" else "beam")
    cmp_groups(dense(elem(t).integrate_K()), K0, s["L"], 1e-10, "both member classes")


def make():
    return Check("P03", [
        Sub("formula", prop, o_formula, rule="every case", quick=500, classify=lambda s: [s["cls"]]),
        Sub("rigid-motions", prop, o_rigid, rule="every case", quick=300),
        Sub("independence", prop, o_indep, rule="every case", quick=150),
        facade.sub(facade.stiffness, 120, lambda s: len(s["beams"]) > 1, ", several members"),
    ])
