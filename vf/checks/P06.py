# Section and material properties.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P02 import dense
from .P03 import norm_units

DIM = gen.num(0.05, 1.5, 3)


@st.composite
def shape(draw):
    k = draw(gen.pick("rectangle", "I", "box", "pipe", "circle"))
    if k == "circle":
        z = [draw(DIM)]
    elif k == "pipe":
        d = draw(DIM)
        z = [d, round(d * draw(gen.num(0.02, 0.45, 3)), 6)]
    elif k == "rectangle":
        h = draw(DIM)
        z = [h, round(h * draw(st.one_of(gen.num(0.15, 6, 2), gen.num(0.02, 0.3, 3), gen.num(6, 50, 0))), 6)]
    else:
        h = draw(DIM)
        b = round(h * draw(gen.num(0.3, 2.5, 2)), 6)
        # plates of ordinary slenderness (width/thickness 5 .. 20)
        tw = round((b if k == "box" else h) / draw(gen.num(5, 16, 1)), 6)
        tf = round((h if k == "box" else b) / draw(gen.num(5, 16, 1)), 6)
        if k == "I":
            tf = min(tf, round(h * 0.2, 6))
            tw = min(tw, round(b * 0.4, 6))
        else:
            tw, tf = min(tw, round(b * 0.3, 6)), min(tf, round(h * 0.3, 6))
            if draw(st.integers(0, 3)) == 0:     # thick walls
                tw, tf = round(b * draw(gen.num(0.1, 0.48, 2)), 6), round(h * draw(gen.num(0.1, 0.48, 2)), 6)
        z = [h, b, tw, tf]
    return {"k": k, "z": z, "mat": draw(gen.material), "L": draw(gen.num(0.5, 9, 1)), "a": draw(gen.num(0, 5, 2))}


def rect_J(a, b):
    """Saint-Venant torsion constant of a rectangle (converged series)."""
    a, b = max(a, b), min(a, b)
    s = sum(np.tanh(n * np.pi * a / 2 / b) / n**5 for n in range(1, 201, 2))
    return a * b**3 * (1 / 3 - 64 * b / np.pi**5 / a * s)


def rect_I(h, b):
    """(about the axis along the width [3], about the axis along the height [2])"""
    return b * h**3 / 12, h * b**3 / 12


def expected(k, z):
    if k == "circle":
        d = z[0]
        A, I = np.pi * d * d / 4, np.pi * d**4 / 64
        return dict(A=A, I22=I, I33=I, J=2 * I, As2=.9 * A, As3=.9 * A, W22=2 * I / d, W33=2 * I / d)
    if k == "pipe":
        d, t = z
        di = d - 2 * t
        A, I = np.pi * (d * d - di * di) / 4, np.pi * (d**4 - di**4) / 64
        As = np.pi * t * (d - t) / 2
        return dict(A=A, I22=I, I33=I, J=2 * I, As2=As, As3=As, W22=2 * I / d, W33=2 * I / d)
    h, b = z[0], z[1]
    if k == "rectangle":
        I3, I2 = rect_I(h, b)
        A = h * b
        return dict(A=A, I22=I2, I33=I3, J=rect_J(h, b), As2=5 / 6 * A, As3=5 / 6 * A, W22=I2 / b * 2, W33=I3 / h * 2)
    tw, tf = z[2], z[3]
    if k == "box":
        A = 2 * b * tf + 2 * (h - 2 * tf) * tw
        I3 = 2 * (b * tf**3 / 12 + b * tf * ((h - tf) / 2)**2) + 2 * tw * (h - 2 * tf)**3 / 12
        I2 = 2 * tf * b**3 / 12 + 2 * ((h - 2 * tf) * tw**3 / 12 + (h - 2 * tf) * tw * ((b - tw) / 2)**2)
        Am = (h - tf) * (b - tw)
        J = 4 * Am**2 / (2 * (b - tw) / tf + 2 * (h - tf) / tw)
        return dict(A=A, I22=I2, I33=I3, J=J, As2=2 * tw * h, As3=2 * tf * b, W22=I2 / b * 2, W33=I3 / h * 2)
    A = 2 * b * tf + (h - 2 * tf) * tw
    I3 = 2 * (b * tf**3 / 12 + b * tf * ((h - tf) / 2)**2) + tw * (h - 2 * tf)**3 / 12
    I2 = 2 * tf * b**3 / 12 + (h - 2 * tf) * tw**3 / 12
    J = 2 * rect_J(b, tf) + rect_J(h - 2 * tf, tw)
    return dict(A=A, I22=I2, I33=I3, J=J, As2=tw * h, As3=5 / 3 * tf * b, W22=I2 / b * 2, W33=I3 / h * 2)


# the torsion series is truncated
TOL = dict(A=1e-5, I22=1e-5, I33=1e-5, J=2e-2, As2=1e-5, As3=1e-5, W22=1e-5, W33=1e-5)


def tol_of(k, q):
    if k == "I" and q == "J":
        return 3e-2
    if k in ("circle", "pipe", "box") and q == "J":
        return 1e-5
    return TOL[q]


def material(s):
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    m = s["mat"]
    return IsotropicMaterial("steel", m["rho"], m["E"], m["mu"], s["a"])


def o_section(s):
    from hyperstatic.core.fe_model.section import beam_section as bs
    cls = dict(rectangle=bs.RectangleSection, I=bs.ISection, box=bs.BoxSection, pipe=bs.PipeSection, circle=bs.CircleSection)[s["k"]]
    sec = cls("sec", material(s), *s["z"])
    ex = expected(s["k"], s["z"])
    for q, v in ex.items():
        close(getattr(sec, q), v, tol_of(s["k"], q), "%s of a %s section" % (q, s["k"]))
    close(sec.i22, np.sqrt(sec.I22 / sec.A), 1e-9, "i22")
    close(sec.i33, np.sqrt(sec.I33 / sec.A), 1e-9, "i33")
    close(sec.lamda, s["mat"]["rho"] * sec.A, 1e-9, "mass per length")
    require(tuple(sec.sizes) == tuple(s["z"]), "sizes %s" % (sec.sizes,))
    require(sec.name == "sec" and sec.material == "steel", "names")
    for q in ("E", "mu", "rho"):
        close(getattr(sec, q), s["mat"][q], 1e-12, q)
    close(sec.G, s["mat"]["E"] / (2 * (1 + s["mat"]["mu"])), 1e-9, "G")


def o_scale(s):
    """Dimensional homogeneity, rotation of a rectangle, larger is stiffer."""
    from hyperstatic.core.fe_model.section import beam_section as bs
    cls = dict(rectangle=bs.RectangleSection, I=bs.ISection, box=bs.BoxSection, pipe=bs.PipeSection, circle=bs.CircleSection)[s["k"]]
    mat = material(s)
    a, b = cls("a", mat, *s["z"]), cls("b", mat, *[3.0 * x for x in s["z"]])
    for q, p in dict(A=2, As2=2, As3=2, I22=4, I33=4, J=4, W22=3, W33=3, i22=1, i33=1).items():
        close(getattr(b, q), 3.0**p * getattr(a, q), 1e-9, "%s of the section three times as large" % q)
    if s["k"] == "rectangle":
        c = cls("c", mat, s["z"][1], s["z"][0])
        close([c.A, c.I22, c.I33, c.W22, c.W33], [a.A, a.I33, a.I22, a.W33, a.W22], 1e-9, "turned rectangle")
        close(c.J, a.J, 2e-2, "torsion of the turned rectangle")
    require(a.J <= (a.I22 + a.I33) * (1 + 1e-6), "J exceeds the polar moment of inertia")


def o_element(s):
    """What the model's elements use is what the section says."""
    from hyperstatic.core.fe_model.model import Model
    m = Model()
    m.add_node("1", 0, 0, 0)
    m.add_node("2", s["L"], 0, 0)
    mt = s["mat"]
    m.add_isotropic_material("m", mt["rho"], mt["E"], mt["mu"], s["a"])
    getattr(m, "add_beam_section_" + s["k"])("s", "m", *s["z"])
    m.add_beam("b", "1", "2", "s")
    ex = expected(s["k"], s["z"])
    G = mt["E"] / 2 / (1 + mt["mu"])
    K = norm_units(dense(m.get_beam_K("b")), s["L"])
    Kr = norm_units(ref.beam_K(mt["E"], G, ex["A"], ex["I22"], ex["I33"], ex["J"], s["L"]), s["L"])
    for g, q in (((0, 6), "A"), ((1, 5, 7, 11), "I33"), ((2, 4, 8, 10), "I22"), ((3, 9), "J")):
        ix = np.ix_(g, g)
        close(K[ix], Kr[ix], tol_of(s["k"], q), "element stiffness from %s of a %s section" % (q, s["k"]))
    close(dense(m.get_beam_M("b"))[0, 0], mt["rho"] * ex["A"] * s["L"] / 2, 1e-5, "element mass")
    # an equal general section gives the same element
    m.add_beam_section_general("g", "m", ex["A"], 1.0, 2.0, ex["I22"], ex["I33"], ex["J"], 3.0, 4.0)
    m.add_beam("c", "1", "2", "g")
    close(norm_units(dense(m.get_beam_K("c")), s["L"]), Kr, 1e-9, "general section")


mats = st.fixed_dictionaries({"rho": st.one_of(gen.num(1, 9000, 1), gen.fine(1, 9000, 1), gen.fine(1, 9000, 1).map(lambda x: x * 1e-12)), "E": st.one_of(gen.num(0.01, 400, 3).map(lambda x: x * 1e9), gen.fine(0.01, 400, 3)),
                              "mu": gen.num(0, 0.49, 3), "a": gen.num(0, 1, 4), "e": st.lists(st.one_of(st.integers(-9, 9), gen.fine(-9, 9, 4)), min_size=6, max_size=6)})


def o_material(s):
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    m = IsotropicMaterial("x", s["rho"], s["E"], s["mu"], s["a"])
    E, nu = s["E"], s["mu"]
    close([m.E, m.mu, m.rho, m.a], [E, nu, s["rho"], s["a"]], 1e-15, "stored values")
    close(m.G, E / (2 + 2 * nu), 1e-9, "shear modulus")
    close(m.lamda, E * nu / ((1 + nu) * (1 - 2 * nu)), 1e-9, "Lame's first parameter", scale=E)
    # E and the bulk modulus follow from the two Lame parameters
    lam, G = m.lamda, m.G
    close(G * (3 * lam + 2 * G) / (lam + G), E, 1e-9, "E from the Lame parameters")
    from hyperstatic.core.fe_model.section.shell_section import ShellSection
    for kind in ("shell", "plate", "membrane"):
        h = ShellSection("h", m, 0.01 + s["a"], kind)
        require(h.name == "h" and h.material == "x" and h.ele_type == kind, "names of a shell section")
        close([h.t, h.rho, h.E / E, h.mu, h.G / E], [0.01 + s["a"], s["rho"], 1.0, nu, 1 / (2 + 2 * nu)], 1e-12, "values of a shell section")
    require(ShellSection("h", m, 0.2).ele_type == "shell", "default type of a shell section")
    # stresses of a strain state
    e = np.array([k * 1e-3 for k in s["e"]])
    eps = np.array([[e[0], e[3] / 2, e[5] / 2], [e[3] / 2, e[1], e[4] / 2], [e[5] / 2, e[4] / 2, e[2]]])
    close(m.C(*e), eps, 1e-12, "strain tensor", scale=1e-3)
    close(np.array(m.D(*e), float) / E, (lam * np.trace(eps) * np.eye(3) + 2 * G * eps) / E, 1e-9, "stresses", scale=1e-3 * lam / E + 1e-3)
    require(m.name == "x" and m.mat_model == "isotropy", "name / model")


def make():
    return Check("P06", [
        Sub("sections", shape(), o_section, rule="every case", quick=600, classify=lambda s: [s["k"]]),
        Sub("scaling", shape(), o_scale, rule="every case", quick=200),
        Sub("element", shape(), o_element, rule="every case", quick=200, classify=lambda s: [s["k"]]),
        Sub("material", mats, o_material, rule="every case", quick=200),
        Sub("facade", shape(), facade.section, rule="every case", quick=80, classify=lambda s: [s["k"]]),
    ], assumptions=["torsion constants are compared within 2-3 % (the code truncates the series); widths are at most 16 plate thicknesses there"])
