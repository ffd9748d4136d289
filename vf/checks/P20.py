# Modal analysis.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, boot
from ..runner import Check, Sub, Violation, close, require
from .P02 import dense


@st.composite
def spec(draw, releases=False):
    f = draw(gen.frame(2, 5, releases=releases))
    if releases:
        gen.release_some(draw, f)
    n = len(f["X"])
    f["rotmass"] = draw(st.booleans())
    f["mass"] = []
    for k in range(n):
        if f["rotmass"]:
            f["mass"].append([k, [float(draw(st.integers(5, 200))) for _ in range(6)]])
        elif draw(st.booleans()):
            f["mass"].append([k, [float(draw(st.integers(0, 500))) for _ in range(3)] + [0.0] * 3])
    big = draw(gen.pick(1.0, 1.0, 1.0, 1e4, 1e6, 1e7))           # very slow structures, too
    f["mass"] = [[k, [x * big for x in v]] for k, v in f["mass"]]
    f["crestr"] = {}
    if draw(st.booleans()):
        f["crestr"] = {str(draw(st.integers(0, n - 1))): [True] * 6}
    elif draw(st.booleans()):
        f["restr"], f["crestr"] = {}, f["restr"]
    f["k"] = draw(st.integers(1, 40 if f["rotmass"] else 8))
    f["api"] = draw(st.booleans())
    return f


@st.composite
def big(draw):
    f = draw(gen.lattice(24))
    f["rotmass"] = draw(st.booleans())
    r = draw(st.randoms(use_true_random=False))
    f["mass"] = [[k, [float(r.randint(5, 200)) for _ in range(6 if f["rotmass"] else 3)] + ([] if f["rotmass"] else [0.0] * 3)] for k in range(len(f["X"]))]
    slow = draw(gen.pick(1.0, 1.0, 1e4, 1e6))
    f["mass"] = [[k, [x * slow for x in v]] for k, v in f["mass"]]
    f["crestr"], f["k"], f["api"] = {}, draw(st.one_of(st.integers(1, 20), st.integers(30, 120) if f["rotmass"] else st.integers(1, 20))), draw(st.booleans())
    return f


def refmodal(s):
    fr = gen.ref_frame(s)
    n = 6 * fr.n
    D = np.zeros(n)
    for b, L in zip(fr.beams, fr.L):
        h = b["rho"] * b["A"] * L / 2
        for e in (b["i"], b["j"]):
            D[6 * e:6 * e + 3] += h
            D[6 * e + 3:6 * e + 6] += 1e-12
    for k, v in s["mass"]:
        D[6 * k:6 * k + 6] += v
    fx = gen.fixed_dofs(s["crestr"] or s["restr"])
    free = np.array([i for i in range(n) if i not in fx], int)
    K = fr.condensed_K()[np.ix_(free, free)]
    M = D[free]
    return fr, free, K, M


def lowest(K, M, k):
    """Lowest eigenvalues of K v = w M v through the inverse problem."""
    s = 1 / np.sqrt(np.diag(K))
    A = K * s[:, None] * s
    L = np.linalg.cholesky(A)
    Li = np.linalg.inv(L)
    B = Li @ np.diag(M * s * s) @ Li.T
    mu = np.sort(np.linalg.eigvalsh((B + B.T) / 2))[::-1]
    return 1 / mu[:k]


def prepare(s):
    fr, free, K, M = refmodal(s)
    assume(len(free) > 0)
    assume(not fr.loose(free))
    full = np.concatenate([free, np.arange(6 * fr.n, fr.nu)])   # with the released ends, whose elimination leaves rounding
    A = fr.K[np.ix_(full, full)]
    assume(np.all(np.diag(A) > 0))
    sc = 1 / np.sqrt(np.diag(A))
    assume(np.linalg.cond(A * sc[:, None] * sc) < 1e8)
    k = s["k"]
    if not s["rotmass"]:
        k = min(k, int(np.sum(M > 1e-6)) // 2)
        assume(k >= 1)
    return fr, free, K, M, k


def run(s, w, k, api, name="m"):
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import ModalCase
    from hyperstatic.core.fe_solver.dynamic import ModalSolver
    m = gen.build_model(s)
    for q, v in s["mass"]:
        m.set_nodal_mass(gen.nname(q), *v)
    lc = ModalCase(name, k)
    for q, v in s["crestr"].items():
        lc.set_nodal_restraint(gen.nname(int(q)), *v)
    Assembly(m, [lc]).save(w, "w.asb")
    so = ModalSolver(w, "w.asb")
    so.solve_eigen(name, k) if api else so.solve(name)


def results(w, name="m"):
    import os
    from hyperstatic.core.fe_post.structure import StructureResultResolver
    r = StructureResultResolver(w, "w.asb").resolve_modal_frequency(name)
    return r, np.load(os.path.join(w, name + ".d.npy"))


def o_eigen(s):
    fr, free, K, M, k = prepare(s)
    N = len(free)
    with gen.Work() as w:
        run(s, w, k, s["api"])
        r, modes = results(w)
        k = min(k, N)
        om = np.asarray(r["omega"], float)
        require(om.shape == (k,), "%s modes instead of %d" % (om.shape, k))
        require(np.all(np.isfinite(om)) and np.all(om > 0), "angular frequencies %s" % om)
        close(np.asarray(r["f"]) * 2 * np.pi, om, 1e-9, "frequency versus angular frequency", scale=np.max(om))
        close(np.asarray(r["T"]) * om, np.full(k, 2 * np.pi), 1e-9, "period versus angular frequency")
        e = np.sqrt(lowest(K, M, k))
        for a, b in zip(np.sort(om), np.sort(e)):
            close(a, b, 1e-4, "angular frequency")
        require(modes.shape == (k, N), "mode shapes %s" % (modes.shape,))
        sc = np.sqrt(np.diag(K))
        for i in range(k):
            v = modes[i]
            num = np.max(np.abs((K @ v - om[i]**2 * M * v) / sc))
            require(num <= 1e-4 * max(np.max(np.abs(sc * v)), np.max(np.abs(om[i]**2 * M * v / sc))), "mode %d does not satisfy the eigenvalue equation (%g)" % (i, num))
        Gm = modes @ (M[:, None] * modes.T)
        d = np.sqrt(np.abs(np.diag(Gm)))
        require(np.all(d > 0), "mode without mass")
        Gk = modes @ K @ modes.T
        om2 = om * om
        gap = np.abs(om2[:, None] - om2) > 1e-3 * np.maximum(om2[:, None], om2)
        off = np.abs(Gm / d[:, None] / d)[gap]
        require(off.size == 0 or np.max(off) < 1e-3, "modes are not orthogonal with respect to the mass")
        close(np.diag(Gk) / np.diag(Gm), om2, 1e-3, "Rayleigh quotients", scale=1.0 * np.max(om2)) if k == 1 else None
        nr = gen.node_resolver(w)
        full = np.zeros(6 * fr.n)
        full[free] = modes[k - 1]
        for q in range(fr.n):
            close(nr.resolve_nodal_displacement(gen.nname(q), "m", k), full[6 * q:6 * q + 6], 1e-12, "mode shape at node %d" % q, scale=np.max(np.abs(full)))


def o_scaling(s):
    """Stiffer by 4: twice the frequency; heavier by 4: half; more mass never raises a frequency."""
    fr, free, K, M, k = prepare(s)
    k = min(k, len(free), 6)
    out = []
    var = [s,
           dict(s, props=[{"mat": dict(p["mat"], E=4 * p["mat"]["E"]), "sec": p["sec"]} for p in s["props"]]),
           dict(s, props=[{"mat": dict(p["mat"], rho=4 * p["mat"]["rho"]), "sec": p["sec"]} for p in s["props"]],
                mass=[[q, [4 * x for x in v]] for q, v in s["mass"]]),
           dict(s, mass=[[q, [x + 50.0 if i < 3 or s["rotmass"] else x for i, x in enumerate(v)]] for q, v in s["mass"]])]
    for t in var:
        with gen.Work() as w:
            run(t, w, k, True)
            out.append(np.sort(np.asarray(results(w)[0]["omega"], float)))
    for i in range(k):
        close(out[1][i], 2 * out[0][i], 1e-4, "frequency with four times the stiffness")
        close(out[2][i], out[0][i] / 2, 1e-4, "frequency with four times the mass")
        require(out[3][i] <= out[0][i] * (1 + 1e-4), "more mass raised a frequency")


def o_api(s):
    import os
    from hyperstatic.core import Api
    s = dict(s, beams=[dict(b, rot=0.0, rel=None, simple=True) for b in s["beams"]])
    fr, free, K, M, k = prepare(s)
    with gen.Work() as w:
        a = Api(w)
        for q, x in enumerate(s["X"]):
            a.add_node(gen.nname(q), *x)
        for q, v in s["mass"]:
            require(a.set_nodal_mass(gen.nname(q), *v) is True, "set_nodal_mass")
        for q, b in enumerate(s["beams"]):
            p = s["props"][b["p"]]
            mt, sec = p["mat"], p["sec"]
            a.add_simple_beam(gen.bname(q), gen.nname(b["i"]), gen.nname(b["j"]), mt["E"], mt["mu"], sec["A"], sec["I2"], sec["I3"], sec["J"], mt["rho"])
        for q, v in s["restr"].items():
            a.set_nodal_restraint(gen.nname(int(q)), *v)
        require(a.add_modal_case("m") is True, "add_modal_case")
        for q, v in s["crestr"].items():
            require(a.set_loadcase_nodal_restraint("m", gen.nname(int(q)), *v) is True, "set_loadcase_nodal_restraint")
        require(a.assemble() is True, "assemble")
        require(a.solve_modal("m", k) is True, "solve_modal")
        om2 = np.load(os.path.join(w, "m.o.npy")).ravel()
        e = lowest(K, M, min(k, len(free)))
        require(om2.size == e.size, "%d modes instead of %d" % (om2.size, e.size))
        for x, y in zip(np.sort(om2), np.sort(e)):
            close(x, y, 1e-4, "squared angular frequency")
        full = np.zeros(6 * fr.n)
        full[free] = np.load(os.path.join(w, "m.d.npy"))[0]
        al = a.result_get_all_nodal_displacement("m")
        for q in range(fr.n):
            close(al[gen.nname(q)], full[6 * q:6 * q + 6], 1e-12, "first mode at node %d" % q, scale=np.max(np.abs(full)))


def make():
    cl = lambda s: ["own-restraints" if s["crestr"] else "model-restraints", "all-mass" if s["rotmass"] else "lumped", "k>6" if s["k"] > 6 else "k<=6"]
    nt = lambda s: len(s["beams"]) > 1
    return Check("P20", [
        Sub("eigenpairs", spec(), o_eigen, nt, "more than one member", quick=160, classify=cl),
        Sub("released", spec(releases=True), o_eigen, lambda s: any(b["rel"] and any(b["rel"]) for b in s["beams"]), "some end released", quick=80, classify=cl),
        Sub("many-nodes", big(), o_eigen, nt, "more than one member", quick=20),
        Sub("scaling", spec(), o_scaling, nt, "more than one member", quick=50),
        Sub("facade", spec(), o_api, nt, "more than one member", quick=60, classify=cl),
    ], assumptions=["supported structures; modes are compared without regard to sign; when rotations carry no mass, at most half of the translational modes are requested"])
