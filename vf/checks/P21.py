# Direct time integration.
import os
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, boot
from ..runner import Check, Sub, Violation, close, require
from .P20 import refmodal


@st.composite
def spec(draw, long=False, releases=False):
    f = draw(gen.frame(2, 3 if long else 4, releases=releases))
    if releases:
        gen.release_some(draw, f)
    n = len(f["X"])
    f["mass"] = [[k, [float(draw(st.integers(20, 400))) for _ in range(6)]] for k in range(n)]
    f["crestr"] = {}
    if draw(st.booleans()):
        f["crestr"] = {str(draw(st.integers(0, n - 1))): draw(st.one_of(st.just([True] * 6), st.lists(st.booleans(), min_size=6, max_size=6), st.just([False] * 6)))}
    elif draw(st.booleans()):
        f["restr"], f["crestr"] = {}, f["restr"]
    f["loads"] = [draw(gen.loads_for(f, n_max=3)) for _ in range(draw(st.integers(1, 2)))]
    m = draw(st.integers(50, 420)) if long else draw(st.one_of(st.integers(3, 14), st.integers(1, 3)))
    f["fac"] = [draw(gen.num(-2, 2, 1)) for _ in f["loads"]]
    f["crv"] = []
    for i in range(len(f["loads"])):
        k = m + draw(st.integers(0, 3))
        y = [draw(gen.num(-2, 2, 2)) for _ in range(min(k, 20))]
        f["crv"].append([y[(i * i + i // 20) % len(y)] for i in range(k)] if long else y)
    f["xi"] = draw(gen.pick(0.0, 0.02, 0.05, 0.1, 0.2, 0.35, 5e-4, 3e-3, 1.0, 1.3))
    f["rdt"] = draw(gen.num(0.05, 0.9, 2))
    return f


def step(s, fr, K, M):
    s2 = 1 / np.sqrt(M)
    assume(np.max(np.diag(K)) > 1e-6 * np.max([np.min(np.diag(k)) for k in fr.k]))     # held by more than rounding
    wmax = np.sqrt(np.max(np.linalg.eigvalsh(K * s2[:, None] * s2)))
    return float("%.4g" % (s["rdt"] * 2 / wmax))


def run(s, w, dt, fac=None, crv=None, name="th"):
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase
    from hyperstatic.core.fe_solver.dynamic import TimeHistorySolver
    m = gen.build_model(s)
    for q, v in s["mass"]:
        m.set_nodal_mass(gen.nname(q), *v)
    lc = TimeHistoryCase(name)
    lc.use_direct_time_integration(dt, s["xi"])
    for i, L in enumerate(s["loads"]):
        y = (crv or s["crv"])[i]
        lc.add_pattern(gen.build_pattern("p%d" % i, L), (fac or s["fac"])[i], np.vstack([np.arange(len(y)) * dt, y]))
    for q, v in s["crestr"].items():
        lc.set_nodal_restraint(gen.nname(int(q)), *v)
    Assembly(m, [lc]).save(w, "w.asb")
    TimeHistorySolver(w, "w.asb").solve(name)
    return np.load(os.path.join(w, name + ".d.npy"))


def damping(xi, K, M):
    wi, wj = 2 * np.pi / 2.0, 2 * np.pi / 1.0
    a0, a1 = np.linalg.solve([[1 / wi, wi], [1 / wj, wj]], [2 * xi, 2 * xi])
    return a0 * np.diag(M) + a1 * K


def expected(s, fr, free, K, M, dt):
    C = damping(s["xi"], K, M)
    F = [fr.condensed_F(L)[free] * f for L, f in zip(s["loads"], s["fac"])]
    n = min(len(c) for c in s["crv"])
    u0 = u = np.zeros(len(free))
    out = [u]
    A = np.diag(M) / dt**2 + C / 2 / dt
    for t in range(n):
        p = sum(f * c[t] for f, c in zip(F, s["crv"]))
        acc = p - K @ u + np.diag(M) @ (2 * u - u0) / dt**2 + C @ u0 / 2 / dt
        u0, u = u, np.linalg.solve(A, acc)
        out.append(u)
    return np.array(out)


def floor(s, fr, K, M, dt):
    """Response to the loads before a release or a support takes them away: rounding may leave a trace of it."""
    top = sum(abs(f) * max(map(abs, c)) * np.max(np.abs(_raw(fr, L))) for L, f, c in zip(s["loads"], s["fac"], s["crv"]))
    return 1e-6 * top * dt**2 / np.sqrt(np.min(M)) + 1e-300


def _raw(fr, L):
    fr.load_size = np.zeros(fr.nu)
    fr.load_vector(L)
    return fr.load_size


def o_reference(s):
    fr, free, K, M = refmodal(s)
    assume(len(free) > 0)
    dt = step(s, fr, K, M)
    with gen.Work() as w:
        d = run(s, w, dt)
        e = expected(s, fr, free, K, M, dt)
        require(d.shape == e.shape, "history of shape %s instead of %s" % (d.shape, e.shape))
        sc = np.sqrt(M)
        close(d * sc, e * sc, 1e-6, "displacement history", scale=np.max(np.abs(e * sc)) + floor(s, fr, K, M, dt))
        require(not np.any(d[0]), "the structure does not start from rest")
        nr = gen.node_resolver(w)
        t = d.shape[0]
        full = np.zeros(6 * fr.n)
        full[free] = d[t - 1]
        for q in range(fr.n):
            close(nr.resolve_nodal_displacement(gen.nname(q), "th", t), full[6 * q:6 * q + 6], 1e-12, "history looked up at node %d" % q, scale=np.max(np.abs(full)) + 1e-300)


def o_linear(s):
    """No load, no motion; histories superpose; the past does not depend on the future."""
    fr, free, K, M = refmodal(s)
    assume(len(free) > 0)
    dt = step(s, fr, K, M)
    n = min(len(c) for c in s["crv"])
    sc = np.sqrt(M)
    with gen.Work() as w:
        d = run(s, w, dt)
        z = run(s, w, dt, fac=[0.0] * len(s["fac"]))
        require(not np.any(np.abs(z) > 0), "motion without load")
        parts = 0
        for i in range(len(s["fac"])):
            parts = parts + run(s, w, dt, fac=[f if k == i else 0.0 for k, f in enumerate(s["fac"])])
        m = np.max(np.abs(d * sc)) + np.max(np.abs(parts * sc)) + floor(s, fr, K, M, dt)
        close(parts * sc, d * sc, 1e-7, "superposed histories", scale=m)
        h = n // 2
        cut = run(s, w, dt, crv=[[y if k < h else 0.0 for k, y in enumerate(c)] for c in s["crv"]])
        close(cut[:h + 1] * sc, d[:h + 1] * sc, 1e-9, "displacements before the load changes", scale=m)


@st.composite
def sdof(draw):
    return {"L": draw(gen.num(1, 5, 1)), "p": draw(gen.beamprop), "m": float(draw(st.integers(100, 5000))), "xi": draw(gen.pick(0.0, 0.03)),
            "dof": draw(st.integers(0, 2)), "P": draw(gen.num(100, 1000, 0)), "n": draw(st.integers(40, 80))}


def o_sdof(s):
    """A light cantilever with a heavy tip under a suddenly applied constant force oscillates about the static deflection."""
    f = {"X": [[0, 0, 0], [s["L"], 0, 0]], "props": [dict(s["p"], mat=dict(s["p"]["mat"], rho=1e-6))], "mass": [[1, [s["m"]] * 3 + [0.0] * 3]],
         "beams": [{"i": 0, "j": 1, "p": 0, "rot": 0.0, "rel": None, "simple": False}], "xi": s["xi"], "crestr": {},
         "restr": {"0": [True] * 6, "1": [k != s["dof"] for k in range(6)]}}
    f["loads"] = [{"nodal": [[1, [s["P"] * (k == s["dof"]) for k in range(6)]]], "dist": [], "conc": []}]
    f["fac"], f["crv"] = [1.0], [[1.0] * s["n"]]
    fr, free, K, M = refmodal(f)
    k, m = K[0, 0], M[0]
    om = np.sqrt(k / m)
    C = damping(s["xi"], K, M)[0, 0]
    z = C / (2 * m * om)
    assume(z < 0.9)
    dt = 2 * np.pi / om / 60
    with gen.Work() as w:
        d = run(f, w, dt)[:, 0]
    t = np.arange(d.size) * dt
    wd = om * np.sqrt(1 - z * z)
    e = s["P"] / k * (1 - np.exp(-z * om * t) * (np.cos(wd * t) + z * om / wd * np.sin(wd * t)))
    close(d, e, 0.03, "step response of a one-degree-of-freedom structure", scale=2 * s["P"] / k)


def make():
    nt = lambda s: any(gen.nonzero_load(L) and f and any(c) for L, f, c in zip(s["loads"], s["fac"], s["crv"]))
    return Check("P21", [
        Sub("reference", spec(), o_reference, nt, "a load with a non-zero factor and curve", quick=120,
            classify=lambda s: ["damped" if s["xi"] else "undamped", "patterns%d" % len(s["loads"]), ("own-restraints" if any(map(any, s["crestr"].values())) else "free") if s["crestr"] else "model-restraints"]),
        Sub("long", spec(long=True), o_reference, nt, "a load with a non-zero factor and curve", quick=16, classify=lambda s: ["steps%d+" % (min(map(len, s["crv"])) // 100 * 100)]),
        Sub("released", spec(releases=True), o_reference, lambda s: nt(s) and any(b["rel"] and any(b["rel"]) for b in s["beams"]), "loaded, some end released", quick=60),
        Sub("linearity", spec(), o_linear, nt, "a load with a non-zero factor and curve", quick=60),
        Sub("step-response", sdof(), o_sdof, rule="every case", quick=60),
    ], assumptions=["every free DOF carries mass and the step is below the stability limit of the explicit scheme",
                    "curves are sampled at the step size; the damping is calibrated at periods of 1 s and 2 s"])
