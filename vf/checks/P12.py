# Linearity, superposition and reciprocity of static results.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require


@st.composite
def spec(draw):
    f = draw(gen.frame(2, 5, releases=True))
    f["A"] = draw(gen.loads_for(f))
    f["B"] = draw(gen.loads_for(f))
    f["fa"], f["fb"] = draw(gen.num(-3, 3, 2)), draw(gen.num(-3, 3, 2))
    return f


def o_super(s):
    fr = gen.ref_frame(s)
    u = fr.solve(s["A"], gen.fixed_dofs(s["restr"]))
    assume(u is not None and fr.cond < 1e9)
    with gen.Work() as w:
        m = gen.build_model(s)
        a, b = gen.build_pattern("A", s["A"]), gen.build_pattern("B", s["B"])
        z = gen.build_pattern("Z", {"nodal": [], "dist": [], "conc": []})
        cases = [gen.static_case("a", [(a, 1.0)]), gen.static_case("b", [(b, 1.0)]),
                 gen.static_case("ab", [(a, s["fa"]), (b, s["fb"])]), gen.static_case("zero", [(z, 1.0), (a, 0.0)])]
        gen.solve(m, cases, w)
        da, db, dab, d0 = [gen.load_d(w, c)[0] for c in ("a", "b", "ab", "zero")]
        k = np.sqrt(np.diag(fr.K)[:6 * fr.n])
        ex = 3e0 * max(np.max(np.abs(k * da)), np.max(np.abs(k * db)))
        gen.same_disp(dab, s["fa"] * da + s["fb"] * db, fr, "combined case", extra=ex)
        require(not np.any(np.abs(d0) > 1e-12), "displacement without load")
        br, nr = gen.beam_resolver(w), gen.node_resolver(w)
        sc = max(gen.force_scale(fr, s["A"]), gen.force_scale(fr, s["B"])) * 30
        for i in range(len(s["beams"])):
            ea, eb, eab, e0 = [np.asarray(br.resolve_beam_end_force(gen.bname(i), c)) for c in ("a", "b", "ab", "zero")]
            close(eab, s["fa"] * ea + s["fb"] * eb, 1e-6, "end forces of the combined case", scale=sc)
            close(e0, np.zeros(12), 1e-9, "end forces without load", scale=1)
        for i in range(fr.n):
            ra, rb, rab = [np.asarray(nr.resolve_nodal_reaction(gen.nname(i), c)) for c in ("a", "b", "ab")]
            close(rab, s["fa"] * ra + s["fb"] * rb, 1e-6, "reactions of the combined case", scale=sc)


@st.composite
def scaled(draw):
    f = draw(gen.frame(2, 5, releases=True))
    f["A"] = draw(gen.loads_for(f))
    f["k"] = draw(st.integers(-15, 9).filter(bool))
    f["how"] = draw(st.sampled_from(["values", "factor"]))
    return f


def times(L, c):
    return {"nodal": [[k, [x * c for x in v]] for k, v in L["nodal"]],
            "dist": [[k, [x * c for x in v]] for k, v in L["dist"]],
            "conc": [[k, [x * c for x in v], r] for k, v, r in L["conc"]]}


def o_scaled(s):
    """the same load, 10^k times as large"""
    fr = gen.ref_frame(s)
    u = fr.solve(s["A"], gen.fixed_dofs(s["restr"]))
    assume(u is not None and fr.cond < 1e9)
    c = 10.0 ** s["k"]
    with gen.Work() as w:
        m = gen.build_model(s)
        a = gen.build_pattern("A", s["A"])
        b = (gen.build_pattern("B", times(s["A"], c)), 1.0) if s["how"] == "values" else (a, c)
        gen.solve(m, [gen.static_case("a", [(a, 1.0)]), gen.static_case("b", [b])], w)
        da, db = [gen.load_d(w, n)[0] for n in "ab"]
        gen.same_disp(db / c, da, fr, "displacements under 1e%d times the load" % s["k"])
        br, nr = gen.beam_resolver(w), gen.node_resolver(w)
        sc = gen.force_scale(fr, s["A"]) * 30 + 1e-9
        for i in range(len(s["beams"])):
            ea, eb = [np.asarray(br.resolve_beam_end_force(gen.bname(i), n)) for n in "ab"]
            close(eb / c, ea, 1e-6, "end forces under 1e%d times the load" % s["k"], scale=sc)
        for i in range(fr.n):
            ra, rb = [np.asarray(nr.resolve_nodal_reaction(gen.nname(i), n)) for n in "ab"]
            close(rb / c, ra, 1e-6, "reactions under 1e%d times the load" % s["k"], scale=sc)


@st.composite
def recip(draw):
    f = draw(gen.frame(2, 6, releases=True))
    n = len(f["X"])
    f["p"], f["q"] = [[draw(st.integers(0, n - 1)), draw(st.integers(0, 5))] for _ in range(2)]
    return f


def o_recip(s):
    fr = gen.ref_frame(s)
    La = {"nodal": [[s["p"][0], [1000.0 * (d == s["p"][1]) for d in range(6)]]], "dist": [], "conc": []}
    Lb = {"nodal": [[s["q"][0], [1000.0 * (d == s["q"][1]) for d in range(6)]]], "dist": [], "conc": []}
    u = fr.solve(La, gen.fixed_dofs(s["restr"]))
    assume(u is not None and fr.cond < 1e9)
    with gen.Work() as w:
        m = gen.build_model(s)
        gen.solve(m, [gen.static_case("a", [(gen.build_pattern("A", La), 1.0)]), gen.static_case("b", [(gen.build_pattern("B", Lb), 1.0)])], w)
        da, db = gen.load_d(w, "a")[0], gen.load_d(w, "b")[0]
        i, j = 6 * s["p"][0] + s["p"][1], 6 * s["q"][0] + s["q"][1]
        sc = np.sqrt(abs(da[i] * db[j])) + 1e-15
        close(da[j], db[i], 1e-6, "reciprocal displacements", scale=sc)
        require(da[i] >= -1e-15 and db[j] >= -1e-15, "a load does negative work")


def make():
    return Check("P12", [
        Sub("superposition", spec(), o_super, lambda s: gen.nonzero_load(s["A"]) and gen.nonzero_load(s["B"]) and s["fa"] and s["fb"], "two loads, both factors not zero", quick=120),
        Sub("proportionality", scaled(), o_scaled, lambda s: gen.nonzero_load(s["A"]) and abs(s["k"]) > 1, "a load, 100 times as large or small", quick=120),
        Sub("reciprocity", recip(), o_recip, lambda s: s["p"] != s["q"], "different DOFs", quick=150),
        facade.sub(facade.superposed, 100, lambda s: len(s["cases"][0]["p"]) > 1, ", several patterns", cases=1),
    ])
