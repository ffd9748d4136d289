# Results do not depend on names, on the order of definition or on member direction.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P10 import ready

# alike in every sense but equality: long common beginnings and ends, composed and decomposed letters, full-width figures, case foldings
ALIKE = ["storey-%s-%d" % ("x" * k, i) for k in (8, 24, 60) for i in (1, 2)] + ["%d-%s-storey" % (i, "x" * 40) for i in (1, 2)] + [
    "\u00e9", "e\u0301", "\uff11", "1", "\u00df", "ss", "SS", "\u212b", "\u00c5", "a\u00a0b", "a b", "a\u200bb"]
NAME = st.one_of(st.sampled_from(ALIKE), st.text(alphabet="ABab01_- .\u6881", min_size=1, max_size=5),
                 st.sampled_from(["a", "A", "a ", " a", "ab", "AB", "aB", "1", "01", "1.0", "1 ", "+1", "0", "-0", "n1", "N1", "n01"]))


@st.composite
def spec(draw):
    f = draw(gen.frame(2, 6, releases=True))
    f["loads"] = draw(gen.loads_for(f, n_max=4))
    n, m = len(f["X"]), len(f["beams"])
    f["nn"] = draw(st.lists(NAME, min_size=n, max_size=n, unique=True))
    f["bn"] = draw(st.lists(NAME, min_size=m, max_size=m, unique=True))
    f["no"] = draw(st.permutations(list(range(n))))
    f["bo"] = draw(st.permutations(list(range(m))))
    return f


def o_names(s):
    fr, u = ready(s)
    n = fr.n
    with gen.Work() as w1, gen.Work() as w2:
        gen.solve(gen.build_model(s), [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w1)
        names = (s["nn"], s["bn"])
        m = gen.build_model(s, names, s["no"], s["bo"])
        gen.solve(m, [gen.static_case("case x", [(gen.build_pattern("q", s["loads"], names), 1.0)])], w2)
        d1 = gen.load_d(w1, "c")[0].reshape(-1, 6)
        r2, b1, b2 = gen.node_resolver(w2), gen.beam_resolver(w1), gen.beam_resolver(w2)
        d2 = np.array([r2.resolve_nodal_displacement(s["nn"][k], "case x") for k in range(n)])
        gen.same_disp(d2, d1.ravel(), fr, "displacements after renaming and reordering")
        sc = gen.force_scale(fr, s["loads"]) * 30 + 1e-9
        for k in range(len(s["beams"])):
            close(b2.resolve_beam_end_force(s["bn"][k], "case x"), b1.resolve_beam_end_force(gen.bname(k), "c"), 1e-6,
                  "end forces after renaming", scale=sc)
        for pos, k in enumerate(s["no"]):
            require(m.get_node_hid(s["nn"][k]) == pos, "node index follows the order of definition")


# a case's name is also that of a file
CASE = st.one_of(st.text(alphabet="ABab01_- @+\u6881", min_size=1, max_size=5),
                 st.sampled_from(ALIKE), st.sampled_from(["a", "a_b", "a b", "a@1", "a@2", "1", "01", "c.1", "c.2", "0", "a-b"])).filter(lambda x: x == x.strip())


@st.composite
def parts(draw):
    """several patterns in several cases, named at will (patterns possibly like members, cases or nodes)"""
    f = draw(gen.frame(2, 5, releases=True))
    n, m = len(f["X"]), len(f["beams"])
    f["pats"] = [draw(gen.loads_for(f, n_max=3)) for _ in range(draw(st.integers(1, 3)))]
    f["loads"] = gen.combine([(p, 1.0) for p in f["pats"]])
    f["cases"] = [[[k, draw(gen.pick(1.0, -1.0, 0.5, 2.0))] for k in draw(st.lists(st.integers(0, len(f["pats"]) - 1), min_size=1, max_size=3, unique=True))]
                  for _ in range(draw(st.integers(1, 4)))]
    f["nn"] = draw(st.lists(NAME, min_size=n, max_size=n, unique=True))
    f["bn"] = draw(st.lists(NAME, min_size=m, max_size=m, unique=True))
    f["pn"] = draw(st.lists(st.one_of(NAME, gen.pick(*f["nn"], *f["bn"]), gen.pick(*f["bn"]).map(lambda x: x + "1")), min_size=len(f["pats"]), max_size=len(f["pats"]), unique=True))
    f["cn"] = draw(st.lists(CASE, min_size=len(f["cases"]), max_size=len(f["cases"]), unique=True))
    return f


def o_parts(s):
    fr, u = ready(s)
    fx = gen.fixed_dofs(s["restr"])
    names = (s["nn"], s["bn"])
    with gen.Work() as w:
        pats = [gen.build_pattern(q, p, names) for q, p in zip(s["pn"], s["pats"])]
        cases = [gen.static_case(q, [(pats[k], f) for k, f in c]) for q, c in zip(s["cn"], s["cases"])]
        gen.solve(gen.build_model(s, names), cases, w)
        nr, br = gen.node_resolver(w), gen.beam_resolver(w)
        for q, c in zip(s["cn"], s["cases"]):
            L = gen.combine([(s["pats"][k], f) for k, f in c])
            fr.load_size = 0.0
            u = fr.solve(L, fx)
            assume(u is not None)
            d = [nr.resolve_nodal_displacement(x, q) for x in s["nn"]]
            gen.same_disp(np.ravel(d), u, fr, "displacements under case %r" % q)
            sc = gen.force_scale(fr, L) * 30 + 1e-9
            for k in range(len(s["beams"])):
                close(br.resolve_beam_end_force(s["bn"][k], q), fr.end_force(k, L), 1e-6, "end forces of %r under case %r" % (s["bn"][k], q), scale=sc)


@st.composite
def flip(draw):
    f = draw(gen.frame(2, 5, releases=True))
    f["loads"] = draw(gen.loads_for(f, n_max=4))
    f["flip"] = [draw(st.booleans()) for _ in f["beams"]]
    return f


def flipped(s):
    """Define some members from the other end, loads and releases carried along."""
    t = dict(s, beams=[], loads={"nodal": s["loads"]["nodal"], "dist": [], "conc": []})
    sg = {}
    for k, (b, fl) in enumerate(zip(s["beams"], s["flip"])):
        if not fl:
            t["beams"].append(b)
            continue
        R = ref.beam_axes(s["X"][b["i"]], s["X"][b["j"]], b["rot"])
        c = dict(b, i=b["j"], j=b["i"])
        # new x is -x; choose the rotation for which the new y is the old y (z is then reversed)
        R0 = ref.beam_axes(s["X"][c["i"]], s["X"][c["j"]], 0.0)
        c["rot"] = float(np.arctan2(np.dot(np.cross(R0[1], R[1]), R0[0]), np.dot(R0[1], R[1])))
        if b["rel"]:
            c["rel"] = b["rel"][6:] + b["rel"][:6]
        t["beams"].append(c)
        sg[k] = (-1, 1, -1)
    for k, q in s["loads"]["dist"]:
        if k in sg:
            q = [-q[1], -q[0], q[3], q[2], -q[5], -q[4], -q[7], -q[6]]
        t["loads"]["dist"].append([k, q])
    for k, v, r in s["loads"]["conc"]:
        if k in sg:
            v, r = [a * b for a, b in zip(v, sg[k] * 2)], 1 - r
        t["loads"]["conc"].append([k, v, r])
    return t, sg


def o_flip(s):
    fr, u = ready(s)
    t, sg = flipped(s)
    with gen.Work() as w1, gen.Work() as w2:
        gen.solve(gen.build_model(s), [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w1)
        gen.solve(gen.build_model(t), [gen.static_case("c", [(gen.build_pattern("p", t["loads"]), 1.0)])], w2)
        d1, d2 = gen.load_d(w1, "c")[0], gen.load_d(w2, "c")[0]
        gen.same_disp(d2, d1, fr, "displacements after reversing members")
        b1, b2 = gen.beam_resolver(w1), gen.beam_resolver(w2)
        sc = gen.force_scale(fr, s["loads"]) * 30 + 1e-9
        for k in range(len(s["beams"])):
            e1, e2 = np.asarray(b1.resolve_beam_end_force(gen.bname(k), "c")), np.asarray(b2.resolve_beam_end_force(gen.bname(k), "c"))
            if k in sg:
                e2 = np.concatenate([e2[6:], e2[:6]]) * np.array(sg[k] * 4)
            close(e2, e1, 1e-6, "end forces after reversing members", scale=sc)


def make():
    return Check("P13", [
        Sub("names-and-order", spec(), o_names, lambda s: len(s["X"]) > 2 and s["no"] != sorted(s["no"]), "order of the nodes changed", quick=130),
        Sub("patterns-and-cases", parts(), o_parts, lambda s: len(s["cases"]) > 1 and gen.nonzero_load(s["loads"]), "several cases, loaded", quick=100),
        Sub("direction", flip(), o_flip, lambda s: any(s["flip"]) and gen.nonzero_load(s["loads"]), "a member reversed, loaded", quick=130),
        facade.sub(facade.renamed, 100, source=facade.named()),
    ])
