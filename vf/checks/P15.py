# Restraints: model-wide and per load case.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require


@st.composite
def spec(draw):
    f = draw(gen.frame(2, 5))
    n = len(f["X"])
    f["loads"] = [draw(gen.loads_for(f)) for _ in range(2)]
    f["cases"] = []
    for _ in range(draw(st.integers(1, 3))):
        r = {}
        if draw(st.integers(0, 2)):
            fix = draw(st.integers(0, n - 1))
            r[str(fix)] = [True] * 6
            for k in draw(st.permutations(list(range(n)))):
                if k != fix and draw(st.integers(0, 2)) == 0:
                    r[str(k)] = [draw(st.booleans()) for _ in range(6)]
            if draw(st.booleans()):
                r = dict(reversed(list(r.items())))
        # a list keeps the order of definition
        f["cases"].append({"p": draw(st.integers(0, 1)), "f": draw(gen.num(-2, 2, 1)), "r": [[k, v] for k, v in r.items()]})
    f["order"] = draw(st.permutations(list(range(len(f["cases"])))))
    f["twice"] = draw(st.booleans())
    return f


def o_cases(s):
    fr = gen.ref_frame(s)
    exp = []
    for c in s["cases"]:
        r = dict(c["r"]) or s["restr"]
        u = fr.solve(gen.combine([(s["loads"][c["p"]], c["f"])]), gen.fixed_dofs(r))
        assume(u is not None and fr.cond < 1e9)
        exp.append((u, gen.fixed_dofs(r)))
    with gen.Work() as w:
        m = gen.build_model(s)
        if s["twice"]:                      # a restraint entered again replaces the earlier one
            for k, v in list(s["restr"].items()):
                m.set_nodal_restraint(gen.nname(int(k)), *[not x for x in v])
            for k, v in s["restr"].items():
                m.set_nodal_restraint(gen.nname(int(k)), *v)
        P = [gen.build_pattern("p%d" % i, l) for i, l in enumerate(s["loads"])]
        cases = [gen.static_case("c%d" % i, [(P[c["p"]], c["f"])], dict(c["r"])) for i, c in enumerate(s["cases"])]
        gen.solve(m, cases, w, run=["c%d" % i for i in s["order"]])
        for k, v in m.get_nodal_restraint_dict().items():
            require(list(map(bool, v)) == s["restr"][k[1:]], "restraints read back")
        for i, (u, fx) in enumerate(exp):
            d = gen.load_d(w, "c%d" % i)[0]
            gen.same_disp(d, u, fr, "displacements of case %d" % i)
            require(not np.any(d[sorted(fx)]), "a restrained DOF moved in case %d" % i)
            require(cases[i].get_nodal_restraint_dict().keys() == {gen.nname(int(k)) for k, _ in s["cases"][i]["r"]}, "case restraints read back")


@st.composite
def wide(draw):
    """many nodes, each case with its own restraints on many of them"""
    f = draw(gen.lattice(30))
    f["loads"] = [draw(gen.loads_for(f)) for _ in range(2)]
    n = len(f["X"])
    rnd = draw(st.randoms(use_true_random=False))
    f["cases"] = []
    for _ in range(draw(st.integers(1, 3))):
        ids = list(range(n))
        rnd.shuffle(ids)
        r = [[str(k), [True] * 6 if q == 0 else [rnd.random() < 0.4 for _ in range(6)]] for q, k in enumerate(ids[:rnd.randint(1, n)])]
        rnd.shuffle(r)
        f["cases"].append({"p": draw(st.integers(0, 1)), "f": draw(gen.num(-2, 2, 1)), "r": r if draw(st.integers(0, 3)) else []})
    f["order"] = draw(st.permutations(list(range(len(f["cases"])))))
    f["twice"] = draw(st.booleans())
    return f


@st.composite
def mono(draw):
    f = draw(gen.frame(2, 5))
    f["loads"] = draw(gen.loads_for(f))
    n = len(f["X"])
    f["add"] = [[draw(st.integers(0, n - 1)), draw(st.integers(0, 5))] for _ in range(draw(st.integers(1, 3)))]
    return f


def o_mono(s):
    """An added restraint does not increase the work of the loads (stiffer structure)."""
    fr = gen.ref_frame(s)
    u = fr.solve(s["loads"], gen.fixed_dofs(s["restr"]))
    assume(u is not None and fr.cond < 1e9)
    more = {k: list(v) for k, v in s["restr"].items()}
    for k, d in s["add"]:
        more.setdefault(str(k), [False] * 6)[d] = True
    with gen.Work() as w1, gen.Work() as w2:
        P = gen.build_pattern("p", s["loads"])
        a = gen.solve(gen.build_model(s), [gen.static_case("c", [(P, 1.0)])], w1)
        gen.solve(gen.build_model(dict(s, restr=more)), [gen.static_case("c", [(P, 1.0)])], w2)
        f = a.assemble_f("c").toarray().ravel()
        W1, W2 = f @ gen.load_d(w1, "c")[0], f @ gen.load_d(w2, "c")[0]
        require(W1 >= -1e-9 * np.abs(f) @ np.abs(gen.load_d(w1, "c")[0]), "negative work of the loads")
        require(W2 <= W1 + 1e-6 * max(abs(W1), np.abs(f) @ np.abs(gen.load_d(w2, "c")[0])) + 1e-12, "more restraints, more compliance: %g > %g" % (W2, W1))


def make():
    return Check("P15", [
        Sub("cases", spec(), o_cases, lambda s: len(s["cases"]) > 1 and any(c["r"] for c in s["cases"]), "several cases, one with its own restraints", quick=170,
            classify=lambda s: ["own%d/%d" % (sum(bool(c["r"]) for c in s["cases"]), len(s["cases"]))]),
        Sub("many-nodes", wide(), o_cases, lambda s: any(len(c["r"]) > 6 for c in s["cases"]), "a case that restrains more than six nodes", quick=30),
        Sub("stiffening", mono(), o_mono, lambda s: gen.nonzero_load(s["loads"]), "loaded", quick=100),
        facade.sub(facade.restrained, 120, lambda s: any(c["r"] for c in s["cases"]), ", some case with its own restraints"),
    ])
