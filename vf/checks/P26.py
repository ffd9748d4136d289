# Results belong to the definitions at the last assembly, whatever happened before.
import os
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, world
from ..runner import Check, Sub, Violation, close, require


def o_history(s):
    world.play(s)


def o_repeat(s):
    """The same computation, twice and after others, gives the same answer."""
    with gen.Work() as w:
        f, g = s["starts"]
        a, b = world.Site(f, os.path.join(w, "a")), world.Site(g, os.path.join(w, "b"))
        a.assemble()
        assume(a.reference(0) is not None)
        def answer(x, c=0):
            d = x.api.result_get_all_nodal_displacement(x.cases[c])
            return np.concatenate([d[n] for n in sorted(d)] + [x.api.result_get_beam_end_force(x.bn(k), x.cases[c]) for k in range(len(x.defs.beams))])
        a.solve(0)
        first = answer(a)
        require(np.array_equal(answer(a), first), "asking twice gives two answers")
        b.assemble()
        b.solve(0)
        for c in s["order"]:
            a.solve(c)
        close(answer(a), first, 1e-12, "after other cases and another structure")
        a.assemble()
        a.solve(0)
        close(answer(a), first, 1e-12, "assembled and solved again")
        c = world.Site(f, os.path.join(w, "c"))
        c.assemble()
        for k in s["order"]:
            c.solve(k)
        c.solve(0)
        close(answer(c), first, 1e-12, "defined a second time, elsewhere")


# ------------------------------------------------------------- many of each
@st.composite
def many(draw):
    f = draw(gen.frame(2, 4, extra=2, rotations=False))
    f["pats"] = [draw(gen.loads_for(f, n_max=2)) for _ in range(3)]
    n = draw(st.integers(2, 24))
    f["cases"] = [draw(st.lists(st.tuples(st.integers(0, 2), st.integers(-5, 5)).map(list), min_size=1, max_size=3)) for _ in range(n)]
    f["order"] = draw(st.permutations(list(range(n))))
    f["restr2"] = draw(st.lists(st.integers(0, n - 1), max_size=3))
    return f


def o_many(s):
    """many cases in one structure: each has its own results"""
    fr = gen.ref_frame(s)
    fixed = gen.fixed_dofs(s["restr"])
    with gen.Work() as w:
        t = dict(s, cases=[[] for _ in range(world.N_CASES)], pats=s["pats"][:2])
        site = world.Site(t, os.path.join(w, "many"))
        a = site.api
        a.add_loadpattern("extra")
        for k, v in s["pats"][2]["nodal"]:
            a.set_nodal_load("extra", gen.nname(k), *v)
        for k, v in s["pats"][2]["dist"]:
            a.set_beam_load_distributed("extra", gen.bname(k), *v)
        for k, v, r in s["pats"][2]["conc"]:
            a.set_beam_load_concentrated("extra", gen.bname(k), *v, r)
        P = site.pats + ["extra"]
        want = []
        for c, ps in enumerate(s["cases"]):
            require(a.add_static_case("k%d" % c) is True, "add_static_case")
            fac = {}
            for p, f in ps:
                require(a.add_case_pattern("k%d" % c, P[p], f) is True, "add_case_pattern")
                fac[p] = f
            L = gen.combine([(s["pats"][p], f) for p, f in fac.items()])
            fx = fixed
            if c in s["restr2"]:
                for k in range(fr.n):
                    a.set_loadcase_nodal_restraint("k%d" % c, gen.nname(k), *[k == 0] * 6)
                fx = set(range(6))
            u = fr.solve(L, fx)
            assume(u is not None and fr.cond < 1e9)
            want.append((L, u, fr.load_size))
        require(a.assemble() is True, "assemble")
        for c in s["order"]:
            require(a.solve_static("k%d" % c) is True, "case %d of %d cannot be solved" % (c, len(want)))
        for c, (L, u, size) in enumerate(want):
            fr.u, fr.load_size = u, size
            g = a.result_get_all_nodal_displacement("k%d" % c)
            gen.same_disp(np.concatenate([g[gen.nname(k)] for k in range(fr.n)]), u, fr, "displacements of case %d of %d" % (c, len(want)))
            k = c % len(s["beams"])
            close(a.result_get_beam_end_force(gen.bname(k), "k%d" % c), fr.end_force(k, L), 1e-5, "end forces of member %d, case %d" % (k, c), scale=gen.force_scale(fr, L, fr.end_force(k, L)) * 10)


def changed(s):
    """a structure is edited after it was assembled and solved, then solved again"""
    seen = set()
    for k, o in s["ops"]:
        if o[0] in ("fresh", "assemble", "freshmodal"):
            if (k, "edit") in seen:
                return True
            seen.add((k, "asm"))
        elif o[0] not in ("query", "solve", "modal") and (k, "asm") in seen:
            seen.add((k, "edit"))
    return False


def make():
    return Check("P26", [
        Sub("histories", st.one_of(world.session(sites=1, without=("save", "load"), ends=("fresh", "fresh", "solve", "freshmodal")), world.session(without=("save", "load"), ends=("fresh", "fresh", "solve", "freshmodal"))), o_history, changed,
            "a structure is edited after an assembly and assembled again", quick=260, classify=lambda s: sorted({o[0] for _, o in s["ops"]})),
        Sub("repeat", st.fixed_dictionaries({"starts": st.tuples(world.start(), world.start()).map(list), "order": st.lists(st.integers(0, 2), min_size=1, max_size=4)}),
            o_repeat, lambda s: len(s["order"]) > 0, "other cases are solved in between", quick=80),
        Sub("many-cases", many(), o_many, lambda s: len(s["cases"]) > 3, "more than three cases", quick=40, classify=lambda s: ["cases%d+" % (len(s["cases"]) // 6 * 6)]),
    ], assumptions=["patterns, sections and materials are not redefined while cases or members refer to them",
                    "results of a case are compared from its solution until the next assembly"])
