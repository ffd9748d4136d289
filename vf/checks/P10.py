# Linear static analysis agrees with an independent frame solver.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref
from ..runner import Check, Sub, Violation, close, require


@st.composite
def spec(draw, releases=True):
    f = draw(gen.frame(2, 7, releases=releases, extra=4))
    f["loads"] = draw(gen.loads_for(f, n_max=5))
    return f


def ready(s, loads=None):
    fr = gen.ref_frame(s)
    u = fr.solve(loads or s["loads"], gen.fixed_dofs(s["restr"]))
    assume(u is not None and fr.cond < 1e9)
    return fr, u


@st.composite
def big(draw, most=60):
    f = draw(gen.lattice(most))
    f["loads"] = draw(gen.loads_for(f, n_max=6))
    return f


def o_units(s):
    """any consistent set of units, any size of the loads"""
    t = gen.in_units(s, *s["units"])
    fr, u = ready(s)
    fr2, u2 = ready(t)
    k = np.array([s["units"][0]] * 3 + [1.0] * 3)
    close(u2.reshape(-1, 6) / k, u.reshape(-1, 6), 1e-5, "reference in other units", scale=np.max(np.abs(u)) + 1e-12)
    with gen.Work() as w:
        gen.solve(gen.build_model(t), [gen.static_case("c", [(gen.build_pattern("p", t["loads"]), 1.0)])], w)
        # judged in the original units, where the tolerances are at home
        gen.same_disp((gen.load_d(w, "c").reshape(-1, 6) / k).ravel(), u, fr, "displacements")
        br, nr = gen.beam_resolver(w), gen.node_resolver(w)
        sc = gen.force_scale(fr, s["loads"]) * 10
        fo = s["units"][1]
        q = np.array([fo] * 3 + [fo * s["units"][0]] * 3)
        for i in range(len(s["beams"])):
            close(np.asarray(br.resolve_beam_end_force(gen.bname(i), "c"), float) / np.tile(q, 2), fr.end_force(i, s["loads"]), 1e-5, "end forces of member %d" % i, scale=sc)
        R = (fr.condensed_K() @ u - fr.condensed_F(s["loads"])).reshape(-1, 6)
        for i in range(fr.n):
            close(np.asarray(nr.resolve_nodal_reaction(gen.nname(i), "c"), float) / q, R[i], 1e-5, "reaction at node %d" % i, scale=sc)


@st.composite
def unit_spec(draw):
    f = draw(spec())
    f["units"] = [draw(gen.pick(1.0, 1000.0, 100.0, 39.37, 0.1)), draw(gen.pick(1.0, 1e-3, 1e3, 1e-6, 1e-9, 1e6, 0.2248))]
    return f


@st.composite
def thousands(draw):
    """a frame whose nodes are a few of thousands, the others held"""
    f = draw(gen.frame(2, 6, releases=True))
    f["loads"] = draw(gen.loads_for(f, n_max=5))
    N = draw(st.one_of(st.integers(100, 2000), st.integers(5470, 6500), st.integers(5470, 6500)))
    r = draw(st.randoms(use_true_random=False))
    f["N"], f["at"] = N, sorted(r.sample(range(N), len(f["X"]) - 1)) + [N - 1]
    r.shuffle(f["at"])
    return f


def o_thousands(s):
    fr, u = ready(s)
    at = s["at"]
    X = [[k % 90 + .5, k // 90 + .25, 100.0] for k in range(s["N"])]
    for k, a in enumerate(at):
        X[a] = s["X"][k]
    restr = {str(k): [True] * 6 for k in set(range(s["N"])) - set(at)}
    restr.update({str(at[int(k)]): v for k, v in s["restr"].items()})
    L = dict(s["loads"], nodal=[[at[k], v] for k, v in s["loads"]["nodal"]])
    big = dict(s, X=X, restr=restr, loads=L, beams=[dict(b, i=at[b["i"]], j=at[b["j"]]) for b in s["beams"]])
    with gen.Work() as w:
        gen.solve(gen.build_model(big), [gen.static_case("c", [(gen.build_pattern("p", L), 1.0)])], w)
        d = gen.load_d(w, "c").reshape(-1, 6)
        require(d.shape == (s["N"], 6), "shape of the displacements %s" % (d.shape,))
        gen.same_disp(d[at].ravel(), u, fr, "displacements")
        rest = np.ones(s["N"], bool)
        rest[at] = False
        require(not np.any(d[rest]), "a restrained node moved")
        nr, br = gen.node_resolver(w), gen.beam_resolver(w)
        sc = gen.force_scale(fr, s["loads"]) * 10
        R = (fr.condensed_K() @ u - fr.condensed_F(s["loads"])).reshape(-1, 6)
        for k, a in enumerate(at[:2]):
            close(nr.resolve_nodal_displacement(gen.nname(a), "c"), d[a], 1e-12, "displacement looked up by node")
            close(nr.resolve_nodal_reaction(gen.nname(a), "c"), R[k], 1e-5, "reaction at node %d" % a, scale=sc)
        for k in range(len(s["beams"])):
            close(br.resolve_beam_end_force(gen.bname(k), "c"), fr.end_force(k, s["loads"]), 1e-5, "end forces of member %d" % k, scale=sc)


def o_solve(s):
    fr, u = ready(s)
    with gen.Work() as w:
        m = gen.build_model(s)
        gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w)
        d = gen.load_d(w, "c")
        require(d.ndim == 2 and d.shape == (1, 6 * fr.n), "shape of the displacements %s" % (d.shape,))
        gen.same_disp(d, u, fr, "displacements")
        # restrained DOFs do not move
        fx = sorted(gen.fixed_dofs(s["restr"]))
        require(not np.any(d[0, fx]), "a restrained DOF moved")
        r = gen.node_resolver(w)
        for k in range(fr.n):
            v = np.asarray(r.resolve_nodal_displacement(gen.nname(k), "c"), float)
            close(v, d[0, 6 * k:6 * k + 6], 1e-12, "displacement looked up by node")


def o_api(s):
    """The same through the façade."""
    from hyperstatic.core import Api
    fr, u = ready(s)
    c = s.get("c", 2.0)                          # results of very small and very large loads are results too
    with gen.Work() as w:
        a = Api(w)
        for k, x in enumerate(s["X"]):
            require(a.add_node(gen.nname(k), *x) is True, "add_node")
        for k, p in enumerate(s["props"]):
            mt, sc = p["mat"], p["sec"]
            require(a.add_isotropic_material("m%d" % k, mt["rho"], mt["E"], mt["mu"], 1e-5) is True, "add_isotropic_material")
            require(a.add_beam_section_general("s%d" % k, "m%d" % k, sc["A"], .8, .7, sc["I2"], sc["I3"], sc["J"], 1, 2) is True, "add_beam_section_general")
        for k, b in enumerate(s["beams"]):
            p = s["props"][b["p"]]
            mt, sc = p["mat"], p["sec"]
            if b["simple"]:
                ok = a.add_simple_beam(gen.bname(k), gen.nname(b["i"]), gen.nname(b["j"]), mt["E"], mt["mu"], sc["A"], sc["I2"], sc["I3"], sc["J"], mt["rho"])
            else:
                ok = a.add_beam(gen.bname(k), gen.nname(b["i"]), gen.nname(b["j"]), "s%d" % b["p"])
            require(ok is True, "adding a member")
            if b["rel"]:
                require(a.set_beam_release(gen.bname(k), *b["rel"]) is True, "set_beam_release")
        for k, v in s["restr"].items():
            require(a.set_nodal_restraint(gen.nname(int(k)), *v) is True, "set_nodal_restraint")
        require(a.add_loadpattern("p") is True, "add_loadpattern")
        for k, v in s["loads"]["nodal"]:
            require(a.set_nodal_load("p", gen.nname(k), *v) is True, "set_nodal_load")
        for k, v in s["loads"]["dist"]:
            require(a.set_beam_load_distributed("p", gen.bname(k), *v) is True, "set_beam_load_distributed")
        for k, v, r in s["loads"]["conc"]:
            require(a.set_beam_load_concentrated("p", gen.bname(k), *v, r) is True, "set_beam_load_concentrated")
        require(a.add_static_case("c") is True, "add_static_case")
        require(a.add_case_pattern("c", "p", c) is True, "add_case_pattern")
        require(a.assemble() is True, "assemble")
        require(a.solve_static("c") is True, "solve_static")
        al = a.result_get_all_nodal_displacement("c")
        require(set(al) == {gen.nname(k) for k in range(fr.n)}, "nodes of the result")
        v = np.concatenate([al[gen.nname(k)] for k in range(fr.n)]) / c
        gen.same_disp(v, u, fr, "displacements of all nodes")
        v = np.concatenate([a.result_get_nodal_displacement(gen.nname(k), "c") for k in range(fr.n)]) / c
        gen.same_disp(v, u, fr, "displacements node by node")
        sc = gen.force_scale(fr, s["loads"]) * 10
        R = (fr.condensed_K() @ u - fr.condensed_F(s["loads"])).reshape(-1, 6)
        for k in range(fr.n):
            close(np.asarray(a.result_get_nodal_reaction(gen.nname(k), "c"), float) / c, R[k], 1e-5, "reaction at node %d" % k, scale=sc)
        for k in range(len(s["beams"])):
            close(np.asarray(a.result_get_beam_end_force(gen.bname(k), "c"), float) / c, fr.end_force(k, s["loads"]), 1e-5, "end forces of member %d" % k, scale=sc)


def norot(s):
    return dict(s, beams=[dict(b, rot=0.0) for b in s["beams"]])


def make():
    cl = lambda s: ["nodes%d" % len(s["X"]), "loop" if len(s["beams"]) >= len(s["X"]) else "tree",
                    "released" if any(b["rel"] and any(b["rel"]) for b in s["beams"]) else "rigid"] + [k for k in ("nodal", "dist", "conc") if s["loads"][k]]
    nt = lambda s: len(s["beams"]) > 1 and gen.nonzero_load(s["loads"])
    return Check("P10", [
        Sub("frames", spec(), o_solve, nt, "at least two members, loaded", quick=300, classify=cl),
        Sub("many-nodes", big(), o_solve, lambda s: len(s["X"]) > 7, "more than seven nodes", quick=25,
            classify=lambda s: ["nodes%d+" % (len(s["X"]) // 10 * 10)]),
        Sub("thousands", thousands(), o_thousands, lambda s: s["N"] > 5461 and nt(s), "more than 5461 nodes (32767 DOFs), loaded", quick=5),
        Sub("units", unit_spec(), o_units, nt, "at least two members, loaded", quick=100, classify=lambda s: ["length %g" % s["units"][0], "force %g" % s["units"][1]]),
        Sub("facade", st.tuples(spec(), gen.pick(2.0, 2.0, -1.0, 1e-9, 1e8, 1)).map(lambda v: dict(norot(v[0]), c=v[1])), o_api, nt, "at least two members, loaded", quick=120, classify=cl),
    ], assumptions=["structures whose reference stiffness has a condition number above 1e9 (diagonally scaled) are discarded"])
