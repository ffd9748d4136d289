# Saving and loading.
import copy
import os
import shutil
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, world
from ..runner import Check, Sub, Violation, close, require
from . import P24
from .P22 import KERNELS


# ------------------------------------------------- the façade as a registry
@st.composite
def registry(draw):
    h = draw(P24.histories())
    slots = st.tuples(st.sampled_from(["save", "load", "fork"]), st.integers(0, 1)).map(list)
    ops = []
    for o in h["ops"]:
        ops.append(o)
        if draw(st.integers(0, 2)) == 0:
            ops.append(draw(slots))
    return dict(h, ops=ops, names=draw(st.integers(0, len(NAMES) - 1)))


NAMES = [["slot", "存档 1"], ["slot", "slot "], [" slot", "slot"], ["slot", "Slot"], ["a.b", "a"], ["a.sep", "a"], ["1", "01"], ["x_1", "x-1"], ["s" * 80 + "1", "s" * 80 + "2"]]


def o_registry(s):
    from hyperstatic.core import Api
    with gen.Work() as wd:
        path, name = os.path.join(wd, "sub"), NAMES[s.get("names", 0)]
        a, w, saved, old = Api(path), P24.World(), {}, []
        for o in (P24.START if s["start"] else []) + s["ops"]:
            if o[0] == "save":
                require(a.save(name[o[1]]) is True, "save")
                saved[o[1]] = copy.deepcopy(w)
            elif o[0] in ("load", "fork"):
                b = Api.load(path, name[o[1]])
                if o[1] not in saved:
                    require(b is None, "something was loaded from a file that does not exist")
                    continue
                require(isinstance(b, Api), "a saved façade loads as %r" % (b,))
                P24.observe(b, saved[o[1]])
                if o[0] == "fork":
                    old.append((b, copy.deepcopy(saved[o[1]])))
                else:
                    old.append((a, w))
                    a, w = b, copy.deepcopy(saved[o[1]])
            else:
                r = P24.step(a, w, o)
                if r is None:
                    continue
                require(r[0] is r[1], "%s returned %r instead of %r" % (o[0], r[0], r[1]))
            P24.observe(a, w)
        for b, v in old:                       # what happened to one leaves the others alone
            P24.observe(b, v)
        for k, v in saved.items():
            P24.observe(Api.load(path, name[k]), v)


# ------------------------------------------------------------ whole sessions
def o_session(s):
    def each(site, o):
        if o[0] == "load":
            site.same_definitions()
            site.apply(["query"])
    sites = world.play(s, each)
    return sites


# --------------------------------------------- carried on in another folder
elsewhere = st.fixed_dictionaries({"a": st.one_of(world.session(sites=1, ends=("fresh",), rounds=2), world.session(sites=1, ends=("save",), rounds=2, without=("fresh", "assemble", "solve", "modal", "freshmodal"))), "b": world.session(sites=2, ends=("fresh", "fresh", "freshmodal"), rounds=3, without=("load", "save")),
                                   "move": st.booleans(), "folder": gen.pick("other", "其他", "a b", "in/ner"), "relative": st.booleans()})


def o_elsewhere(s):
    """The folder is copied or moved and the work goes on there: with a copy, at
    both places, each with its own results."""
    from hyperstatic.core import Api
    with gen.Work() as w:
        here = world.Site(s["a"]["starts"][0], os.path.join(w, "site"))
        for _, o in s["a"]["ops"]:
            here.apply(o)
        here.apply(["save", 0])
        there = copy.copy(here)
        there.path = os.path.join(w, s["folder"])
        os.makedirs(os.path.dirname(there.path), exist_ok=True)
        (shutil.move if s["move"] else shutil.copytree)(here.path, there.path)
        cwd = os.getcwd()
        try:
            if s["relative"]:
                os.chdir(w)
            there.api = Api.load(s["folder"] if s["relative"] else there.path, "slot0")
            require(isinstance(there.api, Api), "a façade in another folder loads as %r" % (there.api,))
            there.defs, there.assembled, there.results = copy.deepcopy(here.defs), copy.deepcopy(here.assembled), dict(here.results)
            sites = [there] if s["move"] else [there, here]
            for site in sites:
                site.apply(["query"])
            for k, o in s["b"]["ops"]:
                sites[k % len(sites)].apply(o)
            for site in sites:
                site.same_definitions()
                site.apply(["query"])
            if s["move"]:
                require(not os.path.exists(here.path), "the work went on in the folder left behind")
        finally:
            os.chdir(cwd)


# -------------------------------------------------------------- assembly files
@st.composite
def twofiles(draw):
    f = draw(gen.frame(2, 5, releases=True, extra=2, rotations=True))
    f["loads"] = draw(gen.loads_for(f, n_max=3))
    g = copy.deepcopy(f)
    g["props"] = [draw(gen.beamprop) for _ in f["props"]]
    g["beams"] = [dict(b, rel=draw(gen.release_set()) if draw(st.booleans()) else b["rel"], rot=draw(gen.angle) if draw(st.booleans()) else b["rot"]) for b in f["beams"]]
    k = str(draw(st.integers(0, len(f["X"]) - 1)))
    g["restr"][k] = [draw(st.booleans()) for _ in range(6)]
    g["nodal"] = [[k, [draw(gen.load()) for _ in range(6)]] for k in range(len(f["X"]))]
    f["after"] = {x: g[x] for x in ("props", "beams", "restr", "nodal")}
    f["late"] = draw(st.booleans())
    f["move"] = draw(st.booleans())
    f["as"] = [draw(gen.pick("x.asb", "装配", "x y", "a.b.c", " x")), draw(gen.pick("c", "工况 1", "c.d", "c.1", " c")), draw(gen.pick("one", "文件 夹", "a.b"))]
    return f


def o_files(s):
    """A saved assembly is a copy: editing the model does not reach it, another
    file beside it does not either, and it can be moved."""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_solver.static import StaticSolver
    t = dict(s, **s["after"])
    one, two = gen.ref_frame(s), gen.ref_frame(t)
    L1, L2 = s["loads"], {"nodal": t["nodal"], "dist": s["loads"]["dist"], "conc": s["loads"]["conc"]}
    u1, u2 = one.solve(L1, gen.fixed_dofs(s["restr"])), two.solve(L2, gen.fixed_dofs(t["restr"]))
    assume(u1 is not None and u2 is not None and one.cond < 1e9 and two.cond < 1e9)
    asb, cn, folder = s.get("as", ["x.asb", "c", "one"])
    with gen.Work() as w:
        m = gen.build_model(s)
        pat = gen.build_pattern("p", s["loads"])
        case = gen.static_case(cn, [(pat, 1.0)])
        a = Assembly(m, [case])
        p1, p2 = os.path.join(w, folder), os.path.join(w, "two")
        a.save(p1, asb)
        if not s["late"]:
            StaticSolver(p1, asb).solve_linear(cn)
        for k, p in enumerate(t["props"]):
            mt, sc = p["mat"], p["sec"]
            m.add_isotropic_material("m%d" % k, mt["rho"], mt["E"], mt["mu"], 1e-5)
            m.add_beam_section_general("s%d" % k, "m%d" % k, sc["A"], .8, .7, sc["I2"], sc["I3"], sc["J"], 1, 2)
        for k, b in enumerate(t["beams"]):
            m.add_beam(gen.bname(k), gen.nname(b["i"]), gen.nname(b["j"]), "s%d" % b["p"])
            m.set_beam_rotation(gen.bname(k), b["rot"])
            if b["rel"]:
                m.set_beam_releases(gen.bname(k), *b["rel"])
        for k, v in t["restr"].items():
            m.set_nodal_restraint(gen.nname(int(k)), *v)
        for k, v in t["nodal"]:
            pat.set_nodal_load(gen.nname(k), *v)
        Assembly(m, [case]).save(p2, asb)
        StaticSolver(p2, asb).solve_linear(cn)
        if s["late"]:
            StaticSolver(p1, asb).solve_linear(cn)
        if s["move"]:
            q = os.path.join(w, "moved")
            shutil.move(p1, q)
            p1 = q
        for p, fr, u, L, what in ((p1, one, u1, L1, "as saved first"), (p2, two, u2, L2, "as saved second")):
            r = gen.node_resolver(p, asb)
            v = np.concatenate([r.resolve_nodal_displacement(gen.nname(k), cn) for k in range(fr.n)])
            gen.same_disp(v, u, fr, "displacements " + what)
            R = (fr.condensed_K() @ u - fr.condensed_F(L)).reshape(-1, 6)
            sc = gen.force_scale(fr, L, R) * 10
            b = gen.beam_resolver(p, asb)
            for k in range(fr.n):
                close(r.resolve_nodal_reaction(gen.nname(k), cn), R[k], 1e-5, "reaction %s" % what, scale=sc)
            for k in range(len(fr.beams)):
                close(b.resolve_beam_end_force(gen.bname(k), cn), fr.end_force(k, L), 1e-5, "end forces %s" % what, scale=sc)


# --------------------------------------------------- time-dependent cases
@st.composite
def timed(draw):
    f = draw(gen.frame(2, 4, releases=True))
    n = len(f["X"])
    f["loads"] = [draw(gen.loads_for(f, n_max=3)) for _ in range(draw(st.integers(1, 3)))]
    f["fac"] = [draw(gen.num(-2, 2, 3)) for _ in f["loads"]]
    f["crv"] = [[draw(gen.fine(-2, 2)) for _ in range(draw(st.integers(1, 6)))] for _ in f["loads"]]
    f["dt"], f["xi"] = draw(gen.fine(1e-3, 1e-1)), draw(gen.fine(0, 0.5))
    f["mass"] = [[k, [float(draw(st.integers(0, 50))) for _ in range(6)]] for k in range(n) if draw(st.booleans())]
    f["crestr"] = {str(draw(st.integers(0, n - 1))): [True] * 6} if draw(st.booleans()) else {}
    f["modes"] = draw(st.integers(1, 5))
    return f


def o_timed(s):
    """the assembly that solvers and results read is, to the last digit, the one that was saved"""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase, ModalCase
    from hyperstatic.core.fe_solver import Solver
    from hyperstatic.core.fe_post import ResultResolver
    m = gen.build_model(s)
    for k, v in s["mass"]:
        m.set_nodal_mass(gen.nname(k), *v)
    th, mo = TimeHistoryCase("th"), ModalCase("mo", s["modes"])
    th.use_direct_time_integration(s["dt"], s["xi"])
    pats, crvs = [], []
    for i, L in enumerate(s["loads"]):
        y = s["crv"][i]
        crvs.append(np.vstack([np.arange(len(y)) * s["dt"], y]))
        pats.append(gen.build_pattern("p%d" % i, L))
        th.add_pattern(pats[-1], s["fac"][i], crvs[-1])
    for k, v in s["crestr"].items():
        th.set_nodal_restraint(gen.nname(int(k)), *v)
        mo.set_nodal_restraint(gen.nname(int(k)), *v)
    a = Assembly(m, [th, mo])
    T = max(map(len, s["crv"])) + 1

    def look(x):
        r = [x.get_loadcase_setting("th"), x.get_loadcase_setting("mo")["n_modes"], [int(v) for v in x.get_max_min_step("th")],
             sorted(map(int, x.restraintDOF())), sorted(map(int, x.restraintDOF("th"))), sorted(map(int, x.restraintDOF("mo"))), int(x.node_count), int(x.DOF)]
        return r, [np.asarray(v.toarray(), float) for v in [x.assemble_K(), x.assemble_M()] + [x.assemble_f("th", t) for t in range(T)]]

    def same(g, e, what):
        require(g[0] == e[0], "%s: %r instead of %r" % (what, g[0], e[0]))
        for k, (x, y) in enumerate(zip(g[1], e[1])):
            close(x, y, 1e-13, "%s: %s" % (what, ["stiffness", "mass"][k] if k < 2 else "load at step %d" % (k - 2)), scale=np.max(np.abs(y)) + 1e-300)

    before = look(a)
    with gen.Work() as w:
        a.save(w, "t.asb")
        same(look(a), before, "the assembly, once saved")
        same(look(Solver(w, "t.asb").assembly), before, "read by a solver")
        for k, c in enumerate(crvs):           # the model goes on
            c *= 3
            th.set_pattern_factor("p%d" % k, 7.0)
            pats[k].set_nodal_load(gen.nname(0), 1, 2, 3, 4, 5, 6)
        th.use_direct_time_integration(2 * s["dt"], 0.9)
        for k in range(len(s["X"])):
            m.set_nodal_mass(gen.nname(k), 9, 9, 9, 9, 9, 9)
            m.set_nodal_restraint(gen.nname(k))
            th.set_nodal_restraint(gen.nname(k), True)
        same(look(ResultResolver(w, "t.asb").assembly), before, "read for results, after edits of the model")


def make():
    kinds = lambda s: sorted({o[0] for o in s["ops"]})
    return Check("P25", [
        Sub("definitions", registry(), o_registry, lambda s: {"save"} & {o[0] for o in s["ops"]} and {"load", "fork"} & {o[0] for o in s["ops"]},
            "saved and loaded", quick=400, classify=kinds),
        Sub("sessions", world.session(sites=1, ends=("save", "save", "load", "fresh", "freshmodal"), rounds=6), o_session,
            lambda s: {"save", "load"} <= {o[0] for _, o in s["ops"]}, "saved and loaded", quick=150, classify=lambda s: sorted({o[0] for _, o in s["ops"]})),
        Sub("elsewhere", elsewhere, o_elsewhere, lambda s: any(o[0].startswith("fresh") for _, o in s["b"]["ops"]), "solved anew in the other folder", quick=80,
            classify=lambda s: ["moved" if s["move"] else "copied"]),
        Sub("files", twofiles(), o_files, lambda s: gen.nonzero_load(s["loads"]), "loaded", quick=120, classify=lambda s: ["late" if s["late"] else "early", "moved" if s["move"] else "in place"]),
        Sub("time-histories", timed(), o_timed, lambda s: any(gen.nonzero_load(L) and f and any(c) for L, f, c in zip(s["loads"], s["fac"], s["crv"])), "a load with a non-zero factor and curve", quick=120,
            classify=lambda s: ["own-restraints" if s["crestr"] else "model-restraints"]),
    ], assumptions=["files are loaded by the same version of the library that wrote them"])
