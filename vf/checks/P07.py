# Member loads are replaced by equivalent end forces.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require

vals = st.lists(gen.load(1000), min_size=8, max_size=8)
cvals = st.lists(gen.load(1000), min_size=6, max_size=6)
spec = st.fixed_dictionaries({
    "L": gen.num(0.2, 30, 2),
    "dist": st.one_of(st.none(), vals),
    "conc": st.one_of(st.none(), st.tuples(cvals, st.one_of(st.just(0.5), gen.num(0, 1, 3), gen.fine(0, 1, 3))).map(list)),
})


def pattern(s):
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    p = LoadPattern("p")
    if s["dist"] is not None:
        p.set_beam_load_dist("b", *s["dist"])
    if s["conc"] is not None:
        p.set_beam_load_conc("b", *s["conc"][0], r=s["conc"][1])
    return p


def expected(s):
    f = np.zeros(12)
    if s["dist"] is not None:
        f += ref.dist_f(s["dist"], s["L"])
    if s["conc"] is not None:
        f += ref.conc_f(*s["conc"], s["L"])
    return f


def scale(s):
    m = 1e-9
    if s["dist"]:
        m = max(m, max(map(abs, s["dist"])) * s["L"])
    if s["conc"]:
        c = s["conc"][0]
        m = max(m, max(map(abs, c[:4])), max(map(abs, c[3:])) / s["L"])
    return m


def units(f, L):
    return np.asarray(f, float) / np.array([1, 1, 1, L, L, L] * 2)


def o_consistent(s):
    f = pattern(s).get_beam_f("b", s["L"])
    close(units(f, s["L"]), units(expected(s), s["L"]), 1e-9, "equivalent end forces", scale=scale(s) * max(1, 1 / s["L"]) * 3)


def o_statics(s):
    """Resultant and moment about the start equal those of the load itself."""
    f = np.asarray(pattern(s).get_beam_f("b", s["L"]), float)
    L = s["L"]
    R, M = np.zeros(3), np.zeros(3)
    if s["dist"]:
        q = s["dist"]
        for k, (a, b) in enumerate(((q[0], q[1]), (q[2], q[3]), (q[4], q[5]))):
            F = (a + b) / 2 * L
            R[k] += F
            first = (a / 6 + b / 3) * L * L            # integral of x q(x)
            M += np.cross([first, 0, 0], np.eye(3)[k])
        M[0] += (q[6] + q[7]) / 2 * L
    if s["conc"]:
        c, r = s["conc"]
        R += c[:3]
        M += np.cross([r * L, 0, 0], c[:3]) + np.array(c[3:])
    close(f[:3] + f[6:9], R, 1e-9, "resultant force", scale=scale(s) * 3 + 1e-9)
    close(f[3:6] + f[9:12] + np.cross([L, 0, 0], f[6:9]), M, 1e-9, "resultant moment", scale=scale(s) * 6 * max(L, 1) + 1e-9)


def o_mirror(s):
    """Looking at the member from its other end exchanges the end forces."""
    L = s["L"]
    t = {"L": L, "dist": None, "conc": None}
    sg = [-1, -1, 1]                      # x and y reversed, z kept (a rotation by pi about z)
    if s["dist"]:
        q = s["dist"]
        t["dist"] = [-q[1], -q[0], -q[3], -q[2], q[5], q[4], -q[7], -q[6]]
    if s["conc"]:
        c, r = s["conc"]
        t["conc"] = [[a * b for a, b in zip(c, sg * 2)], 1 - r]
    f, g = (np.asarray(pattern(x).get_beam_f("b", L), float) for x in (s, t))
    g = np.concatenate([g[6:], g[:6]]) * np.array(sg * 4)
    close(units(g, L), units(f, L), 1e-8, "member seen from its other end", scale=scale(s) * max(1, 1 / L) * 3)


def o_linear(s):
    """Loads on different members or in different patterns do not mix; unknown members are not loaded; scaling."""
    p = pattern(s)
    L = s["L"]
    f = np.asarray(p.get_beam_f("b", L), float)
    o = p.get_beam_f("other", L)
    require(o is None or not np.any(np.asarray(o, float)), "a member without load gets %s" % (o,))
    t = {"L": L, "dist": s["dist"] and [-2.5 * x for x in s["dist"]], "conc": s["conc"] and [[-2.5 * x for x in s["conc"][0]], s["conc"][1]]}
    close(units(pattern(t).get_beam_f("b", L), L), -2.5 * units(f, L), 1e-9, "scaled load", scale=scale(s) * 8 * max(1, 1 / L))
    a, b = dict(s, dist=None), dict(s, conc=None)
    close(units(pattern(a).get_beam_f("b", L), L) + units(pattern(b).get_beam_f("b", L), L), units(f, L), 1e-9,
          "distributed plus concentrated", scale=scale(s) * 4 * max(1, 1 / L))
    p.set_beam_load_dist("other", *[7.0] * 8)
    p.set_beam_load_conc("other", 1, 2, 3, 4, 5, 6, 0.3)
    close(p.get_beam_f("b", L), f, 1e-12, "after loading another member", scale=scale(s) * max(1, L))
    # a later setting replaces the earlier one
    p.set_beam_load_dist("b", *[1.0, 2, 3, 4, 5, 6, 7, 8])
    p.set_beam_load_conc("b", 1, -2, 3, -4, 5, -6, 0.25)
    e = ref.dist_f([1.0, 2, 3, 4, 5, 6, 7, 8], L) + ref.conc_f([1, -2, 3, -4, 5, -6], 0.25, L)
    close(units(p.get_beam_f("b", L), L), units(e, L), 1e-9, "after setting the load again", scale=30 * max(1, L, 1 / L))


# ------------------------------------------------------------------ as defined
names = st.sampled_from(["b", "c", "梁 1"])
table = st.fixed_dictionaries({"ops": st.lists(st.one_of(
    st.tuples(st.just("dist"), names, vals).map(list), st.tuples(st.just("conc"), names, cvals, gen.num(0, 1, 2)).map(list),
    st.tuples(st.just("nodal"), names, cvals).map(list), st.tuples(st.just("disp"), names, cvals).map(list)), min_size=1, max_size=8)})


def o_table(s):
    """a pattern keeps each kind of load of each object apart, as it was set last"""
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    p, w = LoadPattern("名"), {"dist": {}, "conc": {}, "nodal": {}, "disp": {}}
    require(p.name == "名", "name of the pattern")
    for o in s["ops"]:
        v = list(o[2])
        if o[0] == "dist":
            p.set_beam_load_dist(o[1], *v)
            v = [v[0], v[2], v[4], v[6], 0, 0, v[1], v[3], v[5], v[7], 0, 0]       # end by end
        elif o[0] == "conc":
            p.set_beam_load_conc(o[1], *v, r=o[3])
            v = v + [o[3]]
        elif o[0] == "nodal":
            p.set_nodal_load(o[1], *v)
        else:
            p.set_nodal_disp(o[1], *v)
        w[o[0]][o[1]] = v
        for n in ("b", "c", "梁 1", "other"):
            for kind, got in (("dist", p.get_beam_distributed(n)), ("conc", p.get_beam_concentrated(n)), ("nodal", p.get_nodal_f(n)), ("disp", p.get_nodal_d(n))):
                if n in w[kind]:
                    require(got is not None and len(got) == len(w[kind][n]), "%s load of %s: %r" % (kind, n, got))
                    close(got, w[kind][n], 1e-12, "%s load of %s" % (kind, n), scale=1e3)
                else:
                    require(got is None, "%s load of %s, which has none: %r" % (kind, n, got))
        for kind, got in (("nodal", p.get_nodal_f_dict()), ("disp", p.get_nodal_d_dict())):
            require(set(got) == set(w[kind]), "%s loads on %r" % (kind, sorted(got)))
            for n, v in w[kind].items():
                close(got[n], v, 1e-12, "%s load of %s" % (kind, n), scale=1e3)


def make():
    nt = lambda s: bool(s["dist"] and any(s["dist"]) or s["conc"] and any(s["conc"][0]))
    cl = lambda s: ["dist" if s["dist"] and any(s["dist"]) else "-", "conc" if s["conc"] and any(s["conc"][0]) else "-"]
    return Check("P07", [
        Sub("consistent", spec, o_consistent, nt, "some load value is not zero", quick=600, classify=cl),
        Sub("statics", spec, o_statics, nt, "some load value is not zero", quick=400),
        Sub("mirror", spec, o_mirror, nt, "some load value is not zero", quick=300),
        Sub("separation", spec, o_linear, nt, "some load value is not zero", quick=200),
        Sub("as-defined", table, o_table, lambda s: len(s["ops"]) > 1, "at least two loads", quick=150, classify=lambda s: [o[0] for o in s["ops"]]),
        facade.sub(facade.member_loads, 160, lambda s: any(l["dist"] or l["conc"] for l in s["pats"]), ", members too"),
    ])
