# Member end releases.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P02 import dense
from .P03 import prop, elem, norm_units
from .P10 import ready

one = st.fixed_dictionaries({"e": prop, "rel": gen.release_set(), "f": st.lists(gen.load(100), min_size=12, max_size=12),
                              "m": st.sampled_from([1.0, 1.0, 1e-6, 1e-12, 1e6])})


def schur(K, f, rel):
    r = [i for i in range(12) if rel[i]]
    k = [i for i in range(12) if not rel[i]]
    Kc, fc = np.zeros((12, 12)), np.zeros(12)
    if not r:
        return K.copy(), f.copy()
    s = 1 / np.sqrt(np.diag(K))
    A = K * s[:, None] * s
    X = np.linalg.solve(A[np.ix_(r, r)], np.column_stack([A[np.ix_(r, k)], s[r] * f[r]]))
    Ak = A[np.ix_(k, k)] - A[np.ix_(k, r)] @ X[:, :-1]
    Kc[np.ix_(k, k)] = Ak / s[k][:, None] / s[k]
    fc[k] = f[k] - (A[np.ix_(k, r)] @ X[:, -1]) / s[k]
    return Kc, fc


def o_condense(s):
    e = elem(s["e"])
    L = s["e"]["L"]
    e.releases = s["rel"]
    require([bool(x) for x in e.releases] == s["rel"], "releases read back")
    K = e.integrate_K()
    f0 = np.array(s["f"], float) * s["m"]
    f = f0.copy()
    Kd = dense(K)
    Kc, fc = schur(Kd, f, s["rel"])
    for g in [(0, 6), (1, 5, 7, 11), (2, 4, 8, 10), (3, 9)]:
        ix = np.ix_(g, g)
        close(norm_units(dense(e.static_condensate(K)), L)[ix], norm_units(Kc, L)[ix], 1e-8, "condensed stiffness %s" % (g,), scale=np.max(np.abs(norm_units(Kd, L)[ix])))
    u = np.array([1, 1, 1, L, L, L] * 2)
    close(np.asarray(e.static_condensate_f(f, K)) / u, fc / u, 1e-8, "condensed load", scale=np.max(np.abs(f)) * max(1, 1 / L) * 10 + 1e-30)
    close(dense(K), Kd, 1e-15, "element stiffness changed by condensation")
    close(f, f0, 1e-15, "load vector changed by condensation")
    # nothing is left to resist a released end; what remains is symmetric and not negative
    R = norm_units(dense(e.static_condensate(K)), L)
    sc = np.max(np.abs(norm_units(Kd, L)))
    close(R, R.T, 1e-9, "symmetry", scale=sc)
    require(np.linalg.eigvalsh(R)[0] > -1e-9 * sc, "negative energy")
    for d in range(12):
        if s["rel"][d]:
            require(np.all(np.abs(R[d]) <= 1e-9 * norm_units(Kd, L)[d, d] + 1e-300), "released DOF %d still has stiffness" % d)


@st.composite
def framed(draw):
    f = draw(gen.frame(3, 6, releases=True, extra=5))
    m = [k for k, b in enumerate(f["beams"]) if b["rel"] is None]
    f["loads"] = draw(gen.loads_for(f, n_max=4))
    rel = [k for k, b in enumerate(f["beams"]) if b["rel"] and any(b["rel"])]
    if not rel:         # make sure some member is released: a tip member of the spanning tree, hinged at one end only
        k = draw(st.integers(0, len(f["beams"]) - 1))
        r = [False] * 12
        for d in draw(st.lists(gen.pick(4, 5, 10, 11), min_size=1, max_size=2)):
            r[d] = True
        f["beams"][k]["rel"] = r
        for e in (f["beams"][k]["i"], f["beams"][k]["j"]):
            f["restr"][str(e)] = [True] * 6
    # load some released member
    k = draw(gen.pick(*[k for k, b in enumerate(f["beams"]) if b["rel"] and any(b["rel"])]))
    if draw(st.integers(0, 3)) == 0:             # a force or moment at its very end, and nothing else on it
        c = draw(st.integers(0, 5))
        f["loads"]["dist"] = [q for q in f["loads"]["dist"] if q[0] != k]
        f["loads"]["conc"] = [q for q in f["loads"]["conc"] if q[0] != k]
        f["loads"]["conc"].append([k, [1000.0 * (q == c) for q in range(6)], draw(gen.pick(0.0, 1.0))])
    elif not any(q[0] == k for q in f["loads"]["dist"]):
        f["loads"]["dist"].append([k, [draw(gen.load(1000)) for _ in range(8)]])
    return f


def o_frame(s):
    fr, u = ready(s)
    with gen.Work() as w:
        m = gen.build_model(s)
        gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w)
        gen.same_disp(gen.load_d(w, "c")[0], u, fr, "displacements")
        br = gen.beam_resolver(w)
        sc = gen.force_scale(fr, s["loads"]) * 20
        for k, b in enumerate(s["beams"]):
            if b["rel"]:
                e = np.asarray(br.resolve_beam_end_force(gen.bname(k), "c"))
                for d in range(12):
                    if b["rel"][d]:
                        close(e[d], 0.0, 1e-6, "released end %d of member %d carries force" % (d, k), scale=sc)
                close(e, fr.end_force(k, s["loads"]), 1e-6, "end forces of the released member %d" % k, scale=sc)


@st.composite
def hinged(draw):
    return {"e": draw(gen.beamprop), "X": draw(gen.points(2, 2)), "q": [draw(gen.load(1000)) for _ in range(8)],
            "c": [[draw(gen.load(1000)) for _ in range(6)], draw(gen.num(0, 1, 2))], "simple": draw(st.booleans())}


def o_hinge(s):
    """Hinges at both ends of a clamped member = the unreleased member on simple supports: same reactions."""
    res = []
    for hinge in (True, False):
        sp = {"X": s["X"], "props": [s["e"]], "restr": {}, "beams": [{"i": 0, "j": 1, "p": 0, "rot": 0.0, "simple": s["simple"],
              "rel": [False] * 4 + [True] * 2 + [False] * 4 + [True] * 2 if hinge else None}]}
        L = {"nodal": [], "dist": [[0, s["q"]]], "conc": [[0, *s["c"]]]}
        fr = gen.ref_frame(sp)
        if hinge:
            sp["restr"] = {"0": [True] * 6, "1": [True] * 6}
        with gen.Work() as w:
            m = gen.build_model(sp)
            if not hinge:          # translations and the twist are held, bending rotations are free: ask the element directly
                K = dense(m.get_beam_K("b0"))
                f = np.asarray(gen.build_pattern("p", L).get_beam_f("b0", fr.L[0]), float)
                free = [4, 5, 10, 11]
                u = np.zeros(12)
                u[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
                res.append(K @ u - f)
            else:
                gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", L), 1.0)])], w)
                res.append(np.asarray(gen.beam_resolver(w).resolve_beam_end_force("b0", "c")))
    sc = max(1e-6, np.max(np.abs(s["q"])) * fr.L[0] * max(1, fr.L[0]), np.max(np.abs(s["c"][0])) * max(1, fr.L[0], 1 / fr.L[0])) * 3
    close(res[0], res[1], 1e-7, "hinged member versus simply supported member", scale=sc)


def make():
    return Check("P16", [
        Sub("condensation", one, o_condense, lambda s: sum(s["rel"]) > 1, "at least two released DOFs", quick=400,
            classify=lambda s: ["released%d" % sum(s["rel"])]),
        Sub("frames", framed(), o_frame, lambda s: gen.nonzero_load(s["loads"]), "loaded", quick=150),
        Sub("hinged-member", hinged(), o_hinge, lambda s: any(s["q"]) or any(s["c"][0]), "loaded", quick=150),
        facade.sub(facade.released, 100, source=facade.loose_ends()),
    ], assumptions=["release combinations are those that leave the member itself stable"])
