# Global assembly.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P02 import dense


@st.composite
def spec(draw):
    f = draw(gen.frame(2, 6, releases=True))
    if len(f["beams"]) > 1 and draw(st.integers(0, 3)) == 0:        # two parallel members
        d = dict(f["beams"][0])
        d["rel"], d["p"] = None, draw(st.integers(0, len(f["props"]) - 1))
        if draw(st.booleans()):
            d["i"], d["j"] = d["j"], d["i"]
        f["beams"].append(d)
    f["pats"] = [draw(gen.loads_for(f)) for _ in range(draw(st.integers(1, 2)))]
    tiny = draw(gen.pick(1.0, 1.0, 1e-7, 1e-9))
    f["fac"] = [draw(gen.num(-2, 2, 1)) * tiny for _ in f["pats"]]
    f["crestr"] = {}
    if draw(st.booleans()):
        for k in range(len(f["X"])):
            if draw(st.booleans()):
                f["crestr"][str(k)] = [draw(st.booleans()) for _ in range(6)]
        if not any(any(v) for v in f["crestr"].values()):
            f["crestr"] = {}
    # the order in which restraints are entered must not matter
    f["rorder"] = draw(st.permutations(sorted(f["restr"])))
    return f


@st.composite
def big(draw):
    f = draw(gen.lattice(40))
    f["pats"] = [draw(gen.loads_for(f))]
    f["fac"], f["crestr"] = [draw(gen.pick(1.0, -2.0))], {}
    f["rorder"] = draw(st.permutations(sorted(f["restr"])))
    return f


def o_big(s):
    o_K(s)
    o_f(s)
    o_boundary(s)


def setup(s):
    from hyperstatic.core.fe_model.assembly import Assembly
    s = dict(s, restr={k: s["restr"][k] for k in s["rorder"]})
    m = gen.build_model(s)
    pats = [(gen.build_pattern("p%d" % i, p), f) for i, (p, f) in enumerate(zip(s["pats"], s["fac"]))]
    return m, Assembly(m, [gen.static_case("c", pats, s["crestr"]), gen.static_case("d", pats[:1])])


def w6(n, L=3.0):
    return np.tile([1, 1, 1, 1 / L, 1 / L, 1 / L], n)


def o_K(s):
    m, a = setup(s)
    fr = gen.ref_frame(s)
    Kr = fr.condensed_K()
    K = dense(a.assemble_K())
    w = 1 / np.sqrt(np.diag(fr.K)[:6 * fr.n])
    close(w[:, None] * K * w, w[:, None] * Kr * w, 1e-8, "global stiffness matrix")
    close(K, K.T, 1e-10, "symmetry")
    require(np.linalg.eigvalsh(w[:, None] * K * w)[0] > -1e-8, "negative energy")
    # each rigid motion of the unsupported structure is free of force
    X = np.array(s["X"])
    for d in range(6):
        r = np.zeros((fr.n, 6))
        if d < 3:
            r[:, d] = 1
        else:
            r[:, d] = 1
            r[:, :3] = np.cross(np.eye(3)[d - 3], X)
        r = r.ravel()
        close(w * (K @ r), 0 * r, 1e-9, "force that rigid motion %d of the whole structure costs" % d,
              scale=np.max(w * (np.abs(K) @ np.abs(r))))


def o_f(s):
    m, a = setup(s)
    fr = gen.ref_frame(s)
    n = 6 * fr.n
    for c, pf in (("c", list(zip(s["pats"], s["fac"]))), ("d", [(s["pats"][0], s["fac"][0])])):
        L = gen.combine(pf)
        f = dense(a.assemble_f(c))
        require(f.shape == (n, 1), "shape of the load vector %s" % (f.shape,))
        close(f.ravel(), fr.condensed_F(L), 1e-8, "load vector of case %s" % c, scale=gen.force_scale(fr, L))


def o_boundary(s):
    m, a = setup(s)
    n = 6 * len(s["X"])
    K, f = a.assemble_K(), a.assemble_f("c")
    Kd, fd = dense(K), dense(f)
    glob = gen.fixed_dofs(s["restr"])
    require(a.DOF == n - len(glob), "DOF %s instead of %s" % (a.DOF, n - len(glob)))
    require(a.node_count == len(s["X"]), "node count")
    require(sorted(a.restraintDOF()) == sorted(glob), "restrained DOFs of the model")
    require(sorted(a.restraintDOF("c")) == sorted(gen.fixed_dofs(s["crestr"])), "restrained DOFs of the case")
    for c, r in (("c", s["crestr"] or s["restr"]), ("d", s["restr"])):
        fixed = gen.fixed_dofs(r)
        free = [i for i in range(n) if i not in fixed]
        K_ = dense(a.assemble_boundary(c, K))
        close(K_, Kd[np.ix_(free, free)], 1e-12, "reduced stiffness of case %s" % c)
        f_ = dense(a.assemble_boundary(c, f))
        close(f_.ravel(), fd.ravel()[free], 1e-12, "reduced load of case %s" % c)
    close(dense(K), Kd, 1e-15, "full matrix changed by the reduction")
    for k in range(len(s["X"])):
        require(a.get_node_hid(gen.nname(k)) == k, "node index")
        close(a.get_node_transform_matrix(gen.nname(k)), np.eye(6), 1e-12, "axes of node %d" % k)
    for k, b in enumerate(s["beams"]):
        q = gen.bname(k)
        require(a.get_beam_hid(q) == k and list(a.get_beam_node_hids(q)) == [b["i"], b["j"]], "indices of member %d" % k)
        close(dense(a.get_beam_transform_matrix(q)), dense(m.get_beam_transform_matrix(q)), 0, "axes of member %d" % k)


def make():
    nt = lambda s: len(s["beams"]) > 1
    return Check("P09", [
        Sub("stiffness", spec(), o_K, nt, "more than one member", quick=220,
            classify=lambda s: ["beams%d" % min(6, len(s["beams"])), "released" if any(b["rel"] and any(b["rel"]) for b in s["beams"]) else "rigid"]),
        Sub("loads", spec(), o_f, lambda s: any(gen.nonzero_load(p) for p in s["pats"]), "loaded", quick=220),
        Sub("boundary", spec(), o_boundary, lambda s: len(s["restr"]) > 1 or s["crestr"], "several supports", quick=180),
        Sub("many-nodes", big(), o_big, lambda s: len(s["X"]) > 7, "more than seven nodes", quick=20),
        facade.sub(facade.assembled, 120, lambda s: len(s["beams"]) > 1, ", several members"),
    ])
