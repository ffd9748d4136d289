# Structures with shells: assembly, solution and patch tests of whole meshes.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P22 import KERNELS, sec, matrices, arr, dmat

QUARTER = [np.rint(ref.rot_matrix(a, t)) for a, t in (([1, 0, 0], 0), ([1, 0, 0], np.pi / 2), ([0, 1, 0], np.pi / 2), ([0, 0, 1], np.pi / 2))]


# ---------------------------------------------------------------- folded mesh
@st.composite
def folded(draw, stable=False):
    nx, ny = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    xs = np.cumsum([0] + [draw(gen.num(0.5, 2, 1)) for _ in range(nx)])
    zs = np.cumsum([0] + [draw(gen.num(-1.5, 1.5, 1)) for _ in range(nx)])
    ys = np.cumsum([0] + [draw(gen.num(0.5, 2, 1)) for _ in range(ny)])
    if draw(st.integers(0, 2)) == 0:             # elements of one shape
        xs, ys, zs = np.arange(nx + 1) * xs[1], np.arange(ny + 1) * ys[1], np.arange(nx + 1) * zs[1]
    X = [[round(float(x), 6), round(float(y), 6), round(float(z), 6)] for x, z in zip(xs, zs) for y in ys]
    id = lambda i, j: i * (ny + 1) + j
    secs = draw(st.lists(sec, min_size=1, max_size=2))
    types = [draw(gen.pick("shell", "shell", "plate", "membrane")) for _ in secs]
    shells = []
    for i in range(nx):
        for j in range(ny):
            q = [id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)]
            r = draw(st.integers(0, 3))
            q = q[r:] + q[:r]
            if draw(st.booleans()):
                q = q[::-1]
            k = draw(st.integers(0, 3))
            es = [q] if k < 2 else ([[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if k == 2 else [])
            for e in es:
                shells.append({"n": e, "s": draw(st.integers(0, len(secs) - 1))})
    if shells and draw(st.integers(0, 2)) == 0:  # one upon another
        e = shells[draw(st.integers(0, len(shells) - 1))]
        shells.append({"n": list(e["n"]), "s": draw(st.integers(0, len(secs) - 1))})
    props = draw(st.lists(gen.beamprop, min_size=1, max_size=2))
    beams, seen = [], set()
    n = len(X)
    if stable:                                 # a tree of members through all nodes
        for k in range(1, n):
            i = draw(st.integers(max(0, k - 3), k - 1))
            seen.add((i, k))
            beams.append({"i": i, "j": k, "p": draw(st.integers(0, len(props) - 1)), "rot": 0.0, "rel": None, "simple": False})
    for _ in range(draw(st.integers(0, 4))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if i != j and (min(i, j), max(i, j)) not in seen:
            seen.add((min(i, j), max(i, j)))
            beams.append({"i": i, "j": j, "p": draw(st.integers(0, len(props) - 1)), "rot": 0.0, "rel": None, "simple": False})
    restr = {}
    for k in range(n):
        if k < ny + 1 or draw(st.integers(0, 4)) == 0:
            restr[str(k)] = [True] * 6 if draw(st.booleans()) else [draw(st.booleans()) for _ in range(6)]
    if not restr or stable:
        restr["0"] = [True] * 6
    f = {"X": X, "props": props, "beams": beams, "restr": restr, "shells": shells, "secs": secs, "types": types}
    f["loads"] = {"nodal": [[draw(st.integers(0, n - 1)), [draw(gen.load()) for _ in range(6)]]], "dist": [], "conc": []}
    f["order"] = draw(st.permutations(list(range(n))))
    f["sorder"] = draw(st.permutations(list(range(len(shells)))))
    return f


def build(s, order=None, sorder=None):
    m = gen.build_model(s, node_order=order)
    en, sn = gen.shell_names(s)
    for k, (sc, ty) in enumerate(zip(s["secs"], s["types"])):
        m.add_isotropic_material("sm%d" % k, 7850.0, sc["E"], sc["mu"], 1e-5)
        m.add_shell_section(sn % k, "sm%d" % k, sc["t"], ty)
    for k in (sorder if sorder is not None else range(len(s["shells"]))):
        e = s["shells"][k]
        m.add_shell(en % k, sn % e["s"], *[gen.nname(i) for i in e["n"]])
    return m


def dense(s):
    """Sum over the elements, each taken from a structure of its own."""
    fr = gen.ref_frame(s)
    n = 6 * len(s["X"])
    K = np.array(fr.K[:n, :n]) if s["beams"] else np.zeros((n, n))
    X = np.asarray(s["X"], float)
    for e in s["shells"]:
        G = matrices(X[e["n"]], s["secs"][e["s"]], s["types"][e["s"]])[2]
        i = np.concatenate([6 * q + np.arange(6) for q in e["n"]])
        K[np.ix_(i, i)] += G
    return K


def perm_dofs(m, n):
    return np.concatenate([6 * m.get_node_hid(gen.nname(q)) + np.arange(6) for q in range(n)])


def o_K(s):
    from hyperstatic.core.fe_model.assembly import Assembly
    K = dense(s)
    n = len(s["X"])
    w = np.sqrt(np.abs(np.diag(K))) + 1e-30
    w[w < 1e-9 * np.max(w)] = np.max(w)
    for order, so in ((None, None), (s["order"], s["sorder"])):
        m = build(s, order, so)
        A = Assembly(m, [])
        G = np.asarray(A.assemble_K().toarray(), float)
        i = perm_dofs(m, n)
        close(G[np.ix_(i, i)] / w[:, None] / w, K / w[:, None] / w, 1e-8, "assembled stiffness", scale=1.0)
        require(A.DOF == 6 * n - len(gen.fixed_dofs(s["restr"])), "number of free DOFs")


def o_solve(s):
    K = dense(s)
    n = len(s["X"])
    free = [i for i in range(6 * n) if i not in gen.fixed_dofs(s["restr"])]
    assume(free)
    Kf = K[np.ix_(free, free)]
    d = np.diag(Kf)
    assume(np.all(d > 1e-9 * np.max(d)))
    sc = 1 / np.sqrt(d)
    A = Kf * sc[:, None] * sc
    assume(np.linalg.cond(A) < 1e8)
    f = np.zeros(6 * n)
    for k, v in s["loads"]["nodal"]:
        f[6 * k:6 * k + 6] += v
    u = np.zeros(6 * n)
    u[free] = sc * np.linalg.solve(A, sc * f[free])
    W = np.zeros(6 * n)
    W[free] = 1 / sc
    got = []
    for order, so in ((None, None), (s["order"], s["sorder"])):
        with gen.Work() as w:
            m = build(s, order, so)
            gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w)
            r = gen.node_resolver(w)
            v = np.concatenate([np.asarray(r.resolve_nodal_displacement(gen.nname(q), "c"), float).ravel() for q in range(n)])
            require(not np.any(v[[i for i in range(6 * n) if i not in free]]), "a restrained DOF moved")
            close(W * v, W * u, 1e-6, "displacements of a structure with shells", scale=max(np.max(np.abs(W * u)), 1e-12))
            R = K @ u - f
            scale = max(np.max(np.abs(f)), np.max(np.abs(K) @ np.abs(u)) * 1e-4, 1e-9)
            for q in range(n):
                k = [i for i in range(6) if 6 * q + i not in free]
                if k:
                    rr = np.asarray(r.resolve_nodal_reaction(gen.nname(q), "c"), float).ravel()
                    close(rr[k], R[6 * q:6 * q + 6][k], 1e-5, "reaction of a structure with shells", scale=scale * 10)


def o_facade(s):
    """the same through the façade, from the assembly it saves to the results it reports"""
    K = dense(s)
    n = len(s["X"])
    free = [i for i in range(6 * n) if i not in gen.fixed_dofs(s["restr"])]
    w = np.sqrt(np.abs(np.diag(K))) + 1e-30
    w[w < 1e-9 * np.max(w)] = np.max(w)
    with gen.Work() as path:
        x = facade.Scene(path, dict(s, pats=[s["loads"]], cases=[{"p": [[0, 1.0]], "r": []}], order=[]))
        G = np.asarray(x.assembly().assemble_K().toarray(), float)
        close(G / w[:, None] / w, K / w[:, None] / w, 1e-8, "assembled stiffness", scale=1.0)
        if not free:
            return
        Kf = K[np.ix_(free, free)]
        d = np.diag(Kf)
        if not np.all(d > 1e-9 * np.max(d)):
            return
        sc = 1 / np.sqrt(d)
        A = Kf * sc[:, None] * sc
        if not np.linalg.cond(A) < 1e8:
            return
        f, u = np.zeros(6 * n), np.zeros(6 * n)
        for k, v in s["loads"]["nodal"]:
            f[6 * k:6 * k + 6] += v
        u[free] = sc * np.linalg.solve(A, sc * f[free])
        require(x.api.solve_static("c0") is True, "solve_static")
        W = np.zeros(6 * n)
        W[free] = 1 / sc
        v = x.disp(0)
        require(not np.any(v[[i for i in range(6 * n) if i not in free]]), "a restrained DOF moved")
        top = max(np.max(np.abs(W * u)), 1e-12)
        close(W * v, W * u, 1e-6, "displacements of a structure with shells", scale=top)
        close(W * x.all_disp(0), W * u, 1e-6, "displacements of a structure with shells, all at once", scale=top)
        R = (K @ u - f).reshape(-1, 6)
        on = np.ones(6 * n, bool)
        on[free] = False
        on = on.reshape(-1, 6)
        close(x.react(0)[on], R[on], 1e-5, "reactions of a structure with shells", scale=10 * max(np.max(np.abs(f)), np.max(np.abs(K) @ np.abs(u)) * 1e-4, 1e-9))


# ---------------------------------------------------------------- patch tests
@st.composite
def mesh(draw, kind):
    nx, ny = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    reg = kind == "square"
    a = draw(gen.num(0.5, 3, 1))
    b = a if reg else draw(gen.num(0.5, 3, 1))
    P = []
    for i in range(nx + 1):
        for j in range(ny + 1):
            dx = 0.0 if reg or i in (0, nx) else draw(gen.num(-0.2, 0.2, 2))
            dy = 0.0 if reg or j in (0, ny) else draw(gen.num(-0.2, 0.2, 2))
            P.append([round((i + dx) * a, 6), round((j + dy) * b, 6)])
    els = []
    id = lambda i, j: i * (ny + 1) + j
    for i in range(nx):
        for j in range(ny):
            q = [id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)]
            r = draw(st.integers(0, 3))
            q = q[r:] + q[:r]
            els += [q] if kind != "triangles" else [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    # the order of the corners, and one of the senses of rotation per element
    els = [e[::-1] if draw(st.booleans()) else e for e in els]
    n = len(P)
    return {"kind": kind, "n": [nx, ny], "P": P, "els": els, "s": draw(sec), "q": draw(st.integers(0, 3)),
            "o": [draw(gen.num(-5, 5, 1)) for _ in range(3)],
            "e": [draw(gen.num(-1, 1, 2)) for _ in range(3)], "order": draw(st.permutations(list(range(n))))}


def edges(s):
    nx, ny = s["n"]
    id = lambda i, j: i * (ny + 1) + j
    # counter-clockwise round the rectangle
    ring = [id(i, 0) for i in range(nx)] + [id(nx, j) for j in range(ny)] + [id(i, ny) for i in range(nx, 0, -1)] + [id(0, j) for j in range(ny, 0, -1)]
    return list(zip(ring, ring[1:] + ring[:1]))


def run_mesh(s, ty, f, restr, order):
    R = QUARTER[s["q"]]
    P = np.column_stack([np.asarray(s["P"], float), np.zeros(len(s["P"]))])
    X = P @ R.T + np.asarray(s["o"], float)
    n = len(P)
    spec = {"X": X.tolist(), "props": [], "beams": [], "restr": {}, "shells": [{"n": e, "s": 0} for e in s["els"]], "secs": [s["s"]], "types": [ty],
            "loads": {"nodal": [], "dist": [], "conc": []}}
    for q in range(n):
        # a quarter turn maps axes to axes: translations / rotations keep their places up to a permutation
        p = np.rint(np.abs(R)).astype(bool)
        fl = np.concatenate([[any(p[i, j] and restr[q][j] for j in range(3)) for i in range(3)],
                             [any(p[i, j] and restr[q][3 + j] for j in range(3)) for i in range(3)]])
        if any(fl):
            spec["restr"][str(q)] = [bool(x) for x in fl]
        v = np.concatenate([R @ f[q, :3], R @ f[q, 3:]])
        if np.any(v):
            spec["loads"]["nodal"].append([q, v.tolist()])
    with gen.Work() as w:
        m = build(spec, order)
        gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", spec["loads"]), 1.0)])], w)
        r = gen.node_resolver(w)
        out = np.array([np.asarray(r.resolve_nodal_displacement(gen.nname(q), "c"), float).ravel() for q in range(n)])
    return np.column_stack([out[:, :3] @ R, out[:, 3:] @ R])


def o_membrane(s):
    """Uniform edge tractions: the mesh takes the state of uniform stress, whatever its shape."""
    e = np.array(s["e"]) * 1e-3
    sig = dmat(s["s"], False) @ e
    assume(np.max(np.abs(e)) > 1e-5)
    P = np.asarray(s["P"], float)
    n = len(P)
    f = np.zeros((n, 6))
    S = np.array([[sig[0], sig[2]], [sig[2], sig[1]]])
    for i, j in edges(s):
        d = P[j] - P[i]
        t = S @ np.array([d[1], -d[0]]) / 2
        f[i, :2] += t
        f[j, :2] += t
    restr = [[False, False, True, True, True, True] for _ in range(n)]
    restr[0][0] = restr[0][1] = True
    ny = s["n"][1]
    restr[s["n"][0] * (ny + 1)][1] = True
    u = np.column_stack([e[0] * P[:, 0] + e[2] * P[:, 1], e[1] * P[:, 1]])
    got = run_mesh(s, "membrane", f, restr, s["order"])
    close(got[:, :2], u, 1e-6, "displacements in uniform stress")
    require(not np.any(got[:, 2:]), "a restrained DOF moved")


def o_plate(s):
    """Uniform edge moments: the mesh takes the state of uniform curvature."""
    k = np.array(s["e"]) * 1e-3
    assume(np.max(np.abs(k)) > 1e-5)
    P = np.asarray(s["P"], float)
    n = len(P)
    x, y = P[:, 0], P[:, 1]
    # w, rotations (w_y, -w_x)
    W = np.column_stack([.5 * (k[0] * x * x + k[1] * y * y + k[2] * x * y), k[1] * y + .5 * k[2] * x, -(k[0] * x + .5 * k[2] * y)])
    # moments belonging to the curvatures of beta = -grad w
    Mv = dmat(s["s"], True) @ (-k)
    Mt = np.array([[Mv[0], Mv[2]], [Mv[2], Mv[1]]])
    f = np.zeros((n, 6))
    for i, j in edges(s):
        d = P[j] - P[i]
        l = np.hypot(*d)
        nn, ss = np.array([d[1], -d[0]]) / l, d / l
        m = Mt @ nn                            # work per length m.beta
        mn, ms = m @ nn, m @ ss
        # beta_n is linear along the edge; the integral of beta_s is w_i - w_j
        for q in (i, j):
            # beta = (theta_y, -theta_x)
            f[q, 3] += -nn[1] * mn * l / 2
            f[q, 4] += nn[0] * mn * l / 2
        f[i, 2] += ms
        f[j, 2] -= ms
    if s["kind"] == "square":
        # the 4-point rule leaves a mode without energy, so the state is checked through the equations
        X = np.column_stack([P, np.zeros(n)])
        spec = {"X": X.tolist(), "props": [], "beams": [], "restr": {}, "shells": [{"n": e, "s": 0} for e in s["els"]], "secs": [s["s"]], "types": ["plate"]}
        from hyperstatic.core.fe_model.assembly import Assembly
        m = build(spec, s["order"])
        K = np.asarray(Assembly(m, []).assemble_K().toarray(), float)
        i = perm_dofs(m, n)
        U = np.zeros((n, 6))
        U[:, 2:5] = W
        r = (K[np.ix_(i, i)] @ U.ravel()).reshape(n, 6)
        g = np.array([1, 1, 1, 1 / np.max(P), 1 / np.max(P), 1])
        close(r * g, f * g, 1e-7, "forces of uniform bending", scale=np.max(np.abs(f * g)) + np.max(np.abs(Mv)))
        return
    restr = [[True, True, False, False, False, True] for _ in range(n)]
    restr[0] = [True] * 6
    got = run_mesh(s, "plate", f, restr, s["order"])
    w = np.array([1.0, np.max(np.abs(P)), np.max(np.abs(P))])
    close(got[:, 2:5] * w, W * w, 1e-6, "displacements in uniform bending")


def make():
    big = lambda s: len(s["els"]) > 1
    cl = lambda s: ["shells%d" % min(4, len(s["shells"])), "beams%d" % min(2, len(s["beams"]))]
    return Check("P23", [
        Sub("assembly", folded(), o_K, lambda s: len(s["shells"]) > 1, "several shells", quick=100, classify=cl),
        Sub("solution", folded(True), o_solve, lambda s: len(s["shells"]) > 1 and gen.nonzero_load(s["loads"]), "several shells, loaded", quick=120, classify=cl),
        Sub("facade", folded(True), o_facade, lambda s: len(s["shells"]) > 1, "several shells", quick=80, classify=cl),
        Sub("membrane-patch", mesh("quads"), o_membrane, big, "several elements", quick=80),
        Sub("plate-patch", st.one_of(mesh("triangles"), mesh("square")), o_plate, big, "several elements", quick=100, classify=lambda s: [s["kind"]]),
    ], assumptions=["element matrices in the assembly and solution sub-checks come from the library's own one-element structures (P22 decides those); structures with a diagonally scaled condition number above 1e8 are discarded",
                    "patch meshes exclude the element states recorded as known findings of P22"])
