# -*- coding: utf-8 -*-
"""Strategies for JSON-able specs and builders that feed them to the library."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from . import boot, ref


def num(lo, hi, digits=3):
    """Decimal numbers in [lo,hi] (shrink towards lo / 0)."""
    k = 10 ** digits
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


def fine(lo, hi, digits=3):
    """the same range, numbers with all their digits"""
    return num(lo, hi, digits).map(lambda x: x if x in (lo, hi) else x * 0.99993714867261235)


def pick(*xs):
    return st.sampled_from(list(xs))


angle = st.one_of(st.sampled_from([0.0, 0.5, 1.0, -0.7, 1.5707963267948966, 3.141592653589793]), num(-3.1, 3.1), fine(-7, 7),
                  st.sampled_from([1e-2, -1e-3, 3e-4, -1e-4, 3.1406, 3.1425, 1.5718, -1.5697]))
unit_vec = st.tuples(num(-1, 1), num(-1, 1), num(-1, 1)).filter(lambda v: sum(x * x for x in v) > 0.05)


def one_by_key(pool, keys):
    """one of the strategies of a dictionary; a key listed twice is twice as
    likely (one_of would drop the repetition)"""
    return st.sampled_from(list(keys)).flatmap(lambda k: pool[k])


def load(mag=10000):
    """of both signs; whole numbers are given as int now and then, others with
    all their digits"""
    return st.one_of(st.just(0.0), st.integers(-10, 10).map(lambda i: i * mag / 10.0), num(-mag, mag, 1), st.integers(-mag, mag), fine(-mag, mag, 1))


poisson = st.one_of(num(0.0, 0.45, 2), num(0.0, 0.45, 2), pick(0.49, 0.47, -0.2))
material = st.fixed_dictionaries({
    "rho": st.integers(50, 9000).map(float),
    "E": st.integers(10, 300).map(lambda i: i * 1e9),
    "mu": poisson,
})

# slender members of ordinary proportions
rawsec = st.fixed_dictionaries({
    "A": st.integers(10, 400).map(lambda i: i * 1e-4),
    "I2": st.integers(10, 500).map(lambda i: i * 1e-6),
    "I3": st.integers(10, 900).map(lambda i: i * 1e-6),
    "J": st.integers(5, 500).map(lambda i: i * 1e-6),
})

beamprop = st.fixed_dictionaries({"mat": material, "sec": rawsec})


@st.composite
def points(draw, n_min, n_max, spacing=1.0):
    """Distinct points >= 0.5*spacing apart; exactly vertical and horizontal
    members occur often, skew ones too."""
    n = draw(st.integers(n_min, n_max))
    grid = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)),
                         min_size=n, max_size=n, unique=True))
    sx, sy, sz = [draw(num(1, 4, 1)) * spacing for _ in range(3)]
    if draw(st.integers(0, 3)) == 0:             # no round numbers
        sx, sy, sz = sx * 1.000036471, sy * 1.000052713, sz * 1.000019437
    skew = draw(st.booleans())
    pts = []
    for g in grid:
        d = (0, 0, 0)
        if skew:
            d = draw(st.tuples(*[st.integers(-20, 20)] * 3))
        pts.append([g[0] * sx + d[0] / 100.0 * sx, g[1] * sy + d[1] / 100.0 * sy, g[2] * sz + d[2] / 100.0 * sz])
    pts = [[round(c, 9) for c in p] for p in pts]
    if draw(st.booleans()):                      # whole numbers as int
        pts = [[int(c) if c == int(c) else c for c in p] for p in pts]
    return pts




@st.composite
def release_set(draw):
    """12 booleans; at most one axial, one torsional release and per bending
    plane one of the combinations that leave the member itself stable."""
    rel = [False] * 12
    kind = draw(st.integers(0, 7))
    if kind == 0:                                # a wholly released end: what is left is a cantilever, or nothing at all
        o = draw(pick(0, 6))
        return [o <= d < o + 6 for d in range(12)]
    if kind == 1:                                # ball joints
        twist = draw(pick(None, 3, 9))
        return [d in (4, 5, 10, 11) or d == twist for d in range(12)]
    ax = draw(pick(None, None, 0, 6))
    to = draw(pick(None, None, 3, 9))
    for k in (ax, to):
        if k is not None:
            rel[k] = True
    for plane in ((1, 5, 7, 11), (2, 4, 8, 10)):
        u1, r1, u2, r2 = plane
        for k in draw(pick((), (r1,), (r2,), (r1, r2), (u1,), (u2,), (u1, r2), (u2, r1), (u1, r1), (u2, r2))):
            rel[k] = True
    return rel


def release_some(draw, f):
    """see that some member of the frame is released"""
    if not any(b["rel"] and any(b["rel"]) for b in f["beams"]):
        f["beams"][draw(st.integers(0, len(f["beams"]) - 1))]["rel"] = draw(release_set())
    return f


@st.composite
def frame(draw, n_min=2, n_max=6, releases=False, rotations=True, extra=3, supports=True, springy=False, spacing=1.0):
    X = draw(points(n_min, n_max, spacing))
    n = len(X)
    props = draw(st.lists(beamprop, min_size=1, max_size=3))
    beams, pairs = [], set()

    def add(i, j, rel=None):
        b = {"i": i, "j": j, "p": draw(st.integers(0, len(props) - 1)),
             "rot": draw(angle) if rotations and draw(st.booleans()) else 0.0, "rel": rel}
        b["simple"] = draw(st.booleans())
        beams.append(b)
        pairs.add((min(i, j), max(i, j)))

    for k in range(1, n):                      # spanning tree, either direction
        p = draw(st.integers(0, k - 1))
        if draw(st.booleans()):
            add(p, k)
        else:
            add(k, p)
    for _ in range(draw(st.integers(0, extra))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if i != j and ((min(i, j), max(i, j)) not in pairs or draw(st.booleans())):      # also side by side
            add(i, j, draw(release_set()) if releases and draw(st.integers(0, 3)) else None)
    order = draw(st.permutations(list(range(len(beams)))))
    beams = [beams[k] for k in order]
    fix = draw(st.integers(0, n - 1))
    restr = {str(fix): [True] * 6}
    if supports:
        for k in range(n):
            if k != fix and draw(st.integers(0, 2)) == 0:
                restr[str(k)] = [draw(st.booleans()) for _ in range(6)]
    return {"X": X, "props": props, "beams": beams, "restr": restr}


@st.composite
def lattice(draw, most=60):
    """A regular structure of many nodes: a grid of up to 3 directions, members
    between neighbours, defined in any order, supported at one end."""
    nx = draw(st.integers(2, 10))
    ny = draw(st.integers(1, max(1, min(6, most // nx))))
    nz = draw(st.integers(1, max(1, min(4, most // (nx * ny)))))
    d = [draw(num(1, 4, 1)) for _ in range(3)]
    place = draw(st.permutations([0, 1, 2]))
    X, idx = [], {}
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                c = [i * d[0], j * d[1], k * d[2]]
                idx[i, j, k] = len(X)
                X.append([round(c[q], 6) for q in place])
    props = draw(st.lists(beamprop, min_size=1, max_size=3))
    rnd = draw(st.randoms(use_true_random=False))
    beams = []
    for (i, j, k), a in idx.items():
        for q in ((i + 1, j, k), (i, j + 1, k), (i, j, k + 1)):
            if q in idx:
                e = (a, idx[q]) if rnd.random() < 0.5 else (idx[q], a)
                beams.append({"i": e[0], "j": e[1], "p": rnd.randrange(len(props)), "rot": 0.0, "rel": None, "simple": rnd.random() < 0.5})
    rnd.shuffle(beams)
    ids = list(range(len(X)))
    rnd.shuffle(ids)                             # numbering in any order
    Y = [None] * len(X)
    for k, v in enumerate(ids):
        Y[v] = X[k]
    for b in beams:
        b["i"], b["j"] = ids[b["i"]], ids[b["j"]]
    ends = [ids[a] for (i, j, k), a in idx.items() if i == 0]
    rnd.shuffle(ends)
    restr = {str(a): [True] * 6 if q == 0 or rnd.random() < 0.7 else [True, True, True, False, False, False] for q, a in enumerate(ends)}
    held = draw(pick(0.0, 0.0, 0.6, 0.9))        # much of it may be held
    for a in range(len(X)):
        if str(a) not in restr and rnd.random() < held:
            restr[str(a)] = [True] * 6 if rnd.random() < 0.8 else [rnd.random() < 0.7 for _ in range(6)]
    return {"X": Y, "props": props, "beams": beams, "restr": restr}


def in_units(spec, length, force):
    """The same structure in other units (one metre is `length` units, one
    newton `force` units)."""
    def props(p):
        m, s = p["mat"], p["sec"]
        return {"mat": {"rho": m["rho"] * force / length ** 4, "E": m["E"] * force / length ** 2, "mu": m["mu"]},
                "sec": {"A": s["A"] * length ** 2, "I2": s["I2"] * length ** 4, "I3": s["I3"] * length ** 4, "J": s["J"] * length ** 4}}
    fl = force * length
    L = spec["loads"]
    return dict(spec, X=[[c * length for c in x] for x in spec["X"]], props=[props(p) for p in spec["props"]], loads={
        "nodal": [[k, [x * force for x in v[:3]] + [x * fl for x in v[3:]]] for k, v in L["nodal"]],
        "dist": [[k, [x * force / length for x in v[:6]] + [x * force for x in v[6:]]] for k, v in L["dist"]],
        "conc": [[k, [x * force for x in v[:3]] + [x * fl for x in v[3:]], r] for k, v, r in L["conc"]]})


@st.composite
def loads_for(draw, spec, nodal=True, member=True, n_max=4, mag=10000):
    n, m = len(spec["X"]), len(spec["beams"])
    res = {"nodal": [], "dist": [], "conc": []}
    seen = set()
    for _ in range(draw(st.integers(1, n_max))):
        kind = draw(pick(*(["nodal"] * nodal + ["dist", "conc"] * member)))
        if kind == "nodal":
            k = draw(st.integers(0, n - 1))
            if ("n", k) in seen:
                continue
            seen.add(("n", k))
            res["nodal"].append([k, [draw(load(mag)) for _ in range(6)]])
        elif kind == "dist":
            k = draw(st.integers(0, m - 1))
            if ("d", k) in seen:
                continue
            seen.add(("d", k))
            res["dist"].append([k, [draw(load(mag)) for _ in range(8)]])
        else:
            k = draw(st.integers(0, m - 1))
            if ("c", k) in seen:
                continue
            seen.add(("c", k))
            v, only = [draw(load(mag)) for _ in range(6)], draw(pick(None, None, None, 0, 1, 2, 3, 4, 5))
            if only is not None:                 # a single component
                v = [x if c == only else 0 for c, x in enumerate(v)]
            res["conc"].append([k, v, draw(st.one_of(num(0, 1, 2), num(0, 1, 2), fine(0, 1, 2), pick(0.0, 1.0)))])
    return res


def nonzero_load(l):
    return any(any(v) for _, v in l["nodal"]) or any(any(v) for _, v in l["dist"]) or any(any(v[1]) for v in l["conc"])


# --------------------------------------------------------------------------
# builders
# --------------------------------------------------------------------------
def nname(k):
    return "n%d" % k


def bname(k):
    return "b%d" % k


def shell_names(s):
    """(shells, shell sections): names of their own, those of the members and
    beam sections, or those of the nodes - each kind of object has its names"""
    h = (3 * len(s["X"]) + 2 * len(s["beams"]) + sum(e["n"][0] for e in s["shells"])) % 3
    return (("e%d", "ss%d"), ("b%d", "s%d"), ("n%d", "s%d"))[h]


def beam_data(spec, b):
    p = spec["props"][b["p"]]
    m, s = p["mat"], p["sec"]
    return dict(i=b["i"], j=b["j"], E=m["E"], G=m["E"] / 2 / (1 + m["mu"]), A=s["A"], I2=s["I2"], I3=s["I3"],
                J=s["J"], rho=m["rho"], rot=b["rot"], rel=b["rel"])


def ref_frame(spec):
    return ref.Frame(spec["X"], [beam_data(spec, b) for b in spec["beams"]])


def fixed_dofs(restr):
    return {6 * int(k) + d for k, v in restr.items() for d in range(6) if v[d]}


def build_model(spec, names=None, node_order=None, beam_order=None, restraints=True):
    from hyperstatic.core.fe_model.model import Model
    nn = (lambda k: names[0][k]) if names else nname
    bn = (lambda k: names[1][k]) if names else bname
    m = Model()
    for k in (node_order or range(len(spec["X"]))):
        m.add_node(nn(k), *spec["X"][k])
    for k, p in enumerate(spec["props"]):
        mt, s = p["mat"], p["sec"]
        m.add_isotropic_material("m%d" % k, mt["rho"], mt["E"], mt["mu"], 1.17e-5)
        m.add_beam_section_general("s%d" % k, "m%d" % k, s["A"], s["A"] * 0.8, s["A"] * 0.7, s["I2"], s["I3"], s["J"], 1e-3, 2e-3)
    for k in (beam_order or range(len(spec["beams"]))):
        b = spec["beams"][k]
        p = spec["props"][b["p"]]
        if b.get("simple"):
            mt, s = p["mat"], p["sec"]
            m.add_simple_beam(bn(k), nn(b["i"]), nn(b["j"]), mt["E"], mt["mu"], s["A"], s["I2"], s["I3"], s["J"], mt["rho"])
        else:
            m.add_beam(bn(k), nn(b["i"]), nn(b["j"]), "s%d" % b["p"])
        if b["rot"]:
            m.set_beam_rotation(bn(k), b["rot"])
        if b["rel"]:
            m.set_beam_releases(bn(k), *b["rel"])
    if restraints:
        for k, v in spec["restr"].items():
            m.set_nodal_restraint(nn(int(k)), *v)
    return m


def build_pattern(name, loads, names=None):
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    nn = (lambda k: names[0][k]) if names else nname
    bn = (lambda k: names[1][k]) if names else bname
    p = LoadPattern(name)
    for k, v in loads["nodal"]:
        p.set_nodal_load(nn(k), *v)
    for k, v in loads["dist"]:
        p.set_beam_load_dist(bn(k), *v)
    for k, v, r in loads["conc"]:
        p.set_beam_load_conc(bn(k), *v, r)
    return p


def static_case(name, pats, restr=None, names=None):
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    nn = (lambda k: names[0][k]) if names else nname
    lc = StaticCase(name)
    for p, f in pats:
        lc.add_pattern(p, f)
    for k, v in (restr or {}).items():
        lc.set_nodal_restraint(nn(int(k)), *v)
    return lc


class Work:
    """A fresh work directory, removed afterwards."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=boot.scratch())
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, True)


def solve(model, cases, path, run=None, filename="w.asb"):
    """Assemble, save, solve the given static cases with the library."""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_solver.static import StaticSolver
    asb = Assembly(model, cases)
    asb.save(path, filename)
    s = StaticSolver(path, filename)
    for c in (run or [c.name for c in cases]):
        s.solve_linear(c)
    return asb


def load_d(path, case):
    return np.load(os.path.join(path, case + ".d.npy"))


def node_resolver(path, filename="w.asb"):
    from hyperstatic.core.fe_post.node import NodeResultResolver
    return NodeResultResolver(path, filename)


def beam_resolver(path, filename="w.asb"):
    from hyperstatic.core.fe_post.beam import BeamResultResolver
    return BeamResultResolver(path, filename)


def smash(v):
    """use what was handed out for something else"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            v[...] = True if v.dtype == bool else -77
    elif isinstance(v, dict):
        for x in v.values():
            smash(x)
        v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            smash(x)
        if isinstance(v, list):
            del v[:]


def combine(pats):
    """Sum of (loads, factor) as one load spec."""
    out = {"nodal": [], "dist": [], "conc": []}
    for l, f in pats:
        out["nodal"] += [[k, [x * f for x in v]] for k, v in l["nodal"]]
        out["dist"] += [[k, [x * f for x in v]] for k, v in l["dist"]]
        out["conc"] += [[k, [x * f for x in v], r] for k, v, r in l["conc"]]
    return out


def same_disp(u, uref, fr, what, tol=1e-6, extra=None):
    """Compare displacements with every DOF weighted by the root of its
    stiffness, so that translations and rotations are commensurable."""
    from .runner import close
    n = 6 * fr.n
    w = np.sqrt(np.abs(np.diag(fr.K)[:n]) + 1e-300)
    u = np.asarray(u, float)
    if u.size != n:
        from .runner import Violation
        raise Violation("%s: %d values for %d DOFs" % (what, u.size, n))
    u = u.reshape(n)
    uref = np.asarray(uref, float).reshape(n)
    # loads that act on supports alone leave nothing but rounding behind
    sc = max(np.max(np.abs(w * uref)), 1e-12)
    if np.ndim(fr.load_size):
        sc = max(sc, 1e-6 * np.max((fr.load_size[:n] / w)[np.diag(fr.K)[:n] > 0], initial=0))
    if extra is not None:
        sc = max(sc, extra)
    close(w * u, w * uref, tol, what, scale=sc)


def force_scale(fr, loads, *values):
    """Size of the loading (forces and moment/1m), and of the given values."""
    F = fr.load_vector(loads)
    m = max(np.max(np.abs(F)), 1e-9)
    for b in range(len(fr.beams)):
        f = fr.member_f(b, loads)
        m = max(m, np.max(np.abs(f)))
    return max([m] + [np.max(np.abs(v), initial=0) for v in values])
