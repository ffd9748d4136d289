# The façade and the model as registries: what was defined is what is reported.
import os
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen
from ..runner import Check, Sub, Violation, close, require
from .P02 import dense
from .P22 import KERNELS

NN = ["a", "b", "A", "d", "节点5", "6"]
MAT, SEC, SSEC = ["m1", "M1"], ["s1", "S1", "s3"], ["s1", "t1 "]      # each kind of object has its names
BM, SH, PAT, CASE = ["b1", "B1", "b3"], ["b1", "H1"], ["p1", "P1"], ["p1", "C1"]
GHOST = "nowhere"


def nm(pool):
    """mostly known names; sometimes one that is never defined"""
    return st.sampled_from([x for x in pool for _ in range(12)] + [GHOST] * len(pool))


flags = st.lists(st.booleans(), min_size=6, max_size=6)
# of any size: values are kept as they are
anyload = st.tuples(gen.load(100), st.sampled_from([1.0] * 5 + [1e-7, 1e-12, 1e9])).map(lambda t: t[0] * t[1])
six = st.one_of(st.lists(anyload, min_size=6, max_size=6), st.lists(anyload, min_size=6, max_size=6), st.lists(anyload, min_size=6, max_size=6), st.just([0] * 6))

def ops_of(nn, bm, narrow):
    """one generator per kind of operation over (a part of) the names"""
    mat, sec, ssec, sh, pat, case = (x[:1] if narrow else x for x in (MAT, SEC, SSEC, SH, PAT, CASE))
    N, B = st.sampled_from(nn), st.sampled_from(bm)
    return {
        "node": st.tuples(st.just("node"), N, st.integers(0, 9)),
        "mat": st.tuples(st.just("mat"), st.sampled_from(mat)),
        "sec": st.tuples(st.just("sec"), st.sampled_from(sec), nm(mat), st.sampled_from(["general", "rectangle", "I", "box", "circle", "pipe"])),
        "ssec": st.tuples(st.just("ssec"), st.sampled_from(ssec), nm(mat), st.sampled_from(["shell", "plate", "membrane"])),
        "beam": st.tuples(st.just("beam"), B, nm(nn), nm(nn), nm(sec)),
        "simple": st.tuples(st.just("simple"), B, nm(nn), nm(nn)),
        "shell": st.tuples(st.just("shell"), st.sampled_from(sh), st.lists(nm(nn), min_size=3, max_size=4, unique=True), nm(ssec)),
        "restr": st.tuples(st.just("restr"), nm(nn), flags),
        "mass": st.tuples(st.just("mass"), nm(nn)),
        "release": st.tuples(st.just("release"), nm(bm), st.booleans()),
        "pat": st.tuples(st.just("pat"), st.sampled_from(pat)),
        "nload": st.tuples(st.just("nload"), nm(pat), N, six),
        "bload": st.tuples(st.just("bload"), nm(pat), B, st.booleans()),
        "case": st.tuples(st.just("case"), st.sampled_from(case), st.booleans()),
        "crestr": st.tuples(st.just("crestr"), nm(case), N, flags),
        "cpat": st.tuples(st.just("cpat"), nm(case), nm(pat)),
        "results": st.tuples(st.just("results"), nm(case), nm(nn)),
    }


# a useful start, so that most histories have something to refer to
START = [["node", n, 0] for n in NN[:4]] + [["mat", "m1"], ["sec", "s1", "m1", "pipe"], ["ssec", "s1", "m1", "shell"], ["pat", "p1"], ["case", "p1", True]]


@st.composite
def histories(draw):
    """Either everything over all names, or a few kinds of operation over a few
    names, so that the same object is defined again and again."""
    narrow = draw(st.booleans())
    pool = ops_of(draw(gen.pick(NN[:3], NN)) if narrow else NN, BM[:2] if narrow else BM, narrow)
    kinds = sorted(pool) + ["node", "beam"]
    if narrow:
        kinds = draw(st.lists(st.sampled_from(sorted(pool)), min_size=1, max_size=4, unique=True))
    ops = draw(st.lists(gen.one_by_key(pool, kinds).map(list), min_size=1, max_size=20))
    return {"start": narrow or draw(st.booleans()), "ops": ops}


spec = histories()


def loc(name, k):
    """points of a space curve: distinct, no three in a line"""
    t = NN.index(name) + k / 10.0
    return [t, t * t / 3, t ** 3 / 20]


class World:
    def __init__(self):
        self.nodes, self.mats, self.secs, self.ssecs = {}, set(), set(), set()
        self.beams, self.shells, self.restr = {}, {}, {}
        self.pats, self.cases, self.crestr = {}, set(), {}

    def used(self, n):
        return any(n in b for b in self.beams.values()) or any(n in s for s in self.shells.values())


def step(a, w, o):
    """apply to the façade and to the model; returns (returned, expected)"""
    k = o[0]
    if k == "node":
        if w.used(o[1]):
            return None
        w.nodes[o[1]] = loc(o[1], o[2])
        return a.add_node(o[1], *w.nodes[o[1]]), True
    if k == "mat":
        w.mats.add(o[1])
        return a.add_isotropic_material(o[1], 7850.0, 2e11, 0.3, 1e-5), True
    if k == "sec":
        ok = o[2] in w.mats
        args = {"general": (.1, .08, .08, 1e-4, 2e-4, 1e-4, 1e-3, 2e-3), "rectangle": (.4, .2), "I": (.4, .2, .01, .02), "box": (.4, .2, .01, .02), "circle": (.3,), "pipe": (.3, .02)}[o[3]]
        r = getattr(a, "add_beam_section_" + o[3])(o[1], o[2], *args)
        if ok:
            w.secs.add(o[1])
        return r, ok
    if k == "ssec":
        ok = o[2] in w.mats
        if ok:
            w.ssecs.add(o[1])
        return a.add_shell_section(o[1], o[2], 0.2, o[3]), ok
    if k in ("beam", "simple"):
        if o[2] == o[3] and o[2] in w.nodes:
            return None                          # a member of no length
        ok = o[2] in w.nodes and o[3] in w.nodes and (k == "simple" or o[4] in w.secs)
        r = a.add_beam(*o[1:]) if k == "beam" else a.add_simple_beam(o[1], o[2], o[3], 2e11, .3, .1, 1e-4, 1e-4, 1e-4, 7850.0)
        if ok:
            w.beams[o[1]] = (o[2], o[3])
        return r, ok
    if k == "shell":
        ns = o[2] + [None] * (4 - len(o[2]))
        ok = all(n in w.nodes for n in o[2]) and o[3] in w.ssecs
        r = a.add_shell(o[1], *ns, o[3])
        if ok:
            w.shells[o[1]] = tuple(o[2])
        return r, ok
    if k == "restr":
        ok = o[1] in w.nodes
        if ok:
            w.restr[o[1]] = o[2]
        return a.set_nodal_restraint(o[1], *o[2]), ok
    if k == "mass":
        return a.set_nodal_mass(o[1], 1, 2, 3, 4, 5, 6), o[1] in w.nodes
    if k == "release":
        return a.set_beam_release(o[1], r2i=o[2], r3j=True), o[1] in w.beams
    if k == "pat":
        w.pats[o[1]] = {}
        return a.add_loadpattern(o[1]), True
    if k == "nload":
        ok = o[1] in w.pats
        if ok:
            w.pats[o[1]][o[2]] = o[3]
        return a.set_nodal_load(o[1], o[2], *o[3]), ok
    if k == "bload":
        ok = o[1] in w.pats
        return (a.set_beam_load_distributed(o[1], o[2], qi2=1.0, qj2=2.0) if o[3] else a.set_beam_load_concentrated(o[1], o[2], F2=1.0)), ok
    if k == "case":
        w.cases.add(o[1])
        w.crestr[o[1]] = {}
        return (a.add_static_case if o[2] else a.add_modal_case)(o[1]), True
    if k == "crestr":
        ok = o[1] in w.cases
        if ok:
            w.crestr[o[1]][o[2]] = o[3]
        return a.set_loadcase_nodal_restraint(o[1], o[2], *o[3]), ok
    if k == "cpat":
        return a.add_case_pattern(o[1], o[2], 1.5), o[1] in w.cases and o[2] in w.pats
    if k == "results":
        # nothing has been solved
        require(a.result_get_nodal_displacement(o[2], o[1]) is None, "a displacement before any solution")
        require(a.result_get_nodal_reaction(o[2], o[1]) is None, "a reaction before any solution")
        require(a.result_get_beam_end_force("b1", o[1]) is None, "an end force before any solution")
        require(a.result_get_beam_deformation("b1", 0.5, o[1]) is None, "a deformation before any solution")
        return a.solve_static(o[1]), False
    raise AssertionError(k)


def names_equal(got, want, what):
    require(isinstance(got, list), "%s: %r" % (what, got))
    require(len(got) == len(set(got)) and set(got) == set(want), "%s: %r instead of %r" % (what, got, sorted(want)))


def flags_equal(got, want, what):
    require(isinstance(got, dict) and set(got) == set(want), "%s: %r instead of %r" % (what, got, want))
    for n, v in want.items():
        require([bool(x) for x in got[n]] == list(v), "%s of %s: %r instead of %r" % (what, n, list(got[n]), v))


def observe(a, w):
    names_equal(a.get_node_names(), w.nodes, "nodes")
    names_equal(a.get_beam_names(), w.beams, "beams")
    names_equal(a.get_shell_names(), w.shells, "shells")
    for n in NN + [GHOST]:
        g = a.get_node_location(n)
        if n in w.nodes:
            require(g is not None, "location of %s" % n)
            close(g, w.nodes[n], 1e-12, "location of %s" % n, scale=20.0)
        else:
            require(g is None, "location of undefined %s: %r" % (n, g))
    for b in BM + [GHOST]:
        g, l = a.get_beam_node_names(b), a.get_beam_location(b)
        if b in w.beams:
            require(g == w.beams[b], "ends of %s: %r instead of %r" % (b, g, w.beams[b]))
            close(l, [w.nodes[n] for n in w.beams[b]], 1e-12, "location of %s" % b, scale=20.0)
        else:
            require(g is None and l is None, "undefined %s: %r %r" % (b, g, l))
    for h in SH + [GHOST]:
        g, l = a.get_shell_node_names(h), a.get_shell_location(h)
        if h in w.shells:
            require(g == w.shells[h], "corners of %s: %r instead of %r" % (h, g, w.shells[h]))
            close(l, [w.nodes[n] for n in w.shells[h]], 1e-12, "location of %s" % h, scale=20.0)
        else:
            require(g is None and l is None, "undefined %s: %r %r" % (h, g, l))
    flags_equal(a.get_node_restraints(), w.restr, "restraints")
    for c in CASE + [GHOST]:
        if c in w.cases:
            flags_equal(a.get_node_restraints(c), w.crestr[c], "restraints of case %s" % c)
        else:
            require(a.get_node_restraints(c) is None, "restraints of undefined case %s" % c)
    for p in PAT + [GHOST]:
        g = a.get_all_nodal_load(p)
        if p not in w.pats:
            require(g is None and a.get_nodal_load(p, "a") is None, "loads of undefined pattern %s" % p)
            continue
        require(set(g) == set(w.pats[p]), "loaded nodes of %s: %r instead of %r" % (p, set(g), set(w.pats[p])))
        for n in NN:
            v = a.get_nodal_load(p, n)
            if n in w.pats[p]:
                for x, y, z in zip(v, g[n], w.pats[p][n]):
                    close(x, z, 1e-12, "load of %s in %s" % (n, p), scale=abs(z))
                    close(y, z, 1e-12, "load of %s in %s" % (n, p), scale=abs(z))
                require(len(v) == len(g[n]) == 6, "number of components of the load")
            else:
                require(v is None or not np.any(v), "load of %s in %s: %r" % (n, p, v))


def o_api(s):
    from hyperstatic.core import Api
    with gen.Work() as wd:
        a, w = Api(os.path.join(wd, "sub")), World()
        require(os.path.isdir(os.path.join(wd, "sub")), "the work path is not created")
        for o in (START if s["start"] else []) + s["ops"]:
            r = step(a, w, o)
            if r is None:
                continue
            require(r[0] is r[1], "%s returned %r instead of %r" % (o[0], r[0], r[1]))
            observe(a, w)
            everything(a)
        observe(a, w)


def everything(a):
    """what is reported is the reader's own: use it for something else"""
    for f in (a.get_node_names, a.get_beam_names, a.get_shell_names, a.get_node_restraints):
        gen.smash(f())
    for f, pool in ((a.get_node_location, NN), (a.get_beam_node_names, BM), (a.get_beam_location, BM), (a.get_shell_node_names, SH), (a.get_shell_location, SH),
                    (a.get_node_restraints, CASE), (a.get_all_nodal_load, PAT)):
        for n in pool:
            gen.smash(f(n))
    for p in PAT:
        gen.smash([a.get_nodal_load(p, n) for n in NN])


# ------------------------------------------------------------ the model alone
mop = st.one_of(
    st.tuples(st.just("node"), st.sampled_from(NN), st.integers(0, 9)),
    st.tuples(st.just("beam"), st.sampled_from(BM + ["b4", "b5"]), st.sampled_from(NN), st.sampled_from(NN), st.booleans()),
    st.tuples(st.just("shell"), st.sampled_from(SH + ["h3"]), st.lists(st.sampled_from(NN), min_size=3, max_size=4, unique=True)),
    st.tuples(st.just("mass"), st.sampled_from(NN), six),
    st.tuples(st.just("refused"), st.sampled_from(BM + ["b4", "b5", "b6"]), st.sampled_from(NN[:4]), st.sampled_from(NN[:4]), gen.pick("section", "start", "end", "shell", "corner", "corner4", "simple")),
).map(list)


def o_model(s):
    """Indices number the objects of each kind without gaps, and stay with their object."""
    from hyperstatic.core.fe_model.model import Model
    m, w, mass = Model(), World(), {}
    m.add_isotropic_material("m", 7850.0, 2e11, 0.3, 1e-5)
    m.add_beam_section_rectangle("s", "m", .4, .2)
    m.add_shell_section("t", "m", .2)
    idx = {"node": {}, "beam": {}, "shell": {}}

    def keep(kind, name, ret):
        h = {"node": m.get_node_hid, "beam": m.get_beam_hid, "shell": m.get_shell_hid}[kind](name)
        require(ret == h, "%s %s: returned index %r, queried %r" % (kind, name, ret, h))
        require(idx[kind].get(name, h) == h, "%s %s changed its index" % (kind, name))
        idx[kind][name] = h

    for o in s["ops"]:
        k = o[0]
        if k == "node":
            if w.used(o[1]) or o[1] in mass:
                continue
            w.nodes[o[1]] = loc(o[1], o[2])
            keep("node", o[1], m.add_node(o[1], *w.nodes[o[1]]))
        elif k == "beam":
            if o[2] == o[3] or o[2] not in w.nodes or o[3] not in w.nodes:
                continue
            w.beams[o[1]] = (o[2], o[3])
            keep("beam", o[1], m.add_beam(o[1], o[2], o[3], "s") if o[4] else m.add_simple_beam(o[1], o[2], o[3], 2e11, .3, .1, 1e-4, 1e-4, 1e-4, 7850.0))
        elif k == "shell":
            if any(n not in w.nodes for n in o[2]):
                continue
            w.shells[o[1]] = tuple(o[2])
            keep("shell", o[1], m.add_shell(o[1], "t", *o[2]))
        elif k == "mass" and o[1] in w.nodes:
            mass[o[1]] = o[2]
            m.set_nodal_mass(o[1], *o[2])
        elif k == "refused":                     # refers to something unknown
            x, y = o[2:4]
            try:
                if o[4] == "section":
                    m.add_beam(o[1], x, y, GHOST)
                elif o[4] in ("start", "end"):
                    m.add_beam(o[1], *((GHOST, y) if o[4] == "start" else (x, GHOST)), "s")
                elif o[4] == "simple":
                    m.add_simple_beam(o[1], x, GHOST, 2e11, .3, .1, 1e-4, 1e-4, 1e-4, 7850.0)
                elif o[4] == "shell":
                    m.add_shell(o[1], GHOST, *NN[:3])
                else:
                    m.add_shell(o[1], "t", *(NN[:2] if o[4] == "corner" else NN[:3]), GHOST)
            except Exception:
                pass
            else:
                raise Violation("a definition that refers to something unknown (%s) is accepted" % o[4])
        for kind, got in (("node", m.get_node_names()), ("beam", m.get_beam_names()), ("shell", m.get_shell_names())):
            names_equal(got, idx[kind], kind)
            h = [{"node": m.get_node_hid, "beam": m.get_beam_hid, "shell": m.get_shell_hid}[kind](n) for n in got]
            require(sorted(h) == list(range(len(h))), "%s indices %s" % (kind, h))
            require(all(idx[kind][n] == x for n, x in zip(got, h)), "%s indices changed" % kind)
        for _ in range(2):
            for n in w.nodes:
                x = m.get_node_location(n)
                close(x, w.nodes[n], 1e-12, "location of %s" % n, scale=20.0)
                gen.smash([x, m.get_nodal_mass(n), m.get_node_transform_matrix(n)])
            gen.smash([m.get_nodal_restraint_dict(), m.get_node_names(), m.get_beam_names()])
        require(m.node_count == len(w.nodes) and m.beam_count == len(w.beams), "counts")
        for n in w.nodes:
            close(m.get_node_location(n), w.nodes[n], 1e-12, "location of %s" % n, scale=20.0)
            got, want = np.ravel(m.get_nodal_mass(n)), mass.get(n, [0] * 6)
            require(got.size == 6, "number of components of the mass")
            for x, y in zip(got, want):
                close(x, y, 1e-12, "mass of %s" % n, scale=abs(y))
        for b, c in w.beams.items():
            require(tuple(m.get_beam_connection(b)) == c, "ends of %s" % b)
            require(list(m.get_beam_node_hids(b)) == [idx["node"][n] for n in c], "end indices of %s" % b)
            close(m.get_beam_length(b), np.linalg.norm(np.subtract(w.nodes[c[0]], w.nodes[c[1]])), 1e-9, "length of %s" % b)
        for h, c in w.shells.items():
            require(tuple(m.get_shell_connection(h)) == c, "corners of %s" % h)
            require(list(m.get_shell_node_hids(h)) == [idx["node"][n] for n in c], "corner indices of %s" % h)


FIRST = [["node", n, 0] for n in NN[:4]]
BMS = ["b%d" % k for k in range(9)]
members = st.one_of(*[st.tuples(st.just("beam"), st.sampled_from(BMS), st.sampled_from(NN[:4]), st.sampled_from(NN[:4]), st.booleans())] * 2,
                    st.tuples(st.just("refused"), st.sampled_from(BMS), st.sampled_from(NN[:4]), st.sampled_from(NN[:4]), gen.pick("section", "start", "end", "simple")),
                    st.tuples(st.just("shell"), st.sampled_from(SH + ["h3", "h4"]), st.lists(st.sampled_from(NN[:4]), min_size=3, max_size=4, unique=True)),
                    st.tuples(st.just("refused"), st.sampled_from(SH + ["h3", "h4"]), st.just("a"), st.just("a"), gen.pick("shell", "corner", "corner4"))).map(list)
mspec = st.one_of(st.fixed_dictionaries({"ops": st.lists(mop, min_size=1, max_size=15).map(lambda t: FIRST + t)}),
                  st.fixed_dictionaries({"ops": st.lists(members, min_size=4, max_size=25).map(lambda t: FIRST + t)}))


# ------------------------------------------------ sections defined repeatedly
SECS = {"general": 8, "rectangle": 2, "I": 4, "box": 4, "circle": 1, "pipe": 2}


@st.composite
def redefined(draw):
    def material():
        return [draw(st.integers(50, 9000)) * 1.0, draw(st.integers(10, 300)) * 1e9, draw(gen.num(0, 0.45, 2)), 1e-5]

    def section():
        k = draw(st.sampled_from(sorted(SECS)))
        h = draw(gen.num(0.2, 0.6, 2))
        t = draw(gen.num(0.01, 0.03, 3))
        b = draw(gen.num(0.15, 0.6, 2))
        return [k] + {"general": [h * b, h * b * .8, h * b * .7, 1e-3 * h, 2e-3 * b, 1e-3 * t, 1e-3, 2e-3], "rectangle": [h, b], "I": [h, b, t, 2 * t],
                      "box": [h, b, t, 2 * t], "circle": [h], "pipe": [h, t]}[k]

    def plate():
        return ["ssec", draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(gen.num(0.05, 0.5, 2)), draw(gen.pick("shell", "plate", "membrane"))]

    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(gen.pick("mat", "sec", "sec", "beam", "plate"))
        if k == "mat":
            ops.append(["mat", draw(st.integers(0, 1)), material()])
        elif k == "sec":
            ops.append(["sec", draw(st.integers(0, 2)), draw(st.integers(0, 1)), section()])
        elif k == "plate":
            ops.append(plate())
        else:
            ops.append(["beam", draw(st.integers(0, 2)), draw(st.integers(0, 2))])
    # what counts in the end
    last = [["mat", k, material()] for k in range(2)]
    last += [["sec", k, draw(st.integers(0, 1)), section()] for k in draw(st.permutations(range(3)))]
    last += [["beam", k, draw(st.integers(0, 2))] for k in draw(st.permutations(range(3)))]
    if draw(st.booleans()):
        last += [plate()[:1] + [k] + plate()[2:] for k in draw(st.permutations(range(2)))] + [["shell", k] for k in range(2)]
    return {"first": [["mat", k, material()] for k in range(2)] + [["sec", k, 0, section()] for k in range(3)] + ops, "last": last}


def o_redefined(s):
    """Materials, sections and members can be defined anew: the structure is then
    that of the last definitions alone."""
    from hyperstatic.core.fe_model.model import Model

    def model(ops):
        m = Model()
        for k in range(4):
            m.add_node("n%d" % k, 2.5 * k, 0.4 * k * k, 0.1 * k)
        for o in ops:
            if o[0] == "mat":
                m.add_isotropic_material("m%d" % o[1], *o[2])
            elif o[0] == "sec":
                getattr(m, "add_beam_section_" + o[3][0])("s%d" % o[1], "m%d" % o[2], *o[3][1:])
            elif o[0] == "ssec":
                m.add_shell_section("t%d" % o[1], "m%d" % o[2], o[3], o[4])
            elif o[0] == "shell":
                m.add_shell("e%d" % o[1], "t%d" % o[1], "n0", "n1", "n2")
            else:
                m.add_beam("b%d" % o[1], "n%d" % o[1], "n%d" % (o[1] + 1), "s%d" % o[2])
        return m
    a, b = model(s["first"] + s["last"]), model(s["last"])
    for k in range(3):
        for f in ("get_beam_K", "get_beam_M"):
            x, y = dense(getattr(a, f)("b%d" % k)), dense(getattr(b, f)("b%d" % k))
            close(x, y, 1e-12, "%s of a member whose section was defined before" % f)
            require(np.any(y), "%s is nothing" % f)
    for k in range(2) if ["shell", 0] in s["last"] else ():
        x, y = dense(a.get_shell_K("e%d" % k)), dense(b.get_shell_K("e%d" % k))
        close(x, y, 1e-12, "get_shell_K of a shell whose section was defined before")
        require(np.any(y), "get_shell_K is nothing")


# ------------------------------------------------------- arguments left out
KEYS = {"restr": ("u1 u2 u3 r1 r2 r3", False), "nload": ("f1 f2 f3 m1 m2 m3", 0), "mass": ("u1 u2 u3 r1 r2 r3", 0),
        "dist": ("pi pj qi2 qj2 qi3 qj3 ti tj", 0), "conc": ("F1 F2 F3 M1 M2 M3 r", 0),
        "release": ("u1i u2i u3i r1i r2i r3i u1j u2j u3j r1j r2j r3j", False)}


@st.composite
def partial(draw):
    s = {"api": draw(st.booleans()), "own": draw(st.booleans())}
    for k, (keys, none) in KEYS.items():
        keys = keys.split()
        if k == "release":
            given = {x: True for x, r in zip(keys, draw(gen.release_set())) if r}
        else:
            given = {x: True if none is False else draw(gen.num(0.1, 0.9, 2)) if x == "r" else float(draw(st.integers(1, 99)))
                     for x in draw(st.lists(st.sampled_from(keys), max_size=3, unique=True))}
        s[k] = {x: given[x] for x in draw(st.permutations(sorted(given)))}
    return s


def o_partial(s):
    """What is not mentioned in a call is none (a member load is at mid-span):
    the same as saying so, by position."""
    def args(k, explicit):
        keys, none = KEYS[k]
        if not explicit:
            return [], s[k]
        return [s[k].get(x, 0.5 if x == "r" else none) for x in keys.split()], {}

    def api(a, path, explicit):
        call = lambda f, k, *first: require(f(*first, *args(k, explicit)[0], **args(k, explicit)[1]) is True, "%s of %s is refused" % (f.__name__, s[k]))
        for n, x in (("a", [0, 0, 0]), ("b", [0, 0, 3]), ("c", [2, 1, 3])):
            a.add_node(n, *x)
        a.add_isotropic_material("m", 7850.0, 2e6, 0.3, 1e-5)
        a.add_beam_section_rectangle("s", "m", .4, .2)
        a.add_beam("ab", "a", "b", "s")
        a.add_beam("bc", "b", "c", "s")
        a.add_loadpattern("p")
        a.add_static_case("k")
        a.add_case_pattern("k", "p", 1.0)
        a.add_modal_case("v")
        call(a.set_beam_release, "release", "ab")
        call(a.set_nodal_mass, "mass", "b")
        call(a.set_nodal_load, "nload", "p", "b")
        call(a.set_beam_load_distributed, "dist", "p", "ab")
        call(a.set_beam_load_concentrated, "conc", "p", "bc")
        for n in "ac":
            a.set_nodal_restraint(n, *[True] * 6)
            if s["own"]:
                a.set_loadcase_nodal_restraint("k", n, *[True] * 6)
        if s["own"]:
            call(a.set_loadcase_nodal_restraint, "restr", "k", "b")
        else:
            call(a.set_nodal_restraint, "restr", "b")
        require(a.assemble() is True and a.solve_static("k") is True, "cannot be solved")
        out = [[a.result_get_nodal_displacement(n, "k"), a.result_get_nodal_reaction(n, "k")] for n in "abc"]
        out += [a.result_get_beam_end_force(b, "k") for b in ("ab", "bc")] + [a.get_nodal_load("p", "b")]
        out += [[float(x) for x in (a.get_node_restraints("k") if s["own"] else a.get_node_restraints())["b"]]]
        if sum(1 for x in s["restr"]) < 6:
            require(a.solve_modal("v", 1) is True, "modes cannot be computed")
            out.append(np.load(os.path.join(path, "v.o.npy")))
        return np.concatenate([np.ravel(np.asarray(x, float)) for x in out])

    def core(explicit):
        from hyperstatic.core.fe_model.model import Model
        from hyperstatic.core.fe_model.load.pattern import LoadPattern
        call = lambda f, k, *first: f(*first, *args(k, explicit)[0], **args(k, explicit)[1])
        m, p = Model(), LoadPattern("p")
        for n, x in (("a", [0, 0, 0]), ("b", [0, 0, 3]), ("c", [2, 1, 3])):
            m.add_node(n, *x)
        m.add_isotropic_material("m", 7850.0, 2e6, 0.3, 1e-5)
        m.add_beam_section_rectangle("s", "m", .4, .2)
        m.add_beam("ab", "a", "b", "s")
        m.add_beam("bc", "b", "c", "s")
        call(m.set_beam_releases, "release", "ab")
        call(p.set_nodal_load, "nload", "b")
        call(p.set_beam_load_dist, "dist", "ab")
        call(p.set_beam_load_conc, "conc", "bc")
        c = gen.static_case("k", [(p, 1.0)])
        for n in "ac":
            m.set_nodal_restraint(n, *[True] * 6)
            if s["own"]:
                c.set_nodal_restraint(n, *[True] * 6)
        call(c.set_nodal_restraint if s["own"] else m.set_nodal_restraint, "restr", "b")
        with gen.Work() as w:
            gen.solve(m, [c], w)
            r = gen.beam_resolver(w)
            out = [gen.load_d(w, "k")[0]] + [r.resolve_beam_end_force(b, "k") for b in ("ab", "bc")]
            return np.concatenate([np.ravel(np.asarray(x, float)) for x in out])

    def one(explicit):
        if not s["api"]:
            return core(explicit)
        from hyperstatic.core import Api
        with gen.Work() as wd:
            path = os.path.join(wd, "sub")
            return api(Api(path), path, explicit)
    x, y = one(False), one(True)
    require(x.shape == y.shape, "%d results instead of %d" % (x.size, y.size))
    close(x, y, 1e-9, "results with and without the arguments that are none", scale=np.max(np.abs(y)) + 1e-9)


# ------------------------------------------------------------------ releases
@st.composite
def released(draw):
    n = draw(st.integers(1, 3))
    return {"sec": draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)),
            "set": draw(st.lists(st.tuples(st.integers(0, n - 1), gen.release_set()).map(list), min_size=1, max_size=4))}


def o_released(s):
    """The member acts as the last releases given for it say, and no other does."""
    from hyperstatic.core import Api
    from .P16 import schur
    with gen.Work() as wd:
        path = os.path.join(wd, "sub")
        a = Api(path)
        n = len(s["sec"])
        for k in range(n + 1):
            a.add_node("n%d" % k, 2.5 * k, 0.4 * k * k, 0.1 * k)
        a.add_isotropic_material("m", 7850.0, 2e11, 0.3, 1e-5)
        a.add_beam_section_rectangle("s0", "m", .4, .2)
        a.add_beam_section_pipe("s1", "m", .3, .02)
        for k in range(n):
            require(a.add_beam("b%d" % k, "n%d" % k, "n%d" % (k + 1), "s%d" % s["sec"][k]) is True, "add_beam")
        a.add_static_case("c")
        for k in range(n + 1):
            a.set_nodal_restraint("n%d" % k, *[True] * 6)
        require(a.assemble() is True, "assemble")
        free = [dense(gen.node_resolver(path, ".asb").assembly.get_beam_K("b%d" % k)) for k in range(n)]
        rel = [[False] * 12] * n
        for k, r in s["set"]:
            require(a.set_beam_release("b%d" % k, *r) is True, "set_beam_release")
            rel[k] = r
        require(a.assemble() is True, "assemble")
        asb = gen.node_resolver(path, ".asb").assembly
        for k in range(n):
            K = free[k]
            L = np.linalg.norm([2.5, 0.4 * (2 * k + 1), 0.1])
            u = np.array([1, 1, 1, L, L, L] * 2)
            want = schur(K, np.zeros(12), rel[k])[0]
            for g in [(0, 6), (1, 5, 7, 11), (2, 4, 8, 10), (3, 9)]:
                ix = np.ix_(g, g)
                close((dense(asb.get_beam_K("b%d" % k, True)) / u / u[:, None])[ix], (want / u / u[:, None])[ix], 1e-8, "stiffness of member %d released %s" % (k, rel[k]), scale=np.max(np.abs((K / u / u[:, None])[ix])))


def make():
    kinds = lambda s: sorted({o[0] for o in s["ops"]})
    return Check("P24", [
        Sub("facade", spec, o_api, lambda s: len(s["ops"]) > 3, "more than three operations", quick=600, classify=kinds),
        Sub("model", mspec, o_model, lambda s: len(s["ops"]) > 6, "more than two operations after the first nodes", quick=400, classify=kinds),
        Sub("redefinition", redefined(), o_redefined, lambda s: len(s["first"]) > 5, "something else is defined in between", quick=150, classify=lambda s: sorted({o[3][0] for o in s["last"] if o[0] == "sec"})),
        Sub("omitted-arguments", partial(), o_partial, lambda s: any(s[k] for k in KEYS), "an argument given", quick=150,
            classify=lambda s: ["%s:%d" % (k, len(s[k])) for k in KEYS]),
        Sub("releases", released(), o_released, lambda s: any(map(any, [r for k, r in s["set"]])), "something is released", quick=150),
    ], assumptions=["nodes are not redefined once members or shells use them (members keep the node they were defined with)",
                    "no members of zero length, no shells with corners in a line"])
