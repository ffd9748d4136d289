# Duplicate detection.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen
from ..runner import Check, Sub, Violation, close, require

NAMES = ["n%d" % k for k in range(7)]
BEAMS = ["b%d" % k for k in range(8)]
UNIT = [[1, 0, 0], [0, 1, 0], [0, 0, -1], [0.6, 0, 0.8], [0.577, -0.577, 0.577]]

# 0, 1, 2, 3 is a rectangle (its diagonals have the same middle and length), and so are others
BASE = [[0, 0, 0], [1, 0, 0], [1, 2, 0], [0, 2, 0], [0, 0, 2], [1, 0, 2], [-1, 2, 2]]

maybe = st.sampled_from([True, True, True, False])
place = st.tuples(st.integers(0, len(BASE) - 1), st.sampled_from([0.0, 0.0, 0.0, 0.2, 0.45, 0.8, 1.25, 1.6, 3.0, 50.0, 1e6]), st.integers(0, len(UNIT) - 1)).map(list)
POOL = {
    "node": st.tuples(st.just("node"), st.sampled_from(NAMES), place, maybe).map(list),
    "beam": st.tuples(st.just("beam"), st.sampled_from(BEAMS), st.sampled_from(NAMES), st.sampled_from(NAMES), st.booleans(), maybe).map(list),
}
ops = gen.one_by_key(POOL, ["node", "node", "beam"])

# (the absolute tolerance, size of the structure)
SCALES = [[None, 1.0], [1e-3, 1.0], [1e-6, 10.0], [1e-2, 100.0], [1e-4, 1.0], [1e-13, 1e-4], [1e-12, 1e-2], [0.5, 100.0], [0.9, 1000.0]]


@st.composite
def spec(draw):
    k = draw(st.integers(0, len(SCALES) - 1))
    one = POOL["node"] if SCALES[k][0] and SCALES[k][0] > 0.1 else ops          # with a coarse tolerance members have no direction
    return {"tol": k, "rel": draw(gen.pick(None, None, 1e-14, 0.5)), "ops": draw(st.lists(one, min_size=4, max_size=24))}


@st.composite
def members(draw):
    """many members between given nodes, some of which are at the same place"""
    n = draw(st.integers(4, len(NAMES)))
    if draw(st.booleans()):
        first = [["node", NAMES[k], [k, 0.0, 0], True] for k in range(n)]
    else:
        p = draw(gen.num(2, 3, 0).map(int))
        first = [["node", NAMES[k], [k % p, draw(st.sampled_from([0.0, 0.45, 0.8, 1.25])), draw(st.integers(0, len(UNIT) - 1))], False] for k in range(n)]
    pool = st.tuples(st.just("beam"), st.sampled_from(BEAMS), st.sampled_from(NAMES[:n]), st.sampled_from(NAMES[:n]), st.booleans(), maybe).map(list)
    return {"tol": draw(gen.pick(*[k for k, x in enumerate(SCALES) if x[0] is None or x[0] < 0.1])), "ops": first + draw(st.lists(pool, min_size=3, max_size=14))}


@st.composite
def crowd(draw):
    """many nodes, then others at the place of any of them"""
    n = draw(st.integers(40, 150))
    r = draw(st.randoms(use_true_random=False))
    names = ["n%d" % k for k in range(n)]
    ops = [["node", q, [k, 0.0, 0], False] for k, q in enumerate(names)]
    pairs = r.sample([(i, j) for i in range(n) for j in range(i)], draw(st.integers(5, 60)))
    ops += [["beam", "b%d" % k, names[i], names[j], r.random() < .5, False] for k, (i, j) in enumerate(pairs)]
    for k in range(draw(st.integers(3, 8))):
        if draw(st.booleans()):
            ops.append(["node", "m%d" % k, [draw(st.integers(0, n - 1)), draw(st.sampled_from([0.0, 0.2, 0.45, 0.8, 1.6, 50.0])), draw(st.integers(0, len(UNIT) - 1))], True])
        else:
            i, j = draw(gen.pick(*pairs))
            ops.append(["beam", "c%d" % k, *([names[i], names[j]] if draw(st.booleans()) else [names[j], names[i]]), draw(st.booleans()), True])
    return {"tol": draw(gen.pick(*[k for k, x in enumerate(SCALES) if x[0] is None or x[0] < 0.1])), "ops": ops}


def base(k):
    """the place of a node: on a grid, after the first few"""
    return BASE[k] if k < len(BASE) else [k % 5 - 2, k // 5 % 6 + 3, k // 30]


def o_dup(s):
    from hyperstatic.core.fe_model.model import Model
    from hyperstatic.common.tolerance import Tolerance
    tol, size = SCALES[s["tol"]]
    before = Tolerance.abs_tol()
    try:
        if tol is None:
            tol = 1e-9
            require(before == tol, "the default tolerance is %r" % before)
        else:
            rel = Tolerance.rel_tol()
            Tolerance.set_abs_tol(tol)
            require(Tolerance.abs_tol() == tol and Tolerance.rel_tol() == rel, "the tolerance is not the one set")
            if s.get("rel"):
                Tolerance.set_rel_tol(s["rel"])
                require(Tolerance.abs_tol() == tol and Tolerance.rel_tol() == s["rel"], "the tolerances are not the ones set")
                Tolerance.set_rel_tol(rel)
                require(Tolerance.rel_tol() == rel, "the relative tolerance is not the one set")
        run(Model(), s["ops"], tol, size)
    finally:
        Tolerance.set_abs_tol(before)


def run(m, ops, tol, size):
    m.add_isotropic_material("m", 7850.0, 2e11, 0.3, 1e-5)
    m.add_beam_section_rectangle("s", "m", .4, .2)
    nodes, beams = {}, {}                        # name -> (index, location / ends), in order of definition
    used = set()
    for o in ops:
        if o[0] == "node":
            _, name, (b, off, d), chk = o
            x = np.array(base(b), float) * size + off * tol * np.array(UNIT[d])
            if name in used:                     # members keep the node they were defined with
                continue
            near = []
            for n, (h, y) in nodes.items():
                r = np.linalg.norm(x - y) / tol
                if 0.9 < r < 1.1:                # too close to call
                    near = None
                    break
                if r <= 0.9:
                    near.append(n)
            if near is None:
                continue
            h = m.add_node(name, *x, check_dup=chk)
            if chk and near:
                require(h in [nodes[n][0] for n in near], "a node at %s is told to be node %r, which is not there" % (x, h))
            elif name in nodes:
                require(h == nodes[name][0], "redefined node %s has index %r" % (name, h))
                nodes[name] = (h, x)
            else:
                require(h == len(nodes), "new node %s has index %r of %d" % (name, h, len(nodes)))
                nodes[name] = (h, x)
        else:
            _, name, i, j, simple, chk = o
            if i not in nodes or j not in nodes or np.linalg.norm(nodes[i][1] - nodes[j][1]) < 0.1 * size:
                continue
            a, c = nodes[i][1], nodes[j][1]
            near, call = [], True
            for n, (h, p, q) in beams.items():
                for u, v in ((p, q), (q, p)):
                    r = max(np.linalg.norm(a - u), np.linalg.norm(c - v)) / tol
                    if 0.9 < r < 1.1:
                        call = False
                    elif r <= 0.9:
                        near.append(n)
            if not call:
                continue
            if simple:
                h = m.add_simple_beam(name, i, j, 2e11, .3, .1, 1e-4, 1e-4, 1e-4, 7850.0, check_dup=chk)
            else:
                h = m.add_beam(name, i, j, "s", check_dup=chk)
            if chk and near:
                require(h in [beams[n][0] for n in near], "a member %s-%s is told to be member %r, which runs elsewhere" % (i, j, h))
            else:
                require(h == (beams[name][0] if name in beams else len(beams)), "member %s has index %r of %d" % (name, h, len(beams)))
                beams[name] = (h, a, c)
                used |= {i, j}
        require(set(m.get_node_names()) == set(nodes) and m.node_count == len(nodes), "nodes %r instead of %r" % (m.get_node_names(), sorted(nodes)))
        require(set(m.get_beam_names()) == set(beams) and m.beam_count == len(beams), "members %r instead of %r" % (m.get_beam_names(), sorted(beams)))
        for n, (h, x) in nodes.items():
            require(m.get_node_hid(n) == h, "index of %s" % n)
            require(np.array_equal(np.asarray(m.get_node_location(n), float), x), "location of %s" % n)
        for n, (h, p, q) in beams.items():
            require(m.get_beam_hid(n) == h, "index of %s" % n)
            close(m.get_beam_location(n), [p, q], 1e-12, "ends of %s" % n, scale=10 * size)


def dup(s):
    seen, b = set(), set()
    for o in s["ops"]:
        if o[0] == "node":
            if o[3] and o[2][0] in seen and o[2][1] < 0.5:
                return True
            seen.add(o[2][0])
    return False


def again(s):
    seen = set()
    for o in s["ops"]:
        if o[0] == "beam" and o[2] != o[3]:
            e = tuple(sorted(o[2:4]))
            if o[5] and e in seen:
                return True
            seen.add(e)
    return False


def make():
    return Check("P27", [
        Sub("histories", spec(), o_dup, dup, "a node is added where there is one, with detection", quick=1500,
            classify=lambda s: ["tol%d" % s["tol"]] + sorted({"%s%s" % (o[0], "?" if o[-1] else "") for o in s["ops"]})),
        Sub("crowd", crowd(), o_dup, rule="every case", quick=40),
        Sub("members", members(), o_dup, again, "a member is added where there is one, with detection", quick=800),
    ], assumptions=["distances within a tenth of the tolerance itself are not judged", "tolerances below 1 (the axes of nodes are judged by the same tolerance)"])
