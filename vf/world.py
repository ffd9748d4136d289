# -*- coding: utf-8 -*-
"""Model-based histories of a whole analysis session on the façade: definitions,
edits, assembling, solving, querying, saving and loading, next to a plain record
of what was defined.  What the façade answers must be what the independent frame
solver says about the record at the last assembly."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .runner import Violation, close, require

# names of nodes, members, patterns, static cases and the modal case
SCHEMES = [
    ("n%d", "b%d", ["p0", "p1"], ["c0", "c1", "0"], "modal"),
    ("%d", "%d", ["0", "1"], ["1", "2", "3"], "0"),                    # the same names for everything
    ("b%d", "b%d1", ["b0", "b01 dead"], ["b1", "B1", "b1 "], "b"),     # beginnings of each other
    ("N %d", "N_%d", ["N 0", "N_0"], ["load 1", "load_1", "Load 1"], "load"),
    ("n.%d", "\u6881%d", ["a@1", "a@2"], ["c@1", "c@2", "c.1"], "c"),
]
N_PATS, N_CASES = 2, 3


@st.composite
def start(draw):
    """A supported, loaded structure and two cases."""
    f = draw(gen.frame(2, 4, extra=2, rotations=False))
    f["pats"] = [draw(gen.loads_for(f, n_max=2)) for _ in range(N_PATS)]
    f["cases"] = [[[draw(st.integers(0, 1)), draw(gen.pick(1.0, -2.0, 0.5))] for _ in range(draw(st.integers(1, 2)))] for _ in range(N_CASES)]
    f["scheme"] = draw(st.one_of(st.just(0), st.integers(0, len(SCHEMES) - 1)))
    return f


small = st.integers(0, 5)
six = st.lists(gen.load(), min_size=6, max_size=6)
flags = st.lists(st.booleans(), min_size=6, max_size=6)
masses = st.lists(st.one_of(st.just(0), gen.num(0, 2000, 1), st.integers(0, 300)), min_size=3, max_size=3)


def op_kinds():
    c, p = st.integers(0, N_CASES - 1), st.integers(0, 1)
    return {
        "beam": st.tuples(st.just("beam"), small, small, st.booleans(), st.booleans()),
        "span": st.tuples(st.just("span"), small, small, small),
        "grow": st.tuples(st.just("grow"), small, gen.unit_vec.map(list), small, st.booleans()),
        "restr": st.tuples(st.just("restr"), small, flags),
        "release": st.tuples(st.just("release"), small, gen.release_set()),
        "nload": st.tuples(st.just("nload"), p, small, six),
        "dist": st.tuples(st.just("dist"), p, small, st.lists(gen.load(), min_size=8, max_size=8)),
        "conc": st.tuples(st.just("conc"), p, small, six, gen.num(0, 1, 2)),
        "cpat": st.tuples(st.just("cpat"), c, p, gen.pick(1.0, 2.0, -1.5, 0.0, 0)),
        "resec": st.tuples(st.just("resec"), small, gen.beamprop, st.booleans()),
        "case": st.tuples(st.just("case"), c, p, gen.pick(1.0, 3.0)),
        "repat": st.tuples(st.just("repat"), p, st.integers(0, 2), small, six),
        "crestr": st.tuples(st.just("crestr"), c, small, flags),
        "assemble": st.tuples(st.just("assemble")),
        "solve": st.tuples(st.just("solve"), c),
        "fresh": st.tuples(st.just("fresh"), c),          # assemble, then solve
        "mass": st.tuples(st.just("mass"), small, masses),
        "mrestr": st.tuples(st.just("mrestr"), small, flags),
        "modal": st.tuples(st.just("modal"), st.integers(1, 3)),
        "freshmodal": st.tuples(st.just("freshmodal"), st.integers(1, 3)),
        "query": st.tuples(st.just("query")),
        "save": st.tuples(st.just("save"), st.integers(0, 2)),
        "load": st.tuples(st.just("load"), st.integers(0, 2)),
    }


@st.composite
def session(draw, sites=2, ends=("fresh",), without=(), rounds=4):
    """Rounds of a few edits, each closed by one of `ends`; in half of the
    sessions only a few kinds of edit, so that the same thing is set again."""
    pool = op_kinds()
    names = [k for k in sorted(pool) if k not in without]
    if draw(st.booleans()):
        names = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
    who = st.integers(0, sites - 1) if sites > 1 else st.just(0)
    edit = gen.one_by_key(pool, names).map(list)
    ops = []
    for _ in range(draw(st.integers(2, rounds))):
        k = draw(who)
        for _ in range(draw(st.integers(1, 3))):
            ops.append([k if draw(st.integers(0, 3)) else draw(who), draw(edit)])
        ops.append([k, draw(gen.one_by_key(pool, ends).map(list))])
    return {"starts": [draw(start()) for _ in range(sites)], "ops": ops}


class Defs:
    """What has been defined through one façade."""
    def __init__(self, s):
        self.props = s["props"]
        self.X = [list(x) for x in s["X"]]
        self.beams = [dict(b, rot=0.0, rel=None) for b in s["beams"]]
        self.restr = {int(k): list(v) for k, v in s["restr"].items()}
        self.pats = [{"nodal": {}, "dist": {}, "conc": {}} for _ in range(N_PATS)]
        self.cases = [{"pats": {}, "restr": {}} for _ in range(N_CASES)]
        self.mass, self.mrestr = {}, {}

    def loads(self, c):
        out = []
        for p, f in self.cases[c]["pats"].items():
            q = self.pats[p]
            out.append(({"nodal": [[k, v] for k, v in q["nodal"].items()], "dist": [[k, v] for k, v in q["dist"].items()],
                         "conc": [[k, v[0], v[1]] for k, v in q["conc"].items()]}, f))
        return gen.combine(out)

    def spec(self):
        return {"X": self.X, "props": self.props, "beams": self.beams, "restr": {str(k): v for k, v in self.restr.items()}}


class Site:
    """One façade in one work path."""
    def __init__(self, s, path):
        from hyperstatic.core import Api
        self.path, self.api, self.defs = path, Api(path), Defs(s)
        nn, bn, self.pats, self.cases, self.modal_case = SCHEMES[s.get("scheme", 0)]
        self.nn, self.bn = (lambda k: nn % k), (lambda k: bn % k)
        self.assembled, self.results, self.saved = None, {}, {}
        a = self.api
        for k, x in enumerate(self.defs.X):
            require(a.add_node(self.nn(k), *x) is True, "add_node")
        for k, p in enumerate(s["props"]):
            mt, sc = p["mat"], p["sec"]
            require(a.add_isotropic_material("m%d" % k, mt["rho"], mt["E"], mt["mu"], 1e-5) is True, "add_isotropic_material")
            require(a.add_beam_section_general("s%d" % k, "m%d" % k, sc["A"], .8, .7, sc["I2"], sc["I3"], sc["J"], 1, 2) is True, "section")
        for k in range(len(self.defs.beams)):
            self.put_beam(k)
        for k, b in enumerate(s["beams"]):
            if b["rel"]:
                self.release(k, b["rel"])
        for k, v in self.defs.restr.items():
            require(a.set_nodal_restraint(self.nn(k), *v) is True, "set_nodal_restraint")
        for p, l in enumerate(s["pats"]):
            require(a.add_loadpattern(self.pats[p]) is True, "add_loadpattern")
            for k, v in l["nodal"]:
                self.apply(["nload", p, k, v])
            for k, v in l["dist"]:
                self.apply(["dist", p, k, v])
            for k, v, r in l["conc"]:
                self.apply(["conc", p, k, v, r])
        for c, ps in enumerate(s["cases"]):
            require(a.add_static_case(self.cases[c]) is True, "add_static_case")
            for p, f in ps:
                self.apply(["cpat", c, p, f])
        require(a.add_modal_case(self.modal_case) is True, "add_modal_case")

    def put_beam(self, k):
        b = self.defs.beams[k]
        p = self.defs.props[b["p"]]
        mt, sc = p["mat"], p["sec"]
        a = self.api
        if b.get("simple"):
            ok = a.add_simple_beam(self.bn(k), self.nn(b["i"]), self.nn(b["j"]), mt["E"], mt["mu"], sc["A"], sc["I2"], sc["I3"], sc["J"], mt["rho"])
        else:
            ok = a.add_beam(self.bn(k), self.nn(b["i"]), self.nn(b["j"]), "s%d" % b["p"])
        require(ok is True, "adding a member")

    def release(self, k, rel):
        require(self.api.set_beam_release(self.bn(k), *rel) is True, "set_beam_release")
        self.defs.beams[k]["rel"] = list(rel) if any(rel) else None

    # ---------------------------------------------------------- the reference
    def reference(self, c):
        d = self.assembled
        if d is None:
            return None
        fr = gen.ref_frame(d.spec())
        case = d.cases[c]
        fixed = gen.fixed_dofs(case["restr"] or d.restr)
        if case["restr"] and not fixed:
            return None
        L = d.loads(c)
        u = fr.solve(L, fixed)
        if u is None or fr.cond > 1e9:
            return None
        return fr, u, L

    def deformation(self, k, c, fr, u, L):
        """a member without load and releases follows the interpolation of its ends"""
        b = fr.beams[k]
        if self.assembled.beams[k]["rel"] or any(k == x[0] for x in L["dist"] + L["conc"]):
            return
        xi = (0.3, 0.0, 1.0, 0.62, 0.999, 0.05)[(3 * k + len(L["nodal"]) + len(self.defs.X) + c) % 6]
        d = np.asarray(self.api.result_get_beam_deformation(self.bn(k), xi, self.cases[c]), float)
        require(d.shape == (6,), "six values of the deformation of member %d" % k)
        loc = fr.T[k] @ np.concatenate([u[6 * b["i"]:6 * b["i"] + 6], u[6 * b["j"]:6 * b["j"] + 6]])
        e = np.concatenate([ref.N_matrix(xi, fr.L[k]) @ loc, ref.slope_matrix(xi, fr.L[k])[::-1] @ loc])
        v = u.reshape(-1, 6)
        m = np.max(np.abs(v[:, :3])) + np.max(np.abs(v[:, 3:])) * fr.L[k]
        close(d[:3], e[:3], 1e-5, "displacement inside member %d, case %s" % (k, self.cases[c]), scale=m + 1e-12)
        close(d[3:], e[3:], 1e-5, "slopes inside member %d, case %s" % (k, self.cases[c]), scale=m / fr.L[k] + 1e-12)

    def check(self, c, everything=False):
        r = self.results.get(c)
        if r is None:
            return False
        fr, u, L = r
        a, case = self.api, self.cases[c]
        al = {self.nn(k): a.result_get_nodal_displacement(self.nn(k), case) for k in range(fr.n)}
        require(all(v is not None for v in al.values()), "no displacements of case %s" % case)
        gen.same_disp(np.concatenate([al[self.nn(k)] for k in range(fr.n)]), u, fr, "displacements of case %s" % case)
        al = a.result_get_all_nodal_displacement(case)      # those of the assembly: nodes defined since have no results
        require(al is not None and set(al) == {self.nn(k) for k in range(fr.n)}, "nodes of the result of %s: %r" % (case, al and sorted(al)))
        gen.same_disp(np.concatenate([al[self.nn(k)] for k in range(fr.n)]), u, fr, "displacements of case %s at once" % case)
        R = (fr.condensed_K() @ u - fr.condensed_F(L)).reshape(-1, 6)
        sc = gen.force_scale(fr, L, R) * 10
        for k in range(fr.n) if everything else [fr.n - 1]:
            close(a.result_get_nodal_reaction(self.nn(k), case), R[k], 1e-5, "reaction at node %d, case %s" % (k, case), scale=sc)
        for k in range(len(fr.beams)) if everything else [len(fr.beams) - 1]:
            close(a.result_get_beam_end_force(self.bn(k), case), fr.end_force(k, L), 1e-5, "end forces of member %d, case %s" % (k, case), scale=sc)
            self.deformation(k, c, fr, u, L)
        return True

    # ------------------------------------------------------------- operations
    def apply(self, o):
        a, d, k = self.api, self.defs, o[0]
        n, m = len(d.X), len(d.beams)
        if k == "beam":                          # another section, other direction
            b = d.beams[o[1] % m]
            b.update(p=o[2] % len(d.props), simple=o[3], rel=None)
            if o[4]:
                b["i"], b["j"] = b["j"], b["i"]
            self.put_beam(o[1] % m)
        elif k == "resec":                       # a section defined anew, with the members that have it
            q = o[1] % len(d.props)
            old = d.props[q]
            new = dict(o[2], mat=o[2]["mat"] if o[3] else old["mat"])
            d.props = d.props[:q] + [new] + d.props[q + 1:]
            mt, sc = new["mat"], new["sec"]
            if o[3]:
                require(a.add_isotropic_material("m%d" % q, mt["rho"], mt["E"], mt["mu"], 1e-5) is True, "add_isotropic_material")
            require(a.add_beam_section_general("s%d" % q, "m%d" % q, sc["A"], .8, .7, sc["I2"], sc["I3"], sc["J"], 1, 2) is True, "section")
            for j, b in enumerate(d.beams):
                if b["p"] == q:
                    b["rel"] = None
                    self.put_beam(j)
        elif k == "span":                        # a further member
            i, j = o[1] % n, o[2] % n
            if i == j or any({b["i"], b["j"]} == {i, j} for b in d.beams) or m > 8:
                return
            d.beams.append({"i": i, "j": j, "p": o[3] % len(d.props), "rot": 0.0, "rel": None, "simple": False})
            self.put_beam(m)
        elif k == "grow":                        # a further node, tied to the rest
            if n > 6:
                return
            v = np.array(o[2])
            x = np.round(np.array(d.X[o[1] % n]) + v / np.linalg.norm(v) * 1.7, 3)
            if min(np.linalg.norm(x - np.array(y)) for y in d.X) < 0.4:
                return
            d.X.append(x.tolist())
            require(a.add_node(self.nn(n), *d.X[n]) is True, "add_node")
            i, j = (o[1] % n, n) if o[4] else (n, o[1] % n)
            d.beams.append({"i": i, "j": j, "p": o[3] % len(d.props), "rot": 0.0, "rel": None, "simple": False})
            self.put_beam(m)
        elif k == "restr":
            d.restr[o[1] % n] = list(o[2])
            require(a.set_nodal_restraint(self.nn(o[1] % n), *o[2]) is True, "set_nodal_restraint")
        elif k == "release":
            self.release(o[1] % m, o[2])
        elif k == "nload":
            d.pats[o[1]]["nodal"][o[2] % n] = list(o[3])
            require(a.set_nodal_load(self.pats[o[1]], self.nn(o[2] % n), *o[3]) is True, "set_nodal_load")
        elif k == "dist":
            d.pats[o[1]]["dist"][o[2] % m] = list(o[3])
            require(a.set_beam_load_distributed(self.pats[o[1]], self.bn(o[2] % m), *o[3]) is True, "set_beam_load_distributed")
        elif k == "conc":
            d.pats[o[1]]["conc"][o[2] % m] = [list(o[3]), o[4]]
            require(a.set_beam_load_concentrated(self.pats[o[1]], self.bn(o[2] % m), *o[3], o[4]) is True, "set_beam_load_concentrated")
        elif k == "cpat":
            d.cases[o[1]]["pats"][o[2]] = o[3]
            require(a.add_case_pattern(self.cases[o[1]], self.pats[o[2]], o[3]) is True, "add_case_pattern")
        elif k == "repat":                       # a pattern defined anew, with no load or another, and given to its cases again
            d.pats[o[1]] = {"nodal": {}, "dist": {}, "conc": {}}
            require(a.add_loadpattern(self.pats[o[1]]) is True, "add_loadpattern")
            if o[2] == 1:
                self.apply(["nload", o[1], o[3], o[4]])
            elif o[2] == 2:
                self.apply(["conc", o[1], o[3], o[4], 0.25])
            for c, x in enumerate(d.cases):
                if o[1] in x["pats"]:
                    self.apply(["cpat", c, o[1], x["pats"][o[1]]])
        elif k == "case":                        # defined anew
            d.cases[o[1]] = {"pats": {o[2]: o[3]}, "restr": {}}
            require(a.add_static_case(self.cases[o[1]]) is True, "add_static_case")
            require(a.add_case_pattern(self.cases[o[1]], self.pats[o[2]], o[3]) is True, "add_case_pattern")
        elif k == "crestr":
            d.cases[o[1]]["restr"][str(o[2] % n)] = list(o[3])
            require(a.set_loadcase_nodal_restraint(self.cases[o[1]], self.nn(o[2] % n), *o[3]) is True, "set_loadcase_nodal_restraint")
        elif k == "assemble":
            self.assemble()
        elif k == "solve":
            self.solve(o[1])
        elif k == "fresh":
            self.assemble()
            self.solve(o[1])
        elif k == "mass":
            d.mass[o[1] % n] = list(o[2])
            require(a.set_nodal_mass(self.nn(o[1] % n), *o[2]) is True, "set_nodal_mass")
        elif k == "mrestr":
            d.mrestr[str(o[1] % n)] = list(o[2])
            require(a.set_loadcase_nodal_restraint(self.modal_case, self.nn(o[1] % n), *o[2]) is True, "set_loadcase_nodal_restraint")
        elif k == "modal":
            self.modal(o[1])
        elif k == "freshmodal":
            self.assemble()
            self.modal(o[1])
        elif k == "query":
            for c in range(N_CASES):
                self.check(c, True)
        elif k == "save":
            require(a.save("slot%d" % o[1]) is True, "save")
            require(os.path.exists(os.path.join(self.path, "slot%d.sep" % o[1])), "nothing was saved")
            self.saved[o[1]] = copy.deepcopy(d)
        elif k == "load":
            from hyperstatic.core import Api
            b = Api.load(self.path, "slot%d" % o[1])
            if o[1] not in self.saved:
                require(b is None, "something was loaded from a file that does not exist")
                return
            require(b is not None, "a saved file could not be loaded")
            self.api, self.defs = b, copy.deepcopy(self.saved[o[1]])
        else:
            raise AssertionError(k)

    def assemble(self):
        require(self.api.assemble() is True, "assemble")
        self.assembled = copy.deepcopy(self.defs)
        self.results = {}

    def solve(self, c):
        if self.assembled is None:
            return
        self.results.pop(c, None)
        r = self.reference(c)
        ok = self.api.solve_static(self.cases[c])
        if r is None:
            return
        require(ok is True, "solve_static returned %r" % (ok,))
        self.results[c] = r
        self.check(c)

    def modal(self, k):
        """the first mode is the lowest of the structure and masses at the last assembly"""
        d = self.assembled
        if d is None:
            return
        r = None
        if not any(b["rel"] for b in d.beams):
            from .checks import P20
            fr, free, K, M = P20.refmodal(dict(d.spec(), mass=[[q, v + [0.0] * 3] for q, v in d.mass.items()], crestr=d.mrestr))
            if len(free) and (gen.fixed_dofs(d.mrestr) or not d.mrestr) and not fr.loose(free):
                sc = 1 / np.sqrt(np.diag(K))
                if np.linalg.cond(K * sc[:, None] * sc) < 1e8 and np.sum(M > 1e-6) >= 2 * k:
                    r = fr, free, K, M
        try:
            ok = self.api.solve_modal(self.modal_case, k)
        except Exception as e:
            ok = e
        if r is None:
            return
        require(ok is True, "solve_modal returned %r" % (ok,))
        fr, free, K, M = r
        al = [self.api.result_get_nodal_displacement(self.nn(q), self.modal_case) for q in range(fr.n)]
        require(all(v is not None for v in al), "no mode")
        v = np.concatenate(al)
        held = np.setdiff1d(np.arange(6 * fr.n), free)
        require(not np.any(v[held]), "a restrained DOF moves in the mode")
        v = v[free]
        w2 = P20.lowest(K, M, 1)[0]
        sc = np.sqrt(np.diag(K))
        top = np.max(np.abs(sc * v))
        require(np.isfinite(top) and top > 0, "mode %s" % v)
        close((v @ K @ v) / (v @ (M * v)), w2, 1e-4, "squared frequency of the first mode")
        res = np.max(np.abs((K @ v - w2 * M * v) / sc))
        require(res <= 2e-4 * max(top, np.max(np.abs(w2 * M * v / sc))), "the first mode does not satisfy the eigenvalue equation (%g)" % res)

    def same_definitions(self):
        """what the façade reports about the definitions"""
        a, d = self.api, self.defs
        require(sorted(a.get_node_names()) == sorted(self.nn(k) for k in range(len(d.X))), "nodes %r" % (a.get_node_names(),))
        require(sorted(a.get_beam_names()) == sorted(self.bn(k) for k in range(len(d.beams))), "beams %r" % (a.get_beam_names(),))
        for k, x in enumerate(d.X):
            close(a.get_node_location(self.nn(k)), x, 1e-12, "location of node %d" % k, scale=10.0)
        for k, b in enumerate(d.beams):
            require(a.get_beam_node_names(self.bn(k)) == (self.nn(b["i"]), self.nn(b["j"])), "ends of member %d" % k)
        g = a.get_node_restraints()
        require(set(g) == {self.nn(k) for k in d.restr}, "restrained nodes %r" % (sorted(g),))
        for k, v in d.restr.items():
            require([bool(x) for x in g[self.nn(k)]] == v, "restraints of node %d" % k)
        for p, q in enumerate(d.pats):
            g = a.get_all_nodal_load(self.pats[p])
            require(set(g) == {self.nn(k) for k in q["nodal"]}, "loaded nodes of %s" % self.pats[p])
            for k, v in q["nodal"].items():
                close(g[self.nn(k)], v, 1e-12, "load of node %d in %s" % (k, self.pats[p]), scale=1e4)
        for c, q in enumerate(d.cases):
            g = a.get_node_restraints(self.cases[c])
            require(set(g) == {self.nn(int(k)) for k in q["restr"]}, "restrained nodes of %s" % self.cases[c])
            for k, v in q["restr"].items():
                require([bool(x) for x in g[self.nn(int(k))]] == v, "restraints of node %s in %s" % (k, self.cases[c]))


def play(s, each=None):
    """runs a session; every solved case is compared at once and, at the end,
    all results that are still valid once more"""
    with gen.Work() as w:
        sites = [Site(f, os.path.join(w, "site%d" % k)) for k, f in enumerate(s["starts"])]
        for k, o in s["ops"]:
            site = sites[k % len(sites)]
            site.apply(o)
            if each:
                each(site, o)
        for site in sites:
            site.apply(["query"])
        return sites
