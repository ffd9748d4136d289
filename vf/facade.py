# The structures of gen.py defined, solved and read through the façade (hyperstatic.core.Api).
import glob, os, pickle
import numpy as np
from hypothesis import strategies as st, assume
from . import gen, ref
from .runner import Sub, Violation, close, require


@st.composite
def scene(draw, n_max=5, cases=3, member=True, own=True):
    """a structure with nodal masses, patterns and static cases, some with their own restraints"""
    f = draw(gen.frame(2, n_max, releases=True, rotations=False))
    n = len(f["X"])
    f["pats"] = [draw(gen.loads_for(f, n_max=3, member=member)) for _ in range(draw(gen.pick(1, 2, 2, 3)))]
    f["cases"] = []
    for _ in range(draw(st.integers(1, cases))):
        ps = draw(st.permutations(list(range(len(f["pats"])))))[:draw(gen.pick(1, 3, 3))]
        r = []
        if own and draw(st.integers(0, 2)) == 0:
            fix = draw(st.integers(0, n - 1))
            r = [[k, [True] * 6 if k == fix else [draw(st.booleans()) for _ in range(6)]] for k in range(n) if k == fix or draw(st.booleans())]
        f["cases"].append({"p": [[p, draw(st.one_of(gen.num(-3, 3, 2), gen.pick(1, -1.0, 1e-6, 1e5)))] for p in ps], "r": r})
    f["order"] = draw(st.permutations(list(range(len(f["cases"])))))
    f["mass"] = [[k, [float(draw(st.integers(0, 500))) for _ in range(6)]] for k in range(n) if draw(st.booleans())]
    f["b"], f["xi"] = draw(st.integers(0, len(f["beams"]) - 1)), draw(st.one_of(gen.pick(0.0, 1.0, 0, 1), gen.num(0, 1, 3)))
    return f


def loads(s, c):
    return gen.combine([(s["pats"][p], f) for p, f in s["cases"][c]["p"]])


def fixed(s, c):
    return gen.fixed_dofs({str(k): v for k, v in s["cases"][c]["r"]} or s["restr"])


def expected(s):
    """the reference solution of every case"""
    out = []
    for c in range(len(s["cases"])):
        fr = gen.ref_frame(s)
        u = fr.solve(loads(s, c), fixed(s, c))
        assume(u is not None and fr.cond < 1e9)
        out.append((fr, u, loads(s, c)))
    return out


class Scene:
    """One façade, assembled, all its cases solved."""
    def __init__(self, path, s, names=None, node_order=None, beam_order=None, solve=True):
        from hyperstatic.core import Api
        self.path, self.s = path, s
        self.nn = (lambda k: names[0][k]) if names else gen.nname
        self.bn = (lambda k: names[1][k]) if names else gen.bname
        a = self.api = Api(path)
        ok = lambda r, what: require(r is True, "%s: %r" % (what, r))
        for k in node_order or range(len(s["X"])):
            ok(a.add_node(self.nn(k), *s["X"][k]), "add_node")
        for k, p in enumerate(s["props"]):
            mt, sc = p["mat"], p["sec"]
            ok(a.add_isotropic_material("m%d" % k, mt["rho"], mt["E"], mt["mu"], 1e-5), "add_isotropic_material")
            ok(a.add_beam_section_general("s%d" % k, "m%d" % k, sc["A"], .8, .7, sc["I2"], sc["I3"], sc["J"], 1, 2), "add_beam_section_general")
        for k in beam_order or range(len(s["beams"])):
            b = s["beams"][k]
            p = s["props"][b["p"]]
            mt, sc = p["mat"], p["sec"]
            if b["simple"]:
                ok(a.add_simple_beam(self.bn(k), self.nn(b["i"]), self.nn(b["j"]), mt["E"], mt["mu"], sc["A"], sc["I2"], sc["I3"], sc["J"], mt["rho"]), "add_simple_beam")
            else:
                ok(a.add_beam(self.bn(k), self.nn(b["i"]), self.nn(b["j"]), "s%d" % b["p"]), "add_beam")
            if b["rel"]:
                ok(a.set_beam_release(self.bn(k), *b["rel"]), "set_beam_release")
        en, sn = gen.shell_names(s) if "shells" in s else ("", "")
        for k, (sc, ty) in enumerate(zip(s.get("secs", ()), s.get("types", ()))):
            ok(a.add_isotropic_material("sm%d" % k, 7850.0, sc["E"], sc["mu"], 1e-5), "add_isotropic_material")
            ok(a.add_shell_section(sn % k, "sm%d" % k, sc["t"], *([] if ty == "shell" and k % 2 else [ty])), "add_shell_section")
        for k, e in enumerate(s.get("shells", ())):
            q = [self.nn(i) for i in e["n"]]
            ok(a.add_shell(en % k, *q[:3], q[3] if len(q) > 3 else None, sn % e["s"]), "add_shell")
        for k, v in s.get("mass", ()):
            ok(a.set_nodal_mass(self.nn(k), *v), "set_nodal_mass")
        for k, v in s["restr"].items():
            ok(a.set_nodal_restraint(self.nn(int(k)), *v), "set_nodal_restraint")
        for i, l in enumerate(s["pats"]):
            ok(a.add_loadpattern("p%d" % i), "add_loadpattern")
            for k, v in l["nodal"]:
                ok(a.set_nodal_load("p%d" % i, self.nn(k), *v), "set_nodal_load")
            for k, v in l["dist"]:
                ok(a.set_beam_load_distributed("p%d" % i, self.bn(k), *v), "set_beam_load_distributed")
            for k, v, r in l["conc"]:
                ok(a.set_beam_load_concentrated("p%d" % i, self.bn(k), *v, r), "set_beam_load_concentrated")
        for i, c in enumerate(s["cases"]):
            ok(a.add_static_case("c%d" % i), "add_static_case")
            for p, f in c["p"]:
                ok(a.add_case_pattern("c%d" % i, "p%d" % p, f), "add_case_pattern")
            for k, v in c["r"]:
                ok(a.set_loadcase_nodal_restraint("c%d" % i, self.nn(k), *v), "set_loadcase_nodal_restraint")
        ok(a.assemble(), "assemble")
        for c in s.get("order", ()) if solve else ():
            ok(a.solve_static("c%d" % c), "solve_static of case %d" % c)

    def assembly(self):
        """what assembling has saved"""
        from hyperstatic.core.fe_model.assembly import Assembly
        for f in sorted(glob.glob(os.path.join(self.path, "*")) + glob.glob(os.path.join(self.path, ".*"))):
            try:
                with open(f, "rb") as h:
                    a = pickle.load(h)
            except Exception:
                continue
            if isinstance(a, Assembly):
                return a
        raise Violation("assembling has saved no assembly")

    def got(self, v, n, what):
        v = np.asarray(v if v is not None else [], float)
        require(v.shape == (n,), "%s: %r" % (what, v))
        return v

    def disp(self, c):
        return np.concatenate([self.got(self.api.result_get_nodal_displacement(self.nn(k), "c%d" % c), 6, "displacement of node %d" % k) for k in range(len(self.s["X"]))])

    def all_disp(self, c):
        r = self.api.result_get_all_nodal_displacement("c%d" % c)
        require(r is not None and set(r) == {self.nn(k) for k in range(len(self.s["X"]))}, "nodes of the result: %r" % (r and sorted(r),))
        return np.concatenate([self.got(r[self.nn(k)], 6, "displacement") for k in range(len(self.s["X"]))])

    def react(self, c):
        return np.array([self.got(self.api.result_get_nodal_reaction(self.nn(k), "c%d" % c), 6, "reaction at node %d" % k) for k in range(len(self.s["X"]))])

    def end(self, k, c):
        return self.got(self.api.result_get_beam_end_force(self.bn(k), "c%d" % c), 12, "end forces of member %d" % k)

    def deform(self, k, xi, c):
        return self.got(self.api.result_get_beam_deformation(self.bn(k), xi, "c%d" % c), 6, "deformation of member %d" % k)


# --------------------------------------------------------------------------
# one oracle per property
# --------------------------------------------------------------------------
def dense(m):
    return np.asarray(m.toarray() if hasattr(m, "toarray") else m, float)


def stiffness(s):
    from .checks.P03 import cmp_groups
    with gen.Work() as w:
        a = Scene(w, s, solve=False).assembly()
        for k, b in enumerate(s["beams"]):
            d = gen.beam_data(s, b)
            L = np.linalg.norm(np.subtract(s["X"][b["j"]], s["X"][b["i"]]))
            cmp_groups(dense(a.get_beam_K(gen.bname(k))), ref.beam_K(d["E"], d["G"], d["A"], d["I2"], d["I3"], d["J"], L), L, 1e-8, "stiffness of member %d" % k)


def mass(s):
    with gen.Work() as w:
        M = dense(Scene(w, s, solve=False).assembly().assemble_M())
    D = np.zeros((len(s["X"]), 6))
    for b in s["beams"]:
        d = gen.beam_data(s, b)
        D[[b["i"], b["j"]], :3] += d["rho"] * d["A"] * np.linalg.norm(np.subtract(s["X"][b["j"]], s["X"][b["i"]])) / 2
    for k, v in s["mass"]:
        D[k] += v
    close(M, np.diag(D.ravel()), 1e-9, "global mass matrix", scale=max(np.max(D), 1.0))


def section(s):
    """s: P06.shape"""
    from hyperstatic.core import Api
    from .checks.P03 import norm_units
    from .checks.P06 import expected, tol_of
    with gen.Work() as w:
        a, mt = Api(w), s["mat"]
        ok = lambda r, what: require(r is True, "%s: %r" % (what, r))
        ok(a.add_node("1", 0, 0, 0), "add_node")
        ok(a.add_node("2", 0, s["L"], 0), "add_node")
        ok(a.add_isotropic_material("other", 1.0, 2.0, 0.1, 0.0), "add_isotropic_material")
        ok(a.add_isotropic_material("m", mt["rho"], mt["E"], mt["mu"], s["a"]), "add_isotropic_material")
        ok(getattr(a, "add_beam_section_" + s["k"])("s", "m", *s["z"]), "add_beam_section_" + s["k"])
        ok(a.add_beam("b", "1", "2", "s"), "add_beam")
        ok(a.assemble(), "assemble")
        x = Scene.__new__(Scene)
        x.path = w
        x = x.assembly()
        K, M = norm_units(dense(x.get_beam_K("b")), s["L"]), dense(x.assemble_M())
    ex = expected(s["k"], s["z"])
    Kr = norm_units(ref.beam_K(mt["E"], mt["E"] / 2 / (1 + mt["mu"]), ex["A"], ex["I22"], ex["I33"], ex["J"], s["L"]), s["L"])
    for g, q in (((0, 6), "A"), ((1, 5, 7, 11), "I33"), ((2, 4, 8, 10), "I22"), ((3, 9), "J")):
        ix = np.ix_(g, g)
        close(K[ix], Kr[ix], tol_of(s["k"], q), "member stiffness from %s of a %s section" % (q, s["k"]))
    close(M[0, 0], mt["rho"] * ex["A"] * s["L"] / 2, 1e-5, "member mass")


def member_loads(s):
    with gen.Work() as w:
        a = Scene(w, s, solve=False).assembly()
        fr = gen.ref_frame(s)
        for c in range(len(s["cases"])):
            L = loads(s, c)
            for k, b in enumerate(s["beams"]):
                if b["rel"] and any(b["rel"]):
                    continue
                e, f = fr.member_f(k, L), a.get_beam_f(gen.bname(k), "c%d" % c)
                close(np.zeros(12) if f is None else np.asarray(f, float).ravel(), e, 1e-8, "equivalent end forces of member %d, case %d" % (k, c), scale=gen.force_scale(fr, L))


def combined(s):
    with gen.Work() as w:
        a = Scene(w, s, solve=False).assembly()
        fr = gen.ref_frame(s)
        for c in range(len(s["cases"])):
            L = loads(s, c)
            close(dense(a.assemble_f("c%d" % c)).ravel(), fr.condensed_F(L), 1e-8, "load of case %d" % c, scale=gen.force_scale(fr, L))


def assembled(s):
    with gen.Work() as w:
        a = Scene(w, s, solve=False).assembly()
        fr = gen.ref_frame(s)
        n = 6 * fr.n
        K = a.assemble_K()
        Kd, q = dense(K), 1 / np.sqrt(np.diag(fr.K)[:n])
        close(q[:, None] * Kd * q, q[:, None] * fr.condensed_K() * q, 1e-8, "global stiffness matrix")
        require(a.DOF == n - len(gen.fixed_dofs(s["restr"])), "DOF %s" % a.DOF)
        for c in range(len(s["cases"])):
            free = [i for i in range(n) if i not in fixed(s, c)]
            f = a.assemble_f("c%d" % c)
            close(dense(a.assemble_boundary("c%d" % c, K)), Kd[np.ix_(free, free)], 1e-12, "reduced stiffness of case %d" % c)
            close(dense(a.assemble_boundary("c%d" % c, f)).ravel(), dense(f).ravel()[free], 1e-12, "reduced load of case %d" % c)


def displacements(s):
    ex = expected(s)
    with gen.Work() as w:
        x = Scene(w, s)
        for c, (fr, u, L) in enumerate(ex):
            gen.same_disp(x.disp(c), u, fr, "displacements of case %d" % c)
            gen.same_disp(x.all_disp(c), u, fr, "displacements of all nodes, case %d" % c)


def balance(s):
    from .checks.P11 import applied
    ex = expected(s)
    with gen.Work() as w:
        x = Scene(w, s)
        for c, (fr, u, L) in enumerate(ex):
            F, M = applied(fr, L)
            R = x.react(c)
            sc = max(gen.force_scale(fr, L), 1e-6) * 20
            on = fixed(s, c)
            for k in range(fr.n):
                for d in range(6):
                    if 6 * k + d not in on:
                        close(R[k, d], 0.0, 1e-6, "reaction in the free direction %d of node %d, case %d" % (d, k, c), scale=sc)
            close(F + R[:, :3].sum(0), np.zeros(3), 1e-6, "reactions and loads of case %d do not balance (forces)" % c, scale=sc)
            close(M + R[:, 3:].sum(0) + np.cross(fr.X, R[:, :3]).sum(0), np.zeros(3), 1e-6, "reactions and loads of case %d do not balance (moments)" % c, scale=sc * 10)
            close(R.ravel(), fr.condensed_K() @ u - fr.condensed_F(L), 1e-6, "reactions of case %d" % c, scale=sc)


def superposed(s):
    """every case = its patterns one by one"""
    n = len(s["pats"])
    t = dict(s, cases=[{"p": [[p, 1.0]], "r": s["cases"][0]["r"]} for p in range(n)] + [{"p": s["cases"][0]["p"], "r": s["cases"][0]["r"]}])
    t["order"] = [k for k in range(n + 1)]
    ex = expected(t)
    fr = ex[0][0]
    k = np.sqrt(np.diag(fr.K)[:6 * fr.n])
    with gen.Work() as w:
        x = Scene(w, t)
        fac = s["cases"][0]["p"]
        parts = [x.disp(p) * f for p, f in fac]
        gen.same_disp(x.disp(n), sum(parts), ex[n][0], "case of %d patterns" % len(fac), extra=3 * max(np.max(np.abs(k * p)) for p in parts))
        sc = max(gen.force_scale(fr, s["pats"][p]) * abs(f) for p, f in fac) * 30 + 1e-9
        close(x.react(n), sum(x.react(p) * f for p, f in fac), 1e-6, "reactions of the case of %d patterns" % len(fac), scale=sc)
        for b in range(len(s["beams"])):
            close(x.end(b, n), sum(x.end(b, p) * f for p, f in fac), 1e-6, "end forces of the case of %d patterns" % len(fac), scale=sc)


def renamed(s):
    """any names, any order of definition"""
    ex = expected(s)
    with gen.Work() as w:
        x = Scene(w, s, (s["nn"], s["bn"]), s["no"], s["bo"])
        for c, (fr, u, L) in enumerate(ex):
            gen.same_disp(x.disp(c), u, fr, "displacements of case %d, by name" % c)
            gen.same_disp(x.all_disp(c), u, fr, "displacements of all nodes, case %d, by name" % c)
            sc = gen.force_scale(fr, L) * 30 + 1e-9
            for k in range(len(s["beams"])):
                close(x.end(k, c), fr.end_force(k, L), 1e-6, "end forces of member %r, case %d" % (s["bn"][k], c), scale=sc)
        require(x.api.get_node_names() == [s["nn"][k] for k in s["no"]] and x.api.get_beam_names() == [s["bn"][k] for k in s["bo"]], "names in the order of definition")


@st.composite
def named(draw):
    from .checks.P13 import NAME
    f = draw(scene(cases=2))
    n, m = len(f["X"]), len(f["beams"])
    f["nn"], f["bn"] = draw(st.lists(NAME, min_size=n, max_size=n, unique=True)), draw(st.lists(NAME, min_size=m, max_size=m, unique=True))
    f["no"], f["bo"] = draw(st.permutations(list(range(n)))), draw(st.permutations(list(range(m))))
    return f


@st.composite
def divisible(draw):
    """some member has neither load nor releases"""
    f = draw(scene(cases=2))
    k = f["b"]
    f["beams"][k]["rel"] = None
    for l in f["pats"]:
        l["dist"], l["conc"] = [q for q in l["dist"] if q[0] != k], [q for q in l["conc"] if q[0] != k]
    f["xi"] = draw(st.integers(1, 19)) / 20.0
    return f


@st.composite
def loose_ends(draw):
    return gen.release_some(draw, draw(scene()))


def restrained(s):
    ex = expected(s)
    with gen.Work() as w:
        x = Scene(w, s)
        for c, (fr, u, L) in enumerate(ex):
            d = x.disp(c)
            require(not np.any(d[sorted(fixed(s, c))]), "a restrained DOF moved in case %d" % c)
            gen.same_disp(d, u, fr, "displacements of case %d" % c)
            r = x.api.get_node_restraints("c%d" % c)
            require(r is not None and {k: list(map(bool, v)) for k, v in r.items()} == {gen.nname(k): v for k, v in s["cases"][c]["r"]}, "restraints of case %d read back" % c)
        r = x.api.get_node_restraints()
        require(r is not None and {k: list(map(bool, v)) for k, v in r.items() if any(v)} == {gen.nname(int(k)): v for k, v in s["restr"].items() if any(v)}, "restraints of the model read back")


def end_forces(s):
    ex = expected(s)
    with gen.Work() as w:
        x = Scene(w, s)
        for c, (fr, u, L) in enumerate(ex):
            sc = gen.force_scale(fr, L) * 20 + 1e-9
            for k, b in enumerate(s["beams"]):
                e = x.end(k, c)
                close(e, fr.end_force(k, L), 1e-6, "end forces of member %d, case %d" % (k, c), scale=sc)
                for d in range(12):
                    if b["rel"] and b["rel"][d]:
                        close(e[d], 0.0, 1e-6, "released end %d of member %d carries force" % (d, k), scale=sc)


def released(s):
    displacements(s)
    end_forces(s)


def deformation(s):
    ex = expected(s)
    with gen.Work() as w:
        x = Scene(w, s)
        for c, (fr, u, L) in enumerate(ex):
            for k, b in enumerate(s["beams"]):
                if b["rel"] and any(b["rel"]) or any(k == q[0] for q in L["dist"] + L["conc"]):
                    continue
                loc = fr.T[k] @ np.concatenate([u[6 * b["i"]:6 * b["i"] + 6], u[6 * b["j"]:6 * b["j"] + 6]])
                m = np.max(np.abs(u.reshape(-1, 6)[:, :3])) + np.max(np.abs(u.reshape(-1, 6)[:, 3:])) * fr.L[k]
                # results of tiny loads are results, too; rounding of what cancels is none
                m = max(m, 1e-6 * np.max(np.abs(fr.load_vector(L))) / np.min(np.diag(fr.K)[:6 * fr.n]), 1e-300)
                for xi in (s["xi"], 0.0, 1.0):
                    d = x.deform(k, xi, c)
                    e = np.concatenate([ref.N_matrix(xi, fr.L[k]) @ loc, ref.slope_matrix(xi, fr.L[k])[::-1] @ loc])
                    close(d[:3], e[:3], 1e-6, "displacement at %g of member %d, case %d" % (xi, k, c), scale=m)
                    close(d[3:], e[3:], 1e-6, "twist and slopes at %g of member %d, case %d" % (xi, k, c), scale=m / fr.L[k])


def subdivided(s):
    """a joint put into a member without releases"""
    k = s["b"]
    b = s["beams"][k]
    ex = expected(s)
    X = np.array(s["X"], float)
    n = len(X)
    t = dict(s, X=list(s["X"]) + [(X[b["i"]] + s["xi"] * (X[b["j"]] - X[b["i"]])).tolist()])
    t["beams"] = [dict(b, j=n) if q == k else x for q, x in enumerate(s["beams"])] + [dict(b, i=n)]
    with gen.Work() as w:
        x = Scene(w, t)
        for c, (fr, u, L) in enumerate(ex):
            sc = gen.force_scale(fr, L) * 20 + 1e-9
            gen.same_disp(x.disp(c)[:6 * n], u, fr, "displacements of the subdivided structure, case %d" % c, tol=1e-5)
            e = np.concatenate([x.end(k, c)[:6], x.end(len(s["beams"]), c)[6:]])
            close(e, fr.end_force(k, L), 1e-5, "end forces of the subdivided member, case %d" % c, scale=sc)


def sub(oracle, quick=50, some=lambda s: True, what="", source=None, **kw):
    """a Sub over scenes"""
    return Sub("facade", source if source is not None else scene(**kw), oracle, lambda s: any(gen.nonzero_load(l) for l in s["pats"]) and some(s), "loaded" + what, quick=quick,
               classify=lambda s: ["cases%d" % len(s["cases"]), "own restraints" if any(c["r"] for c in s["cases"]) else "model's restraints"])
