# Member end forces.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P10 import spec, ready, big
from .P11 import applied
from .P16 import schur


def run(s, w, fac=1.0):
    m = gen.build_model(s)
    gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), fac)])], w)
    return m


def o_reference(s):
    fr, u = ready(s)
    with gen.Work() as w:
        run(s, w)
        br = gen.beam_resolver(w)
        sc = gen.force_scale(fr, s["loads"]) * 20 + 1e-9
        for k in range(len(s["beams"])):
            e = np.asarray(br.resolve_beam_end_force(gen.bname(k), "c"), float)
            require(e.shape == (12,), "twelve end forces expected")
            close(e, fr.end_force(k, s["loads"]), 1e-6, "end forces of member %d" % k, scale=sc)


def o_member(s):
    """Each member is in equilibrium under its end forces and its own load."""
    fr, u = ready(s)
    with gen.Work() as w:
        run(s, w)
        br = gen.beam_resolver(w)
        for k in range(len(s["beams"])):
            e = np.asarray(br.resolve_beam_end_force(gen.bname(k), "c"), float)
            L = fr.L[k]
            own = {"nodal": [], "dist": [[b, q] for b, q in s["loads"]["dist"] if b == k], "conc": [x for x in s["loads"]["conc"] if x[0] == k]}
            F, M = applied(fr, own)                       # global, about the origin
            R = fr.R[k]
            a = fr.X[fr.beams[k]["i"]]
            F2 = R @ F
            M2 = R @ (M - np.cross(a, F))
            sc = gen.force_scale(fr, s["loads"]) * 30 + 1e-9
            close(e[:3] + e[6:9] + F2, np.zeros(3), 1e-6, "forces on member %d do not balance" % k, scale=sc)
            close(e[3:6] + e[9:12] + np.cross([L, 0, 0], e[6:9]) + M2, np.zeros(3), 1e-6, "moments on member %d do not balance" % k, scale=sc * max(1, L))


def o_joint(s):
    """At every joint the member end forces carry the applied load and the reaction."""
    fr, u = ready(s)
    with gen.Work() as w:
        m = run(s, w)
        br, nr = gen.beam_resolver(w), gen.node_resolver(w)
        tot = np.zeros((fr.n, 6))
        for k, b in enumerate(s["beams"]):
            e = np.asarray(br.resolve_beam_end_force(gen.bname(k), "c"), float)
            T = m.get_beam_transform_matrix(gen.bname(k))
            g = np.asarray(T.T @ e).ravel()
            tot[b["i"]] += g[:6]
            tot[b["j"]] += g[6:]
        for k, v in s["loads"]["nodal"]:
            tot[k] -= v
        sc = gen.force_scale(fr, s["loads"]) * 30 + 1e-9
        for k in range(fr.n):
            r = np.asarray(nr.resolve_nodal_reaction(gen.nname(k), "c"), float)
            close(tot[k], r, 1e-6, "joint %d" % k, scale=sc)


def history(s):
    """a time history: the displacements saved, the load at each instant"""
    from . import P21
    fr, free, K, M = P21.refmodal(s)
    assume(len(free) > 0)
    with gen.Work() as w:
        d = P21.run(s, w, P21.step(s, fr, K, M))
        full = np.zeros((len(d), 6 * fr.n))
        full[:, free] = d
        L = [gen.combine([(p, f * (c[t] if t < len(c) else 0.0)) for p, f, c in zip(s["loads"], s["fac"], s["crv"])]) for t in range(len(d))]
        yield fr, full, L, w


def o_history(s):
    """at each instant of a time history, the end forces are those of its displacements and loads"""
    for fr, d, L, w in history(s):
        br = gen.beam_resolver(w)
        for t in sorted({0, 1, len(d) // 2, len(d) - 2, len(d) - 1}):
            for k, b in enumerate(s["beams"]):
                q = fr.R[k] @ d[t].reshape(-1, 2, 3)[[b["i"], b["j"]]].reshape(4, 3, 1)
                q, f = q.ravel(), fr.member_f(k, L[t])
                K, f = schur(fr.k[k], f, b["rel"]) if b["rel"] and any(b["rel"]) else (fr.k[k], f)
                e = K @ q - f
                sc = np.max(np.abs(fr.k[k]) @ np.abs(q)) + gen.force_scale(fr, L[t]) + 1e-9
                close(br.resolve_beam_end_force(gen.bname(k), "th", t + 1), e, 1e-9, "end forces of member %d at step %d" % (k, t + 1), scale=sc)


def make():
    from .P21 import spec as history_spec
    nt = lambda s: gen.nonzero_load(s["loads"]) and len(s["beams"]) > 1
    return Check("P17", [
        Sub("reference", spec(), o_reference, nt, "loaded, several members", quick=150),
        Sub("member-equilibrium", spec(), o_member, nt, "loaded, several members", quick=120),
        Sub("joint-equilibrium", spec(), o_joint, nt, "loaded, several members", quick=120),
        Sub("history-released", history_spec(releases=True), o_history, lambda s: any(b["rel"] and any(b["rel"]) for b in s["beams"]) and any(gen.nonzero_load(L) and f and any(c) for L, f, c in zip(s["loads"], s["fac"], s["crv"])),
            "moving, some end released", quick=60),
        Sub("history", history_spec(), o_history, lambda s: any(gen.nonzero_load(L) and f and any(c) for L, f, c in zip(s["loads"], s["fac"], s["crv"])), "moving", quick=60),
        Sub("long-history", history_spec(long=True), o_history,
            lambda s: any(gen.nonzero_load(L) and f and any(c) for L, f, c in zip(s["loads"], s["fac"], s["crv"])), "moving", quick=10),
        Sub("many-nodes", big(20), o_joint, nt, "loaded, several members", quick=15),
        facade.sub(facade.end_forces, 120, lambda s: len(s["beams"]) > 1, ", several members"),
    ])
