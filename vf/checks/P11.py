# Global equilibrium and reactions.
import numpy as np
from hypothesis import strategies as st, assume
from .. import gen, ref, facade
from ..runner import Check, Sub, Violation, close, require
from .P10 import spec, ready, big


def applied(fr, loads):
    """Resultant force and moment about the origin, from the load definitions."""
    F, M = np.zeros(3), np.zeros(3)
    for k, v in loads["nodal"]:
        F += v[:3]
        M += np.cross(fr.X[k], v[:3]) + np.array(v[3:])
    for b, q in loads["dist"]:
        a, R, L = fr.X[fr.beams[b]["i"]], fr.R[b], fr.L[b]
        for xi, w in zip(ref.GX, ref.GW):
            t = [q[0], q[2], q[4]], [q[1], q[3], q[5]]
            f = R.T @ (np.array(t[0]) * (1 - xi) + np.array(t[1]) * xi) * w * L
            F += f
            M += np.cross(a + R[0] * xi * L, f) + R[0] * (q[6] * (1 - xi) + q[7] * xi) * w * L
    for b, v, r in loads["conc"]:
        a, R, L = fr.X[fr.beams[b]["i"]], fr.R[b], fr.L[b]
        f = R.T @ v[:3]
        F += f
        M += np.cross(a + R[0] * r * L, f) + R.T @ v[3:]
    return F, M


def o_equilibrium(s):
    fr, u = ready(s)
    with gen.Work() as w:
        m = gen.build_model(s)
        gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w)
        r = gen.node_resolver(w)
        F, M = applied(fr, s["loads"])
        sc = max(gen.force_scale(fr, s["loads"]), 1e-6) * 20
        fixed = gen.fixed_dofs(s["restr"])
        for k in range(fr.n):
            R = np.asarray(r.resolve_nodal_reaction(gen.nname(k), "c"), float)
            require(R.shape == (6,), "six reaction components expected")
            for d in range(6):
                if 6 * k + d not in fixed:
                    close(R[d], 0.0, 1e-6, "reaction in the free direction %d of node %d" % (d, k), scale=sc)
            F += R[:3]
            M += np.cross(fr.X[k], R[:3]) + R[3:]
        close(F, np.zeros(3), 1e-6, "reactions and loads do not balance (forces)", scale=sc)
        close(M, np.zeros(3), 1e-6, "reactions and loads do not balance (moments)", scale=sc * 10)


def o_reaction(s):
    fr, u = ready(s)
    with gen.Work() as w:
        m = gen.build_model(s)
        gen.solve(m, [gen.static_case("c", [(gen.build_pattern("p", s["loads"]), 1.0)])], w)
        r = gen.node_resolver(w)
        R = (fr.condensed_K() @ u - fr.condensed_F(s["loads"])).reshape(-1, 6)
        sc = max(gen.force_scale(fr, s["loads"]), 1e-6) * 20
        for k in range(fr.n):
            close(r.resolve_nodal_reaction(gen.nname(k), "c"), R[k], 1e-6, "reaction at node %d" % k, scale=sc)


def o_history(s):
    """at each instant of an undamped time history, a support gives what the structure there needs"""
    from .P17 import history
    for fr, d, L, w in history(s):
        r = gen.node_resolver(w)
        fixed = gen.fixed_dofs(s["crestr"] or s["restr"])
        for t in sorted({0, 1, len(d) // 2, len(d) - 2, len(d) - 1}):
            R = fr.condensed_K() @ d[t] - fr.condensed_F(L[t])
            sc = np.max(np.abs(fr.condensed_K()) @ np.abs(d[t])) + gen.force_scale(fr, L[t]) + 1e-9
            for k in sorted({i // 6 for i in fixed}):
                got = np.asarray(r.resolve_nodal_reaction(gen.nname(k), "th", t + 1), float)
                on = [c for c in range(6) if 6 * k + c in fixed]
                close(got[on], R[6 * k:6 * k + 6][on], 1e-9, "reaction at node %d, step %d" % (k, t + 1), scale=sc)


def make():
    from .P21 import spec as history_spec
    nt = lambda s: gen.nonzero_load(s["loads"])
    return Check("P11", [
        Sub("balance", spec(), o_equilibrium, nt, "loaded", quick=200),
        Sub("reactions", spec(), o_reaction, nt, "loaded", quick=120),
        Sub("history", history_spec().map(lambda s: dict(s, xi=0.0)), o_history,
            lambda s: any(gen.nonzero_load(L) and f and any(c) for L, f, c in zip(s["loads"], s["fac"], s["crv"])), "moving", quick=60),
        Sub("long-history", history_spec(long=True).map(lambda s: dict(s, xi=0.0)), o_history,
            lambda s: any(gen.nonzero_load(L) and f and any(c) for L, f, c in zip(s["loads"], s["fac"], s["crv"])), "moving", quick=10),
        Sub("many-nodes", big(20), o_equilibrium, nt, "loaded", quick=15),
        facade.sub(facade.balance, 120),
    ])
